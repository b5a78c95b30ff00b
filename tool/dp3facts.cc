// dp3facts: dumps a resolved, compact form of the C++ program (AST + CFG +
// record/enum tables) of one translation unit as JSON, for the analyses in
// /verif/dp3a.  It only reads source; nothing of DP3 is executed.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Frontend/TextDiagnosticBuffer.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot = "/repo/";
static std::string gOut;

static std::string RelFile(const SourceManager& sm, SourceLocation loc) {
  loc = sm.getExpansionLoc(loc);
  llvm::StringRef f = sm.getFilename(loc);
  llvm::SmallString<256> p(f);
  llvm::sys::path::remove_dots(p, true);
  return std::string(p.str());
}

class Dumper {
 public:
  Dumper(ASTContext& c, llvm::raw_ostream& os)
      : ctx(c), sm(c.getSourceManager()), os(os), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.AnonymousTagLocations = false;
  }
  ASTContext& ctx;
  const SourceManager& sm;
  llvm::raw_ostream& os;
  PrintingPolicy pp;
  std::map<const Decl*, int> declIds;
  std::map<const void*, int> typeIds;
  json::Array types;
  std::map<const Stmt*, int> nodeIds;  // canonical node -> id
  int nextNode = 0;
  std::set<const FunctionDecl*> doneFns;
  std::vector<const CXXMethodDecl*> pendingLambdas;

  bool inRepo(SourceLocation loc) const {
    if (loc.isInvalid()) return false;
    std::string f = RelFile(sm, loc);
    return f.rfind(gRoot, 0) == 0;
  }

  int declId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    int id = declIds.size() + 1;
    declIds[d] = id;
    return id;
  }

  int typeId(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    void* key = q.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    typeIds[key] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = q.getAsString(pp);
    if (q.isConstQualified()) o["const"] = true;
    const Type* t = q.getTypePtr();
    if (t->isReferenceType()) {
      o["k"] = t->isRValueReferenceType() ? "rref" : "ref";
      o["p"] = typeId(t->getPointeeType());
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["p"] = typeId(t->getPointeeType());
    } else if (t->isBooleanType()) {
      o["k"] = "bool";
      o["w"] = 8;
      o["u"] = true;
    } else if (t->isEnumeralType()) {
      o["k"] = "enum";
      o["rec"] = t->castAs<EnumType>()->getDecl()->getQualifiedNameAsString();
      if (!t->isIncompleteType() && !t->isDependentType()) {
        o["w"] = (int64_t)ctx.getTypeSize(q);
        o["u"] = t->isUnsignedIntegerOrEnumerationType();
      }
    } else if (t->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)ctx.getTypeSize(q);
      o["u"] = t->isUnsignedIntegerType();
    } else if (t->isRealFloatingType()) {
      o["k"] = "float";
      o["w"] = (int64_t)ctx.getTypeSize(q);
    } else if (const ConstantArrayType* a = ctx.getAsConstantArrayType(q)) {
      o["k"] = "arr";
      o["n"] = (int64_t)a->getSize().getZExtValue();
      o["p"] = typeId(a->getElementType());
    } else if (t->isArrayType()) {
      o["k"] = "arr";
      o["p"] = typeId(t->getAsArrayTypeUnsafe()->getElementType());
    } else if (const RecordType* r = t->getAs<RecordType>()) {
      o["k"] = "rec";
      o["rec"] = r->getDecl()->getQualifiedNameAsString();
      if (auto* sp =
              dyn_cast<ClassTemplateSpecializationDecl>(r->getDecl())) {
        json::Array a;
        for (auto& arg : sp->getTemplateArgs().asArray()) {
          if (arg.getKind() == TemplateArgument::Type)
            a.push_back(typeId(arg.getAsType()));
          else if (arg.getKind() == TemplateArgument::Integral)
            a.push_back(
                json::Object{{"v", toString(arg.getAsIntegral(), 10)}});
          else
            a.push_back(nullptr);
        }
        o["targs"] = std::move(a);
      }
    } else if (t->isVoidType()) {
      o["k"] = "void";
    } else if (t->isFunctionType()) {
      o["k"] = "fn";
    } else if (t->isDependentType()) {
      o["k"] = "dep";
    } else {
      o["k"] = "other";
    }
    types[id] = std::move(o);
    return id;
  }

  std::string fnId(const FunctionDecl* f) {
    std::string s;
    llvm::raw_string_ostream ss(s);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) {
        SourceLocation l = sm.getExpansionLoc(m->getParent()->getBeginLoc());
        ss << "lambda@" << RelFile(sm, l) << ":"
           << sm.getExpansionLineNumber(l) << ":"
           << sm.getExpansionColumnNumber(l);
        if (f->isTemplateInstantiation() ||
            f->getTemplateSpecializationArgs()) {
          ss << "<";
          for (auto* p : f->parameters()) ss << p->getType().getAsString(pp)
                                             << ",";
          ss << ">";
        }
        return ss.str();
      }
    }
    f->getNameForDiagnostic(ss, pp, true);
    ss << "(";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) ss << ", ";
      first = false;
      ss << p->getType().getCanonicalType().getUnqualifiedType().getAsString(pp);
    }
    ss << ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->isConst()) ss << " const";
    return ss.str();
  }

  // ---- expressions --------------------------------------------------
  static const Expr* strip(const Expr* e) {
    while (e) {
      if (auto* p = dyn_cast<ParenExpr>(e)) {
        e = p->getSubExpr();
      } else if (auto* x = dyn_cast<FullExpr>(e)) {  // ExprWithCleanups, ConstantExpr
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) {
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
        e = x->getReplacement();
      } else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
        e = x->getExpr();
      } else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
        if (!x->getExpr()) return e;
        e = x->getExpr();
      } else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        if (keepCast(x)) return e;
        e = x->getSubExpr();
      } else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
        e = x->getSemanticForm();
      } else {
        return e;
      }
    }
    return e;
  }
  static bool keepCast(const CastExpr* c) {
    switch (c->getCastKind()) {
      case CK_IntegralCast:
      case CK_FloatingToIntegral:
      case CK_IntegralToFloating:
      case CK_FloatingCast:
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean:
      case CK_PointerToBoolean:
        return true;
      default:
        return false;
    }
  }

  int nid(const Stmt* s) {
    auto it = nodeIds.find(s);
    if (it != nodeIds.end()) return it->second;
    return nodeIds[s] = nextNode++;
  }

  static const char* declKind(const ValueDecl* d) {
    if (isa<ParmVarDecl>(d)) return "parm";
    if (auto* v = dyn_cast<VarDecl>(d)) {
      if (v->isStaticDataMember()) return "smember";
      if (v->isStaticLocal()) return "slocal";
      return v->isLocalVarDecl() ? "var" : "global";
    }
    if (isa<EnumConstantDecl>(d)) return "enumc";
    if (isa<FunctionDecl>(d)) return "fn";
    if (isa<FieldDecl>(d)) return "field";
    if (isa<BindingDecl>(d)) return "binding";
    return "other";
  }

  void loc(json::Object& o, SourceLocation l) {
    l = sm.getExpansionLoc(l);
    o["l"] = (int64_t)sm.getExpansionLineNumber(l);
  }

  json::Value opt(const Stmt* s) {
    if (!s) return nullptr;
    return stmt(s);
  }

  void children(json::Object& o, const Stmt* s) {
    json::Array c;
    for (const Stmt* ch : s->children()) c.push_back(opt(ch));
    if (!c.empty()) o["c"] = std::move(c);
  }

  // an assignment that could not be type checked: which operator it was
  void recoveredOp(json::Object& o, const Expr* e) {
    std::vector<const Stmt*> c;
    for (const Stmt* ch : e->children()) c.push_back(ch);
    if (c.size() != 2 || !c[0]) return;
    auto t = Lexer::findNextToken(c[0]->getEndLoc(), sm, ctx.getLangOpts());
    if (!t) return;
    switch (t->getKind()) {
      case tok::equal: o["op"] = "="; break;
      case tok::plusequal: o["op"] = "+="; break;
      case tok::minusequal: o["op"] = "-="; break;
      case tok::starequal: o["op"] = "*="; break;
      case tok::slashequal: o["op"] = "/="; break;
      default: break;
    }
  }

  void calleeInfo(json::Object& o, const FunctionDecl* f) {
    o["fn"] = f->getQualifiedNameAsString();
    o["fid"] = fnId(f);
    if (inRepo(f->getLocation())) o["repo"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["cst"] = true;
      o["cls"] = m->getParent()->getQualifiedNameAsString();
    }
    if (f->isNoReturn()) o["noret"] = true;
    if (!f->getReturnType().isNull() && !f->getReturnType()->isDependentType())
      o["rt"] = typeId(f->getReturnType());
    if (const TemplateArgumentList* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& arg : ta->asArray()) {
        if (arg.getKind() == TemplateArgument::Type)
          a.push_back(typeId(arg.getAsType()));
        else
          a.push_back(nullptr);
      }
      o["targs"] = std::move(a);
    }
    // parameter passing modes: v = by value, r = lvalue ref, c = const ref,
    // m = rvalue ref, p = pointer, q = pointer to const
    std::string modes;
    for (auto* p : f->parameters()) {
      QualType t = p->getType();
      if (t->isRValueReferenceType()) modes += 'm';
      else if (t->isLValueReferenceType())
        modes += t->getPointeeType().isConstQualified() ? 'c' : 'r';
      else if (t->isPointerType())
        modes += t->getPointeeType().isConstQualified() ? 'q' : 'p';
      else modes += 'v';
    }
    if (!modes.empty()) o["pm"] = modes;
  }

  json::Value stmt(const Stmt* s0) {
    const Stmt* s = s0;
    bool defarg = false;
    if (auto* e = dyn_cast<Expr>(s)) {
      if (isa<CXXDefaultArgExpr>(e)) defarg = true;
      s = strip(e);
    }
    json::Object o;
    o["i"] = nid(s);
    loc(o, s->getBeginLoc());
    if (defarg) o["def"] = true;
    if (auto* e = dyn_cast<Expr>(s)) {
      o["t"] = typeId(e->getType());
      expr(o, e);
    } else {
      st(o, s);
    }
    return o;
  }

  void constVal(json::Object& o, const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return;
    if (e->containsErrors()) return;
    QualType t = e->getType();
    if (t.isNull()) return;
    if (t->isIntegralOrEnumerationType() && e->isPRValue()) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
        o["cv"] = toString(r.Val.getInt(), 10);
      }
    } else if (t->isRealFloatingType() && e->isPRValue()) {
      llvm::APFloat f(0.0);
      if (e->EvaluateAsFloat(f, ctx, Expr::SE_NoSideEffects)) {
        bool lossy;
        llvm::APFloat d = f;
        d.convert(llvm::APFloat::IEEEdouble(),
                  llvm::APFloat::rmNearestTiesToEven, &lossy);
        char buf[64];
        snprintf(buf, sizeof buf, "%.17g", d.convertToDouble());
        o["fv"] = std::string(buf);
      }
    }
  }

  void expr(json::Object& o, const Expr* e) {
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass:
      case Stmt::CharacterLiteralClass:
        o["k"] = "int";
        constVal(o, e);
        if (isa<CharacterLiteral>(e)) o["char"] = true;
        return;
      case Stmt::FloatingLiteralClass:
        o["k"] = "float";
        constVal(o, e);
        return;
      case Stmt::CXXBoolLiteralExprClass:
        o["k"] = "int";
        constVal(o, e);
        return;
      case Stmt::StringLiteralClass: {
        o["k"] = "str";
        auto* sl = cast<StringLiteral>(e);
        if (sl->getCharByteWidth() == 1) {
          std::string v = sl->getBytes().str();
          if (!json::isUTF8(v)) v = json::fixUTF8(v);
          o["v"] = v;
        }
        return;
      }
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass:
        o["k"] = "null";
        return;
      case Stmt::CXXThisExprClass:
        o["k"] = "this";
        return;
      case Stmt::DeclRefExprClass: {
        auto* r = cast<DeclRefExpr>(e);
        const ValueDecl* d = r->getDecl();
        o["k"] = "ref";
        o["d"] = declId(d);
        o["dk"] = declKind(d);
        o["n"] = d->getQualifiedNameAsString();
        if (auto* f = dyn_cast<FunctionDecl>(d)) calleeInfo(o, f);
        if (r->refersToEnclosingVariableOrCapture()) o["cap"] = true;
        constVal(o, e);
        if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
          o["cv"] = toString(ec->getInitVal(), 10);
        }
        if (auto* v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() && v->getAnyInitializer() &&
              (v->isConstexpr() || v->getType().isConstQualified())) {
            const Expr* in = v->getAnyInitializer();
            if (!in->isValueDependent() && !v->getType()->isDependentType()) {
              if (v->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult r;
                if (in->EvaluateAsInt(r, ctx)) o["cv"] = toString(r.Val.getInt(), 10);
              } else if (v->getType()->isRealFloatingType()) {
                llvm::APFloat f(0.0);
                if (in->EvaluateAsFloat(f, ctx)) {
                  bool lossy;
                  f.convert(llvm::APFloat::IEEEdouble(),
                            llvm::APFloat::rmNearestTiesToEven, &lossy);
                  char buf[64];
                  snprintf(buf, sizeof buf, "%.17g", f.convertToDouble());
                  o["fv"] = std::string(buf);
                }
              }
            }
          }
        }
        return;
      }
      case Stmt::MemberExprClass: {
        auto* m = cast<MemberExpr>(e);
        o["k"] = "mem";
        o["f"] = m->getMemberDecl()->getNameAsString();
        o["n"] = m->getMemberDecl()->getQualifiedNameAsString();
        o["d"] = declId(m->getMemberDecl());
        o["dk"] = declKind(m->getMemberDecl());
        if (auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl()))
          calleeInfo(o, f);
        if (m->isArrow()) o["arrow"] = true;
        constVal(o, e);
        o["c"] = json::Array{stmt(m->getBase())};
        return;
      }
      case Stmt::CXXMemberCallExprClass: {
        auto* c = cast<CXXMemberCallExpr>(e);
        o["k"] = "mcall";
        json::Array a;
        if (auto* f = c->getMethodDecl()) {
          calleeInfo(o, f);
          // devirtualised qualified call Base::f()
          const Expr* cal = c->getCallee()->IgnoreParenImpCasts();
          if (auto* me = dyn_cast<MemberExpr>(cal)) {
            if (me->hasQualifier()) o["nonvirt"] = true;
            if (me->isArrow()) o["arrow"] = true;
          }
          if (c->getImplicitObjectArgument())
            a.push_back(stmt(c->getImplicitObjectArgument()));
          else
            a.push_back(nullptr);
        } else {
          o["k"] = "pmcall";
          a.push_back(stmt(c->getCallee()));
        }
        for (auto* x : c->arguments()) a.push_back(stmt(x));
        o["c"] = std::move(a);
        return;
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto* c = cast<CXXOperatorCallExpr>(e);
        o["k"] = "opcall";
        o["op"] = getOperatorSpelling(c->getOperator());
        if (auto* f = c->getDirectCallee()) {
          calleeInfo(o, f);
          if (isa<CXXMethodDecl>(f)) o["meth"] = true;
        }
        json::Array a;
        for (auto* x : c->arguments()) a.push_back(stmt(x));
        o["c"] = std::move(a);
        constVal(o, e);
        return;
      }
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto* c = cast<CallExpr>(e);
        json::Array a;
        if (auto* f = c->getDirectCallee()) {
          o["k"] = "call";
          calleeInfo(o, f);
          // a static member of an external class called through an object
          // (the permissive declarations have those): keep the object
          const Expr* cal = c->getCallee()->IgnoreParenImpCasts();
          auto* me = dyn_cast<MemberExpr>(cal);
          if (me && !o.get("repo")) {
            o["k"] = "mcall";
            if (me->isArrow()) o["arrow"] = true;
            a.push_back(stmt(me->getBase()));
          }
        } else {
          o["k"] = "icall";
          a.push_back(stmt(c->getCallee()));
        }
        for (auto* x : c->arguments()) a.push_back(stmt(x));
        o["c"] = std::move(a);
        constVal(o, e);
        return;
      }
      case Stmt::CXXConstructExprClass:
      case Stmt::CXXTemporaryObjectExprClass: {
        auto* c = cast<CXXConstructExpr>(e);
        o["k"] = "construct";
        calleeInfo(o, c->getConstructor());
        if (c->getConstructor()->isCopyConstructor()) o["copy"] = true;
        if (c->getConstructor()->isMoveConstructor()) o["move"] = true;
        if (c->isElidable()) o["elid"] = true;
        if (c->isListInitialization()) o["list"] = true;
        json::Array a;
        for (auto* x : c->arguments()) a.push_back(stmt(x));
        o["c"] = std::move(a);
        return;
      }
      case Stmt::CXXInheritedCtorInitExprClass:
        o["k"] = "inhctor";
        return;
      case Stmt::BinaryOperatorClass: {
        auto* b = cast<BinaryOperator>(e);
        o["k"] = b->isAssignmentOp() ? "asg" : "bin";
        o["op"] = b->getOpcodeStr().str();
        constVal(o, e);
        o["c"] = json::Array{stmt(b->getLHS()), stmt(b->getRHS())};
        return;
      }
      case Stmt::CompoundAssignOperatorClass: {
        auto* b = cast<CompoundAssignOperator>(e);
        o["k"] = "asg";
        o["op"] = b->getOpcodeStr().str();
        o["ct"] = typeId(b->getComputationResultType());
        o["c"] = json::Array{stmt(b->getLHS()), stmt(b->getRHS())};
        return;
      }
      case Stmt::UnaryOperatorClass: {
        auto* u = cast<UnaryOperator>(e);
        o["k"] = "un";
        std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        if (u->isPostfix()) op = "p" + op;
        o["op"] = op;
        constVal(o, e);
        o["c"] = json::Array{stmt(u->getSubExpr())};
        return;
      }
      case Stmt::ConditionalOperatorClass: {
        auto* c = cast<ConditionalOperator>(e);
        o["k"] = "cond";
        constVal(o, e);
        o["c"] = json::Array{stmt(c->getCond()), stmt(c->getTrueExpr()),
                             stmt(c->getFalseExpr())};
        return;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto* a = cast<ArraySubscriptExpr>(e);
        o["k"] = "idx";
        o["c"] = json::Array{stmt(a->getBase()), stmt(a->getIdx())};
        return;
      }
      case Stmt::ImplicitCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXDynamicCastExprClass:
      case Stmt::CXXFunctionalCastExprClass:
      case Stmt::BuiltinBitCastExprClass: {
        auto* c = cast<CastExpr>(e);
        o["k"] = "cast";
        o["ck"] = c->getCastKindName();
        if (isa<ImplicitCastExpr>(c)) o["imp"] = true;
        if (isa<CXXDynamicCastExpr>(c)) o["dyn"] = true;
        if (isa<CXXReinterpretCastExpr>(c)) o["reint"] = true;
        if (isa<CXXConstCastExpr>(c)) o["cc"] = true;
        constVal(o, e);
        o["c"] = json::Array{stmt(c->getSubExpr())};
        return;
      }
      case Stmt::InitListExprClass: {
        auto* l = cast<InitListExpr>(e);
        if (l->isSyntacticForm() && l->getSemanticForm())
          l = l->getSemanticForm();
        o["k"] = "initlist";
        json::Array a;
        for (auto* x : l->inits()) a.push_back(opt(x));
        o["c"] = std::move(a);
        if (l->hasArrayFiller() && l->getArrayFiller()) o["filler"] = true;
        return;
      }
      case Stmt::CXXScalarValueInitExprClass:
      case Stmt::ImplicitValueInitExprClass:
        o["k"] = "zero";
        constVal(o, e);
        return;
      case Stmt::CXXNewExprClass: {
        auto* n = cast<CXXNewExpr>(e);
        o["k"] = "new";
        o["at"] = typeId(n->getAllocatedType());
        json::Array a;
        if (n->isArray() && n->getArraySize() && *n->getArraySize())
          o["size"] = stmt(*n->getArraySize());
        for (auto* x : n->placement_arguments()) (void)x;
        if (n->getInitializer())
          a.push_back(stmt(n->getInitializer()));
        o["c"] = std::move(a);
        return;
      }
      case Stmt::CXXDeleteExprClass:
        o["k"] = "delete";
        children(o, e);
        return;
      case Stmt::LambdaExprClass: {
        auto* l = cast<LambdaExpr>(e);
        o["k"] = "lambda";
        o["fid"] = fnId(l->getCallOperator());
        json::Array caps;
        for (auto& c : l->captures()) {
          json::Object co;
          if (c.capturesThis()) {
            co["this"] = true;
            co["ref"] = c.getCaptureKind() == LCK_This;
          } else if (c.capturesVariable()) {
            co["d"] = declId(c.getCapturedVar());
            co["n"] = c.getCapturedVar()->getNameAsString();
            co["ref"] = c.getCaptureKind() == LCK_ByRef;
            co["t"] = typeId(c.getCapturedVar()->getType());
          }
          caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        json::Array a;
        for (auto* x : l->capture_inits()) a.push_back(opt(x));
        o["c"] = std::move(a);
        pendingLambdas.push_back(l->getCallOperator());
        return;
      }
      case Stmt::CXXThrowExprClass:
        o["k"] = "throw";
        children(o, e);
        return;
      case Stmt::UnaryExprOrTypeTraitExprClass:
      case Stmt::SizeOfPackExprClass:
      case Stmt::TypeTraitExprClass:
        o["k"] = "sizeof";
        constVal(o, e);
        return;
      case Stmt::CXXTypeidExprClass:
        o["k"] = "typeid";
        return;
      case Stmt::OpaqueValueExprClass: {
        auto* ov = cast<OpaqueValueExpr>(e);
        if (ov->getSourceExpr()) {
          expr(o, strip(ov->getSourceExpr()));
          return;
        }
        o["k"] = "opaque";
        return;
      }
      // dependent / erroneous code ------------------------------------
      case Stmt::UnresolvedLookupExprClass:
      case Stmt::UnresolvedMemberExprClass: {
        auto* u = cast<OverloadExpr>(e);
        o["k"] = "unres";
        o["f"] = u->getName().getAsString();
        if (auto* um = dyn_cast<UnresolvedMemberExpr>(e))
          if (!um->isImplicitAccess())
            o["c"] = json::Array{stmt(um->getBase())};
        return;
      }
      case Stmt::CXXDependentScopeMemberExprClass: {
        auto* m = cast<CXXDependentScopeMemberExpr>(e);
        o["k"] = "depmem";
        o["f"] = m->getMember().getAsString();
        if (!m->isImplicitAccess()) o["c"] = json::Array{stmt(m->getBase())};
        return;
      }
      case Stmt::DependentScopeDeclRefExprClass:
        o["k"] = "depref";
        o["f"] = cast<DependentScopeDeclRefExpr>(e)->getDeclName().getAsString();
        return;
      case Stmt::CXXUnresolvedConstructExprClass:
        o["k"] = "unresctor";
        children(o, e);
        return;
      case Stmt::RecoveryExprClass:
        o["k"] = "recovery";
        children(o, e);
        recoveredOp(o, e);
        return;
      case Stmt::ArrayInitLoopExprClass:
        o["k"] = "arrinit";
        return;
      default:
        o["k"] = e->getStmtClassName();
        children(o, e);
        return;
    }
  }

  json::Value varDecl(const VarDecl* v) {
    json::Object d;
    d["d"] = declId(v);
    d["n"] = v->getNameAsString();
    d["t"] = typeId(v->getType());
    if (v->isStaticLocal()) d["static"] = true;
    if (v->getType()->isReferenceType()) d["ref"] = true;
    if (v->getInit()) d["init"] = stmt(v->getInit());
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (auto* x : dd->bindings()) {
        json::Object bo;
        bo["d"] = declId(x);
        bo["n"] = x->getNameAsString();
        if (x->getBinding()) bo["e"] = stmt(x->getBinding());
        b.push_back(std::move(bo));
      }
      d["bind"] = std::move(b);
    }
    return d;
  }

  void st(json::Object& o, const Stmt* s) {
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass:
        o["k"] = "block";
        loc(o, s->getBeginLoc());
        o["le"] = (int64_t)sm.getExpansionLineNumber(s->getEndLoc());
        children(o, s);
        return;
      case Stmt::DeclStmtClass: {
        o["k"] = "decl";
        json::Array a;
        for (auto* d : cast<DeclStmt>(s)->decls()) {
          if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
        }
        o["vars"] = std::move(a);
        return;
      }
      case Stmt::IfStmtClass: {
        auto* i = cast<IfStmt>(s);
        o["k"] = "if";
        if (i->getInit()) o["init"] = stmt(i->getInit());
        if (i->getConditionVariableDeclStmt())
          o["cvar"] = stmt(i->getConditionVariableDeclStmt());
        if (i->isConstexpr()) o["cexpr"] = true;
        o["cond"] = opt(i->getCond());
        o["then"] = opt(i->getThen());
        o["else"] = opt(i->getElse());
        return;
      }
      case Stmt::ForStmtClass: {
        auto* f = cast<ForStmt>(s);
        o["k"] = "for";
        o["init"] = opt(f->getInit());
        o["cond"] = opt(f->getCond());
        o["inc"] = opt(f->getInc());
        o["body"] = opt(f->getBody());
        return;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* f = cast<CXXForRangeStmt>(s);
        o["k"] = "forrange";
        o["range"] = opt(f->getRangeInit());
        if (f->getLoopVariable()) o["var"] = varDecl(f->getLoopVariable());
        o["body"] = opt(f->getBody());
        return;
      }
      case Stmt::WhileStmtClass: {
        auto* w = cast<WhileStmt>(s);
        o["k"] = "while";
        if (w->getConditionVariableDeclStmt())
          o["cvar"] = stmt(w->getConditionVariableDeclStmt());
        o["cond"] = opt(w->getCond());
        o["body"] = opt(w->getBody());
        return;
      }
      case Stmt::DoStmtClass: {
        auto* w = cast<DoStmt>(s);
        o["k"] = "do";
        o["cond"] = opt(w->getCond());
        o["body"] = opt(w->getBody());
        return;
      }
      case Stmt::SwitchStmtClass: {
        auto* w = cast<SwitchStmt>(s);
        o["k"] = "switch";
        o["cond"] = opt(w->getCond());
        o["body"] = opt(w->getBody());
        return;
      }
      case Stmt::CaseStmtClass: {
        auto* c = cast<CaseStmt>(s);
        o["k"] = "case";
        o["v"] = opt(c->getLHS());
        if (c->getRHS()) o["v2"] = opt(c->getRHS());
        o["c"] = json::Array{opt(c->getSubStmt())};
        return;
      }
      case Stmt::DefaultStmtClass:
        o["k"] = "default";
        o["c"] = json::Array{opt(cast<DefaultStmt>(s)->getSubStmt())};
        return;
      case Stmt::ReturnStmtClass:
        o["k"] = "return";
        children(o, s);
        return;
      case Stmt::BreakStmtClass: o["k"] = "break"; return;
      case Stmt::ContinueStmtClass: o["k"] = "continue"; return;
      case Stmt::NullStmtClass: o["k"] = "nop"; return;
      case Stmt::CXXTryStmtClass: {
        auto* t = cast<CXXTryStmt>(s);
        o["k"] = "try";
        o["body"] = stmt(t->getTryBlock());
        json::Array h;
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
          json::Object ho;
          auto* c = t->getHandler(i);
          ho["i"] = nid(c);
          if (c->getExceptionDecl()) {
            ho["t"] = typeId(c->getExceptionDecl()->getType());
            ho["d"] = declId(c->getExceptionDecl());
          }
          ho["body"] = stmt(c->getHandlerBlock());
          h.push_back(std::move(ho));
        }
        o["handlers"] = std::move(h);
        return;
      }
      case Stmt::AttributedStmtClass:
        o["k"] = "attr";
        o["c"] = json::Array{opt(cast<AttributedStmt>(s)->getSubStmt())};
        return;
      default:
        o["k"] = s->getStmtClassName();
        children(o, s);
        return;
    }
  }

  // ---- functions ----------------------------------------------------
  json::Value cfgOf(const FunctionDecl* f) {
    CFG::BuildOptions bo;
    bo.AddImplicitDtors = true;
    bo.AddTemporaryDtors = false;
    bo.AddInitializers = true;
    bo.AddEHEdges = false;
    bo.PruneTriviallyFalseEdges = false;
    bo.AddCXXDefaultInitExprInCtors = true;
    bo.AddCXXDefaultInitExprInAggregates = false;
    bo.setAllAlwaysAdd();
    std::unique_ptr<CFG> cfg =
        CFG::buildCFG(f, f->getBody(), &ctx, bo);
    if (!cfg) return nullptr;
    json::Array blocks;
    for (CFGBlock* b : *cfg) {
      json::Object bobj;
      bobj["id"] = (int64_t)b->getBlockID();
      json::Array el;
      for (const CFGElement& e : *b) {
        if (auto se = e.getAs<CFGStmt>()) {
          const Stmt* s = se->getStmt();
          if (auto* x = dyn_cast<Expr>(s)) {
            if (strip(x) != x) continue;
          }
          auto it = nodeIds.find(s);
          if (it == nodeIds.end()) {
            // synthesized (range-for machinery etc.)
            if (auto* ds = dyn_cast<DeclStmt>(s)) {
              json::Object q;
              q["x"] = stmt(ds);
              el.push_back(std::move(q));
            }
            continue;
          }
          el.push_back((int64_t)it->second);
        } else if (auto ie = e.getAs<CFGInitializer>()) {
          CXXCtorInitializer* in = ie->getInitializer();
          json::Object q;
          if (in->isAnyMemberInitializer()) {
            q["init"] = in->getAnyMember()->getNameAsString();
          } else {
            q["binit"] = in->getBaseClass()
                             ? QualType(in->getBaseClass(), 0)
                                   .getCanonicalType()
                                   .getAsString(pp)
                             : std::string("<delegating>");
          }
          if (in->getInit()) q["e"] = nid(strip(in->getInit()));
          el.push_back(std::move(q));
        } else if (auto d = e.getAs<CFGAutomaticObjDtor>()) {
          json::Object q;
          q["dtor"] = declId(d->getVarDecl());
          q["t"] = typeId(d->getVarDecl()->getType());
          el.push_back(std::move(q));
        }
      }
      bobj["e"] = std::move(el);
      CFGTerminator t = b->getTerminator();
      if (t.getStmt()) {
        json::Object q;
        q["k"] = t.getStmt()->getStmtClassName();
        if (auto* bo2 = dyn_cast<BinaryOperator>(t.getStmt()))
          q["op"] = bo2->getOpcodeStr().str();
        const Stmt* s = t.getStmt();
        if (auto* ex = dyn_cast<Expr>(s)) s = strip(ex);
        auto it = nodeIds.find(s);
        if (it != nodeIds.end()) q["i"] = (int64_t)it->second;
        if (const Stmt* c = b->getTerminatorCondition(true)) {
          if (auto* ex = dyn_cast<Expr>(c)) c = strip(ex);
          auto it2 = nodeIds.find(c);
          if (it2 != nodeIds.end()) q["cond"] = (int64_t)it2->second;
        }
        bobj["term"] = std::move(q);
      }
      if (const Stmt* lab = b->getLabel()) {
        auto it = nodeIds.find(lab);
        if (it != nodeIds.end()) bobj["label"] = (int64_t)it->second;
        bobj["labk"] = lab->getStmtClassName();
      }
      json::Array su;
      for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
        CFGBlock* sb = it->getReachableBlock();
        if (!sb) sb = it->getPossiblyUnreachableBlock();
        if (sb) su.push_back((int64_t)sb->getBlockID());
        else su.push_back(nullptr);
      }
      bobj["s"] = std::move(su);
      if (b->hasNoReturnElement()) bobj["noret"] = true;
      blocks.push_back(std::move(bobj));
    }
    return json::Object{{"entry", (int64_t)cfg->getEntry().getBlockID()},
                        {"exit", (int64_t)cfg->getExit().getBlockID()},
                        {"blocks", std::move(blocks)}};
  }

  void emit(json::Object o) {
    os << json::Value(std::move(o)) << "\n";
  }

  void function(const FunctionDecl* f) {
    if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return;
    if (f->isDefaulted() && !f->getBody()) return;
    if (!f->getBody()) return;
    if (!inRepo(f->getLocation())) return;
    if (!doneFns.insert(f).second) return;
    nodeIds.clear();
    nextNode = 0;
    json::Object o;
    o["r"] = "fn";
    o["fid"] = fnId(f);
    o["qn"] = f->getQualifiedNameAsString();
    o["name"] = f->getNameAsString();
    o["file"] = RelFile(sm, f->getLocation()).substr(gRoot.size());
    loc(o, f->getLocation());
    o["ret"] = typeId(f->getReturnType());
    if (f->isDependentContext()) o["dep"] = true;
    if (f->isTemplateInstantiation()) o["inst"] = true;
    if (f->isImplicit()) o["implicit"] = true;
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isInAnonymousNamespace() || f->getStorageClass() == SC_Static)
      if (!isa<CXXMethodDecl>(f)) o["static"] = true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = m->getParent()->getQualifiedNameAsString();
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["cst"] = true;
      if (m->isStatic()) o["smeth"] = true;
      json::Array ov;
      for (auto* b : m->overridden_methods()) ov.push_back(fnId(b));
      if (!ov.empty()) o["over"] = std::move(ov);
      if (m->getParent()->isLambda()) {
        o["lambda"] = true;
        o["cls"] = "";
      }
      o["acc"] = m->getAccess() == AS_public      ? "public"
                 : m->getAccess() == AS_protected ? "protected"
                                                  : "private";
    }
    if (isa<CXXConstructorDecl>(f)) o["ctor"] = true;
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    if (f->isOverloadedOperator())
      o["oper"] = getOperatorSpelling(f->getOverloadedOperator());
    json::Array ps;
    for (auto* p : f->parameters()) {
      json::Object po;
      po["d"] = declId(p);
      po["n"] = p->getNameAsString();
      po["t"] = typeId(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array in;
      for (auto* i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer())
          io["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isDelegatingInitializer())
          io["deleg"] = true;
        else if (i->getBaseClass())
          io["base"] = QualType(i->getBaseClass(), 0)
                           .getCanonicalType()
                           .getAsString(pp);
        io["written"] = i->isWritten();
        if (i->getInit()) io["e"] = stmt(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(f->getBody());
    if (!f->isDependentContext()) o["cfg"] = cfgOf(f);
    emit(std::move(o));
    while (!pendingLambdas.empty()) {
      const CXXMethodDecl* m = pendingLambdas.back();
      pendingLambdas.pop_back();
      function(m);
      if (auto* t = m->getDescribedFunctionTemplate())
        for (auto* sp : t->specializations()) function(sp);
    }
  }

  void record(const CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return;
    if (!inRepo(r->getLocation())) return;
    json::Object o;
    o["r"] = "rec";
    o["qn"] = r->getQualifiedNameAsString();
    o["file"] = RelFile(sm, r->getLocation()).substr(gRoot.size());
    loc(o, r->getLocation());
    if (r->isDependentContext()) o["dep"] = true;
    if (r->isUnion()) o["union"] = true;
    if (r->isAbstract()) o["abstract"] = true;
    json::Array bs;
    for (auto& b : r->bases()) {
      QualType t = b.getType();
      if (auto* br = t->getAsCXXRecordDecl())
        bs.push_back(br->getQualifiedNameAsString());
      else
        bs.push_back(t.getAsString(pp));
    }
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto* f : r->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = typeId(f->getType());
      loc(fo, f->getLocation());
      fo["acc"] = f->getAccess() == AS_public      ? "public"
                  : f->getAccess() == AS_protected ? "protected"
                                                   : "private";
      if (f->isMutable()) fo["mut"] = true;
      if (f->isBitField() && !f->getBitWidth()->isValueDependent())
        fo["bits"] = (int64_t)f->getBitWidthValue(ctx);
      if (f->hasInClassInitializer()) {
        fo["hasinit"] = true;
        if (f->getInClassInitializer())
          fo["init"] = stmt(f->getInClassInitializer());
      }
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array sv;
    for (auto* d : r->decls())
      if (auto* v = dyn_cast<VarDecl>(d)) sv.push_back(varDecl(v));
    if (!sv.empty()) o["svars"] = std::move(sv);
    json::Array ms;
    for (auto* m : r->methods()) {
      if (m->isImplicit()) continue;
      json::Object mo;
      mo["fid"] = fnId(m);
      mo["name"] = m->getNameAsString();
      if (m->isVirtual()) mo["virt"] = true;
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isDeleted()) mo["del"] = true;
      if (m->isDefaulted()) mo["defaulted"] = true;
      mo["acc"] = m->getAccess() == AS_public      ? "public"
                  : m->getAccess() == AS_protected ? "protected"
                                                   : "private";
      loc(mo, m->getLocation());
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    // trivially default initialised (i.e. leaves members indeterminate)?
    if (!r->isDependentContext()) {
      o["trivdef"] = r->hasTrivialDefaultConstructor();
      o["userctor"] = r->hasUserDeclaredConstructor();
      o["defctor"] = r->hasDefaultConstructor();
      o["implicitdef"] = r->needsImplicitDefaultConstructor();
    }
    emit(std::move(o));
  }

  void enumDecl(const EnumDecl* e) {
    if (!e->isThisDeclarationADefinition()) return;
    if (!inRepo(e->getLocation())) return;
    json::Object o;
    o["r"] = "enum";
    o["qn"] = e->getQualifiedNameAsString();
    o["file"] = RelFile(sm, e->getLocation()).substr(gRoot.size());
    loc(o, e->getLocation());
    json::Array a;
    for (auto* c : e->enumerators())
      a.push_back(json::Object{{"n", c->getNameAsString()},
                               {"v", toString(c->getInitVal(), 10)}});
    o["vals"] = std::move(a);
    emit(std::move(o));
  }

  void globalVar(const VarDecl* v) {
    if (!inRepo(v->getLocation())) return;
    if (v->getType()->isDependentType()) return;
    nodeIds.clear();
    nextNode = 0;
    json::Object o;
    o["r"] = "var";
    o["qn"] = v->getQualifiedNameAsString();
    o["file"] = RelFile(sm, v->getLocation()).substr(gRoot.size());
    loc(o, v->getLocation());
    o["v"] = varDecl(v);
    if (v->hasGlobalStorage()) o["glob"] = true;
    emit(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Dumper& d) : d(d) {}
  Dumper& d;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (auto* m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (f->doesThisDeclarationHaveABody()) d.function(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    d.nodeIds.clear();
    d.record(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    d.enumDecl(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() &&
        !isa<ParmVarDecl>(v))
      d.globalVar(v);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(CompilerInstance& ci) : ci(ci) {}
  CompilerInstance& ci;
  void HandleTranslationUnit(ASTContext& ctx) override {
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    if (ec) {
      llvm::errs() << "cannot write " << gOut << "\n";
      exit(3);
    }
    Dumper d(ctx, os);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    json::Object t;
    t["r"] = "types";
    t["types"] = std::move(d.types);
    t["errors"] = (int64_t)ci.getDiagnostics().getClient()->getNumErrors();
    os << json::Value(std::move(t)) << "\n";
  }
};

// In lax mode headers that are not installed are skipped: stubs/lax/lax.h
// declares what DP3 uses of them.
static bool gLax = false;
class SkipMissing : public PPCallbacks {
 public:
  bool FileNotFound(llvm::StringRef) override { return true; }
};

class Action : public ASTFrontendAction {
 public:
  bool BeginSourceFileAction(CompilerInstance& ci) override {
    if (gLax)
      ci.getPreprocessor().addPPCallbacks(std::make_unique<SkipMissing>());
    return true;
  }
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci,
                                                 llvm::StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};

int main(int argc, char** argv) {
  // dp3facts OUT FILE -- clang args...
  if (argc < 4) {
    llvm::errs() << "usage: dp3facts [-root DIR] OUT FILE -- args\n";
    return 3;
  }
  int a = 1;
  if (std::string(argv[a]) == "-root") {
    gRoot = argv[a + 1];
    a += 2;
  }
  if (std::string(argv[a]) == "-lax") {
    gLax = true;
    ++a;
  }
  gOut = argv[a++];
  std::string file = argv[a++];
  ++a;
  std::vector<std::string> args = {"clang++", "-fsyntax-only"};
  for (; a < argc; ++a) args.push_back(argv[a]);
  args.push_back(file);
  llvm::IntrusiveRefCntPtr<FileManager> fm(
      new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
  bool ok = inv.run();
  return ok ? 0 : 1;
}
