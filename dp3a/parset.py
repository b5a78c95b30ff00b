"""Shared facts about the parameter-set classes (C02..C05)."""
from . import facts
from .absint import Interp, Budget, last
from .terms import subterms, contains

TUS = ["common/ParameterSet.cc", "common/ParameterSetImpl.cc",
       "common/ParameterValue.cc", "common/ParameterRecord.cc",
       "common/StringTools.cc"]
NS = "dp3::common::"
SCALAR = ["Bool", "Int", "Uint", "Int16", "Uint16", "Int32", "Uint32",
          "Int64", "Uint64", "Float", "Double", "String", "Time"]
# conversion functions equivalent for the result type
CONV = {
    "Bool": {"strToBool"},
    "Int": {"strToInt", "strToInt32"}, "Int32": {"strToInt", "strToInt32"},
    "Uint": {"strToUint", "strToUint32"},
    "Uint32": {"strToUint", "strToUint32"},
    "Int16": {"strToInt16"}, "Uint16": {"strToUint16"},
    "Int64": {"strToInt64", "strToLong"},
    "Uint64": {"strToUint64", "strToUlong"},
    "Float": {"strToFloat"}, "Double": {"strToDouble"},
    "String": {"getString"}, "Time": {"StringToTime_t"},
}
ALLCONV = set().union(*CONV.values())
BYTYPE = {"bool": "Bool", "int": "Int", "unsigned int": "Uint",
          "float": "Float", "double": "Double", "long": "Time",
          "short": "Int16", "unsigned short": "Uint16",
          "unsigned long": "Uint64"}

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = facts.extract(TUS)
    return _prog


class ParInterp(Interp):
    """Conversions, splitting and expansion stay uninterpreted."""
    OPAQUE = ALLCONV | {"getVector", "expandArrayString", "skipQuoted",
                        "expand", "splitValue"}

    def __init__(self, prog, extra=()):
        super().__init__(prog)
        self.extra = set(extra)
        self.back = {}

    def may_inline(self, fn, frame):
        n = last(fn["qn"])
        if n == "getString" and not fn.get("cls", "").endswith(
                "ParameterValue"):
            return True
        return n not in self.OPAQUE and n not in self.extra

    def loop_end(self, n, fr, st):
        self.back.setdefault((n["i"], fr.id), []).append(st.copy())


def strip_trunc(v):
    n = 0
    while isinstance(v, tuple) and v[0] in ("trunc", "fcast"):
        v = v[2]
        n += 1
    return v, n


def calls(v):
    return [t for t in subterms(v) if isinstance(t, tuple) and
            t[0] == "call"]
