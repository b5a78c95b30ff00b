#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include <stdexcept>
#include <condition_variable>
#include <deque>
#include <list>
#include <queue>
#include <bitset>
#include <fstream>
#include <variant>
#include <future>
#include <filesystem>
#include <random>
#include <regex>
#include <chrono>
#include <span>
namespace lax {
struct Any;
template <class T>
concept IsAny = std::is_base_of_v<Any, std::remove_cvref_t<T>>;
struct Any {
  template <class... A> Any(A&&...);
  Any();
  Any(const Any&);
  Any(Any&&);
  Any& operator=(const Any&);
  Any(std::initializer_list<int>);
  Any(std::initializer_list<std::size_t>);
  Any(std::initializer_list<double>);
  template <class T>
    requires(!IsAny<T> && !std::is_same_v<T, std::allocator<char>> &&
             !std::is_same_v<T, std::nullptr_t> &&
             !std::is_same_v<T, std::initializer_list<char>>)
  operator T() const;
  template <class T> Any& operator=(T&&);
  template <class... A> Any& operator()(A&&...) const;
  template <class A> Any& operator[](A&&) const;
  Any& operator*() const;
  Any* operator->() const;
  Any& operator++();
  Any operator++(int);
  Any& operator--();
  Any operator--(int);
  Any operator-() const;
  Any operator+() const;
  Any operator~() const;
  bool operator!() const;
  template <class T> Any& operator+=(T&&);
  template <class T> Any& operator-=(T&&);
  template <class T> Any& operator*=(T&&);
  template <class T> Any& operator/=(T&&);
  template <class T> Any& operator|=(T&&);
  template <class T> Any& operator&=(T&&);
  template <class T> Any& operator^=(T&&);
//MEMBERS
//TYPES
//CONSTS
};
#define LAX_OP(op, R)                                        \
  template <class A, class B>                                \
    requires(IsAny<A> || IsAny<B>)                           \
  R operator op(A&&, B&&);
LAX_OP(+, Any) LAX_OP(-, Any) LAX_OP(*, Any) LAX_OP(/, Any) LAX_OP(%, Any)
LAX_OP(|, Any) LAX_OP(&, Any) LAX_OP(^, Any)
LAX_OP(==, bool) LAX_OP(!=, bool) LAX_OP(<, bool) LAX_OP(>, bool)
LAX_OP(<=, bool) LAX_OP(>=, bool) LAX_OP(&&, bool) LAX_OP(||, bool)
template <class B> requires(IsAny<B>)
std::ostream& operator<<(std::ostream&, B&&);
template <class A, class B> requires(IsAny<A>) Any& operator<<(A&&, B&&);
template <class A, class B> requires(IsAny<A>) Any& operator>>(A&&, B&&);
template <class T>
struct Arr : Any {
  using Any::Any;
  static Any& resize(std::initializer_list<Any>);
  template <class... A> static Any& resize(A&&...);
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  using contiter = T*;
  using const_contiter = const T*;
  Arr();
  Arr(const Arr&);
  Arr(Arr&&);
  Arr& operator=(const Arr&);
  template <class U> Arr& operator=(U&&);
  template <class... A> T& operator()(A&&...);
  template <class... A> const T& operator()(A&&...) const;
  template <class A> T& operator[](A&&);
  template <class A> const T& operator[](A&&) const;
  T* data();
  const T* data() const;
  T* begin();
  const T* begin() const;
  T* end();
  const T* end() const;
  T* cbegin();
  const T* cbegin() const;
  T* cend();
  const T* cend() const;
  std::size_t size() const;
  bool empty() const;
  T& front();
  const T& front() const;
  T& back();
  const T& back() const;
};
}  // namespace lax
namespace casacore {
using Quantity = lax::Any;
using Bool = bool;
using Complex = std::complex<float>;
using DComplex = std::complex<double>;
using Double = double;
using Float = float;
using Int = int;
using uInt = unsigned int;
using Int64 = long;
using uInt64 = unsigned long;
using uChar = unsigned char;
using Char = char;
using Short = short;
using rownr_t = unsigned long;
enum CopyPolicy { COPY = 0, TAKE_OVER, SHARE };
using StorageInitPolicy = CopyPolicy;
enum DataType { TpOther, TpUInt };
namespace C {
constexpr double c = 299792458.0, pi = 3.14159265358979;
}
class String : public std::string {
 public:
  using std::string::string;
  String();
  String(const std::string&);
  String(const lax::Any&);
  template <class... A> static lax::Any toString(A&&...);
  template <class... A> String before(A&&...) const;
  template <class... A> String after(A&&...) const;
  template <class... A> String from(A&&...) const;
  template <class... A> bool contains(A&&...) const;
  template <class... A> bool matches(A&&...) const;
  template <class... A> String& upcase(A&&...);
  template <class... A> String& downcase(A&&...);
  template <class... A> String& prepend(A&&...);
  template <class... A> int freq(A&&...) const;
};
struct MSOptions_;
class IPosition : public lax::Any {
 public:
  using lax::Any::Any;
  IPosition();
  IPosition(const IPosition&);
  IPosition& operator=(const IPosition&);
  IPosition(std::initializer_list<long>);
  long& operator[](std::size_t);
  long operator[](std::size_t) const;
  long& operator()(std::size_t);
  long operator()(std::size_t) const;
  std::size_t size() const;
  std::size_t nelements() const;
  long product() const;
};
}  // namespace casacore
namespace aocommon {
using NumT = float;
struct LogStream {
  template <class T> LogStream& operator<<(T&&);
  LogStream& operator<<(std::ostream& (*)(std::ostream&));
  template <class... A> void Log(A&&...);
  operator std::ostream&();
};
struct LogVerbosityLevel : lax::Any {};
struct Logger {
  static LogStream Debug, Error, Fatal, Info, Warn, Progress;
  template <class... A> static void SetLogMemory(A&&...);
  template <class... A> static void SetLogTime(A&&...);
  template <class... A> static void SetVerbosity(A&&...);
};
constexpr double kSpeedOfLight = 299792458.0;
enum class PolarizationEnum { kI, kXX, kXY, kYX, kYY };
template <class T>
struct Mat : lax::Any {
  using lax::Any::Any;
  Mat(const lax::Any&);
  Mat();
  Mat HermTranspose() const;
  Mat Transpose() const;
  Mat Inverse() const;
  bool Invert();
  Mat(const Mat&);
  Mat& operator=(const Mat&);
  template <class I> std::complex<T>& operator[](I);
  template <class I> const std::complex<T>& operator[](I) const;
  static Mat Unity();
  static Mat Zero();
  static Mat NaN();
};
using MC2x2 = Mat<double>;
using MC2x2F = Mat<float>;
template <class T> struct MatD : lax::Any {
  using lax::Any::Any;
  MatD(const lax::Any&);
  MatD();
  MatD HermTranspose() const;
  MatD Diagonal() const;
  MatD(const MatD&);
  MatD& operator=(const MatD&);
  template <class I> std::complex<T>& operator[](I);
  template <class I> const std::complex<T>& operator[](I) const;
  static MatD Unity();
  static MatD Zero();
};
using MC2x2Diag = MatD<double>;
using MC2x2FDiag = MatD<float>;
template <class T> using MC2x2Base = Mat<T>;
template <class T> using MC2x2DiagBase = MatD<T>;
using Matrix2x2 = Mat<double>;
struct MC4x4 : lax::Any { using lax::Any::Any; static MC4x4 KroneckerProduct(lax::Any, lax::Any); };
template <class T> T Norm(const Mat<T>&);
template <class T> T Norm(const MatD<T>&);
template <class T> MatD<T> Diagonal(const Mat<T>&);
template <class T> Mat<T> HermTranspose(const Mat<T>&);
template <class T> MatD<T> HermTranspose(const MatD<T>&);
template <class T> std::complex<T> Trace(const Mat<T>&);
namespace py {
template <class T> struct PyUniquePointer : lax::Any {
  using lax::Any::Any;
  std::unique_ptr<T> take();
  T& operator*();
  T* operator->();
};
}  // namespace py
}  // namespace aocommon
namespace everybeam {
using vector3r_t = std::array<double, 3>;
using real_t = double;
using vector2r_t = std::array<double, 2>;
enum class BeamMode { kNone, kFull, kArrayFactor, kElement };
enum class CorrectionMode { kNone, kFull, kArrayFactor, kElement };
enum class BeamNormalisationMode {
  kNone, kPreApplied, kPreAppliedOrFull, kAmplitude, kFull
};
enum class ElementResponseModel {
  kDefault, kHamaker, kHamakerLba, kLOBES, kOSKARDipole, kOSKARDipoleCos,
  kOSKARSphericalWave, kSkaMidAnalytical, kAartfaacInner, kAartfaacOuter,
  kLwa, kSkaLowFeko
};
enum class TelescopeType {
  kUnknownTelescope, kAARTFAAC, kATCATelescope, kGMRTTelescope,
  kLofarTelescope, kMWATelescope, kOSKARTelescope, kSkaMidTelescope,
  kOvroLwaTelescope, kVLATelescope
};
}  // namespace everybeam
namespace everybeam {
struct Options : lax::Any {
  BeamNormalisationMode beam_normalisation_mode;
  ElementResponseModel element_response_model;
  BeamMode beam_mode;
  std::string coeff_path, data_column_name;
  bool use_channel_frequency, frequency_interpolation;
};
}
namespace aoflagger {
struct Interval { std::size_t id; std::vector<double> times; };
struct Channel { double frequency, width; };
struct Band { std::size_t id; std::vector<Channel> channels; };
struct Antenna { std::size_t id; std::string name; double x, y, z; };
enum TelescopeId { GENERIC_TELESCOPE, LOFAR_TELESCOPE, AARTFAAC_TELESCOPE };
}
namespace idg { namespace api {
enum class Type {
  CPU_REFERENCE, CPU_OPTIMIZED, CUDA_GENERIC, HYBRID_CUDA_CPU_OPTIMIZED
};
enum class BufferSetType { kGridding, kDegridding, kBulkDegridding };
} }
namespace predict {
enum class computation_strategy { SINGLE, MULTI_SIMD, XSIMD };
}
namespace xt {
enum class layout_type { dynamic, any, row_major, column_major };
constexpr int newaxis_ = 0;
template <class... T> struct svector : lax::Arr<std::size_t> {};
template <class T, layout_type L = layout_type::row_major, class... R>
class xarray : public lax::Arr<T> {
 public:
  using lax::Arr<T>::Arr;
  template <class U> xarray& operator=(U&&);
};
template <class T, class S, layout_type L = layout_type::row_major, class... R>
class xtensor_fixed : public lax::Arr<T> {
 public:
  using lax::Arr<T>::Arr;
  template <class U> xtensor_fixed& operator=(U&&);
};
template <std::size_t... N> struct xshape {};
template <class E> struct xexpression : lax::Any { using lax::Any::Any; };
template <class... A> lax::Any newaxis(A&&...);
template <class E, std::size_t N, layout_type L = layout_type::row_major,
          class... R>
class xtensor_adaptor : public lax::Arr<float> {
 public:
  using lax::Arr<float>::Arr;
};
struct no_ownership {};
struct acquire_ownership {};
namespace placeholders { constexpr int _ = 0; }
}  // namespace xt
namespace schaapcommon {
template <class T> struct StaticFor {
  StaticFor();
  template <class F> void Run(T, T, F&&);
  template <class F> void Run(T, T, F&&, std::size_t);
  template <class F> void ConstrainedRun(T, T, std::size_t, F&&);
};
template <class T> struct DynamicFor {
  DynamicFor();
  template <class F> void Run(T, T, F&&);
  template <class F> void Run(T, T, F&&, std::size_t);
};
template <class T, class F> void RunStaticFor(T, T, F&&);
template <class T, class F>
void RunConstrainedStaticFor(T, T, std::size_t, F&&);
namespace h5parm {
enum class GainType {
  kScalarComplex, kScalarPhase, kScalarAmplitude, kDiagonalComplex,
  kDiagonalPhase, kDiagonalAmplitude, kFullJones, kFullJonesRealImaginary,
  kTec, kClock, kRotationAngle, kRotationMeasure, kDiagonalRealImaginary
};
class JonesParameters : public lax::Any {
 public:
  using lax::Any::Any;
  enum class InterpolationType { NEAREST, LINEAR };
  enum class MissingAntennaBehavior { kError, kFlag, kUnit };
  template <class... A> static lax::Any GainTypeToString(A&&...);
};
}  // namespace h5parm
namespace reordering {
enum class StorageManagerType { Default, Dysco, StokesI };
}
}  // namespace schaapcommon
namespace pybind11 {
template <class... T> struct class_ : lax::Any { using lax::Any::Any; };
template <class... T> struct enum_ : lax::Any { using lax::Any::Any; };
enum class return_value_policy {
  automatic, copy, move, reference, reference_internal, take_ownership
};
using ssize_t = long;
}  // namespace pybind11
namespace py = pybind11;
