using hid_t = long;
using hsize_t = unsigned long long;
using std::string;
using clus_source_t = lax::Any;
using baseline_t = lax::Any;
using elementcoeff = lax::Any;
using exinfo_gaussian = lax::Any;
using exinfo_disk = lax::Any;
using exinfo_ring = lax::Any;
using exinfo_shapelet = lax::Any;
using fitsfile = lax::Any;
enum LaxConst {
  HBA_TILE_SIZE, TDOUBLE, TSTRING, TFLOAT, TINT, TLONG, TLOGICAL, TUSHORT,
  DOBEAM_NONE, DOBEAM_FULL, DOBEAM_ARRAY, DOBEAM_ELEMENT, DOBEAM_FULL_WB,
  DOBEAM_ARRAY_WB, DOBEAM_ELEMENT_WB, STYPE_POINT, STYPE_GAUSSIAN,
  STYPE_SHAPELET, DOUBLE_IMG, FLOAT_IMG, BINARY_TBL, READONLY, READWRITE,
  MAX_SNAME, FLEN_STATUS
};
namespace DP3Version { template <class... A> std::string AsString(A&&...); }
template <class... A> int fits_close_file(A&&...);
template <class... A> int fits_create_file(A&&...);
template <class... A> int fits_create_img(A&&...);
template <class... A> int fits_prefix_(A&&...);
template <class... A> int fits_write_key(A&&...);
template <class... A> int fits_write_pixnull(A&&...);
namespace std {
template <lax::IsAny T, class... A> lax::Any conj(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any norm(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any real(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any imag(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any arg(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any abs(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any sqrt(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any exp(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any log(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any log10(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any pow(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any sin(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any cos(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any atan2(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any fmod(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any floor(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any ceil(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any round(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any isfinite(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any isnan(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any isinf(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any min(const T&, const A&...);
template <lax::IsAny T, class... A> lax::Any max(const T&, const A&...);
template <lax::IsAny T> lax::Any to_string(const T&);
}  // namespace std
namespace lax { using std::conj; using std::norm; using std::abs; using std::real; using std::imag; using std::arg; using std::sqrt; using std::isfinite; using std::isnan; }
