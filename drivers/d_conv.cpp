// text to value conversions over raw character ranges: accesses and termination
#include "vp.h"
using namespace strtk;
static inline void keep(const std::string&){} static inline void keep(const ignore_token&){} template <typename T> static inline void keep(T t){ vp_use((std::size_t)t); }
template <typename T> static inline void raw() { BUF(b,n); if (n>(1u<<30)) return; const char* i=b; const char* e=b+n; T t=T(); details::string_to_type_converter_impl(i,e,t,typename details::supported_conversion_to_type<T>::type()); VP_CHECK(1,b<=i && i<=e); keep(t); vp_end(); }
DRV(raw_int) { raw<int>(); }
DRV(raw_uint) { raw<unsigned int>(); }
DRV(raw_short) { raw<short>(); }
DRV(raw_ll) { raw<long long>(); }
DRV(raw_ull) { raw<unsigned long long>(); }
DRV(raw_double) { raw<double>(); }
DRV(raw_float) { raw<float>(); }
DRV(raw_bool) { raw<bool>(); }
DRV(raw_char) { raw<char>(); }
DRV(raw_uchar) { raw<unsigned char>(); }
DRV(raw_string) { raw<std::string>(); }
DRV(raw_ignore) { raw<ignore_token>(); }
DRV(str_int) { STR(s); int t; string_to_type_converter(s,t); vp_end(); }
DRV(str_dbl) { STR(s); double t; string_to_type_converter(s,t); vp_end(); }
DRV(exp_ref) { BUF(b,n); const char* i=b; int t=0; details::string_to_type_converter_impl_ref(i,(const char*)b+n,t,details::signed_type_tag()); VP_CHECK(1,b<=i && i<=b+n); vp_end(); }
DRV(nan) { BUF(b,n); const char* i=b; double t=0; details::parse_nan(i,(const char*)b+n,t); VP_CHECK(1,b<=i && i<=b+n); vp_end(); }
DRV(inf) { BUF(b,n); const char* i=b; double t=0; details::parse_inf(i,(const char*)b+n,t,vp_bool()); VP_CHECK(1,b<=i && i<=b+n); vp_end(); }
DRV(pow10d) { int e=vp_int(); if (e<-2147483647) return; double d=1.0; d=details::pow10(d,e); vp_use((std::size_t)d); vp_end(); }
DRV(pow10f) { int e=vp_int(); if (e<-2147483647) return; float d=1.0; d=details::pow10(d,e); vp_use((std::size_t)d); vp_end(); }
