// Repeated texts, and texts put together with <<.
#define BEFORE_STRTK "d_joinx.h"
#define MOD 1
#include "mon_str.h"
using namespace strtk;
typedef std::mstring S;
struct xtag {};
namespace strtk { namespace details { template<> struct supported_conversion_from_type<X> { typedef xtag type; }; } }
static inline bool type_to_string_converter_impl(const X& x,S& s,xtag) { s.lit=-1; s.a=x.k; s.b=x.k+1; s.last=x.k; return true; }
DRV(build) { build_string b; b << X(0) << X(1); S t; t.a=2; t.b=3; t.last=2; b << t << X(3); S out=b.to_str(); VP_CHECK(1,out.a==0); VP_CHECK(2,out.b==4); vp_end(); }
DRV(build_n) { long n=vp_size(); if (n<0||n>1000000000) vp_stop(); build_string b; for (long i=0;i<n;++i) b << X(i); S out=b.to_str(); VP_CHECK(2,out.b-out.a==n); vp_end(); }
