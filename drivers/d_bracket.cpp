// Bracketed texts, repeated texts, texts put together with <<.
#define BEFORE_STRTK "d_joinx.h"
#define MOD 3
#include "mon_str.h"
using namespace strtk;
typedef std::mstring S;
struct xtag {};
namespace strtk { namespace details { template<> struct supported_conversion_from_type<X> { typedef xtag type; }; } }
static inline bool type_to_string_converter_impl(const X& x,S& s,xtag) { s.lit=-1; s.a=3*x.k+1; s.b=3*x.k+2; s.last=x.k; return true; }
#define N_ long n=vp_size(); if (n<0||n>1000000000) vp_stop(); S p,q; p.lit=0; q.lit=2;
#define START S out; out.a=-1; out.b=0; out.last=-1; out.lit=-1;
#define FIN VP_CHECK(22,out.lit<0); VP_CHECK(20,out.a==-1); VP_CHECK(21,out.b==3*n); vp_end();
#define RFIN VP_CHECK(22,out.lit<0); VP_CHECK(21,out.b-out.a==3*n); if (n>0) VP_CHECK(20,out.a==0); vp_end();
DRV(b_range) { N_ START bracketize(out,p,q,xit(0),xit(n)); FIN }
#define J(T,name) DRV(b_##name) { N_ START T c(n); bracketize(out,p,q,c); FIN }
J(std::vector<X>,vector) J(std::deque<X>,deque) J(std::list<X>,list) J(std::set<X>,set) J(std::multiset<X>,multiset)
DRV(rb_range) { N_ S out=bracketize(p,q,xit(0),xit(n)); RFIN }
#define R(T,name) DRV(rb_##name) { N_ T c(n); S out=bracketize(p,q,c); RFIN }
R(std::vector<X>,vector) R(std::deque<X>,deque) R(std::list<X>,list) R(std::set<X>,set) R(std::multiset<X>,multiset)
