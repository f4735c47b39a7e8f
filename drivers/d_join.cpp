// Construction and joining of text: what is written is exactly the text of each item once, in order, with the delimiter
// exactly between two of them, after whatever the text held before.
#define BEFORE_STRTK "d_joinx.h"
#include "mon_str.h"
using namespace strtk;
typedef std::mstring S;
struct mon { long n,seen,kept; bool ans; };
static mon* G;
struct xtag {};
namespace strtk { namespace details { template<> struct supported_conversion_from_type<X> { typedef xtag type; }; } }
static inline bool type_to_string_converter_impl(const X& x,S& s,xtag) { s.lit=-1; s.a=2*x.k; s.b=2*x.k+1; s.last=x.k; return true; }
static inline void delim(S& d){ d.lit=1; }
static inline void prior(S& o){ o.a=-1; o.b=0; o.last=-1; o.lit=-1; }
#define DONE(N) VP_CHECK(20,out.a==-1); VP_CHECK(21,out.b==2*(N)-1); VP_CHECK(22,out.lit<0); vp_end();
#define START S d,out; delim(d); prior(out);
DRV(c2) { START construct(out,d,X(0),X(1)); DONE(2) }
DRV(c3) { START construct(out,d,X(0),X(1),X(2)); DONE(3) }
DRV(c4) { START construct(out,d,X(0),X(1),X(2),X(3)); DONE(4) }
DRV(c5) { START construct(out,d,X(0),X(1),X(2),X(3),X(4)); DONE(5) }
DRV(c6) { START construct(out,d,X(0),X(1),X(2),X(3),X(4),X(5)); DONE(6) }
DRV(c7) { START construct(out,d,X(0),X(1),X(2),X(3),X(4),X(5),X(6)); DONE(7) }
DRV(c8) { START construct(out,d,X(0),X(1),X(2),X(3),X(4),X(5),X(6),X(7)); DONE(8) }
DRV(c9) { START construct(out,d,X(0),X(1),X(2),X(3),X(4),X(5),X(6),X(7),X(8)); DONE(9) }
DRV(c10) { START construct(out,d,X(0),X(1),X(2),X(3),X(4),X(5),X(6),X(7),X(8),X(9)); DONE(10) }
DRV(c11) { START construct(out,d,X(0),X(1),X(2),X(3),X(4),X(5),X(6),X(7),X(8),X(9),X(10)); DONE(11) }
DRV(c12) { START construct(out,d,X(0),X(1),X(2),X(3),X(4),X(5),X(6),X(7),X(8),X(9),X(10),X(11)); DONE(12) }
// every item of a range, in order
#define N_ long n=vp_size(); if (n<0||n>1000000000) vp_stop();
#define FIN if (n==0) { VP_CHECK(23,out.a==-1); VP_CHECK(24,out.b==0); VP_CHECK(22,out.lit<0); vp_end(); return; } DONE(n)
#define RFIN if (n==0) { VP_CHECK(23,out.a==out.b); VP_CHECK(22,out.lit<0); vp_end(); return; } VP_CHECK(20,out.a==0); VP_CHECK(21,out.b==2*n-1); VP_CHECK(22,out.lit<0); vp_end();
DRV(j_range) { N_ START join(out,d,xit(0),xit(n)); FIN }
DRV(j_pair) { N_ START join(out,d,std::make_pair(xit(0),xit(n))); FIN }
#define J(T,name) DRV(j_##name) { N_ START T c(n); join(out,d,c); FIN }
J(std::vector<X>,vector) J(std::deque<X>,deque) J(std::list<X>,list) J(std::set<X>,set) J(std::multiset<X>,multiset)
#define RS S d; delim(d);
DRV(r_range) { N_ RS S out=join(d,xit(0),xit(n)); RFIN }
DRV(r_pair) { N_ RS S out=join(d,std::make_pair(xit(0),xit(n))); RFIN }
#define R(T,name) DRV(r_##name) { N_ RS T c(n); S out=join(d,c); RFIN }
R(std::vector<X>,vector) R(std::deque<X>,deque) R(std::list<X>,list) R(std::set<X>,set) R(std::multiset<X>,multiset)
