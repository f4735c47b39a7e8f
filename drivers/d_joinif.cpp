// Joining the items a predicate picks: each item is asked about once, in order, and the picked ones are joined in order.
#define BEFORE_STRTK "d_joinx.h"
#include "mon_str.h"
using namespace strtk;
typedef std::mstring S;
struct mon { long seen,kept,from; int ans; };
static mon* G;
struct xtag {};
namespace strtk { namespace details { template<> struct supported_conversion_from_type<X> { typedef xtag type; }; } }
static inline bool type_to_string_converter_impl(const X& x,S& s,xtag) { SCHECK(31,x.k==G->seen-1); SCHECK(32,G->ans!=0); const long k=G->kept-1; s.lit=-1; s.a=2*k; s.b=2*k+1; s.last=k; return true; }
struct pick { bool operator()(const X& x) const { if (x.k==G->seen-1) return G->ans!=0; SCHECK(30,x.k==G->seen); G->seen++; if (x.k<G->from) { G->ans=0; return false; } if (x.k==G->from || vp_bool()) { G->ans=1; G->kept++; return true; } G->ans=0; return false; } };
#define N_ long n=vp_size(); if (n<0||n>1000000000) vp_stop(); mon m; m.seen=m.kept=0; m.from=-1; m.ans=0; G=&m; S d; d.lit=1;
#define START S out; out.a=-1; out.b=0; out.last=-1; out.lit=-1;
#define FIN VP_CHECK(25,m.seen==n); VP_CHECK(22,out.lit<0); VP_CHECK(20,out.a==-1); if (m.kept==0) { VP_CHECK(24,out.b==0); vp_end(); return; } VP_CHECK(21,out.b<=2*m.kept); vp_end();
#define RFIN VP_CHECK(25,m.seen==n); VP_CHECK(22,out.lit<0); if (m.kept==0) { VP_CHECK(24,out.a==out.b); vp_end(); return; } VP_CHECK(20,out.a==0); VP_CHECK(21,out.b<=2*m.kept); vp_end();
DRV(ji_range) { N_ START join_if(out,d,pick(),xit(0),xit(n)); FIN }
DRV(ji_pair) { N_ START join_if(out,d,pick(),std::make_pair(xit(0),xit(n))); FIN }
#define J(T,name) DRV(ji_##name) { N_ START T c(n); join_if(out,d,pick(),c); FIN }
J(std::vector<X>,vector) J(std::deque<X>,deque) J(std::list<X>,list) J(std::set<X>,set) J(std::multiset<X>,multiset)
DRV(ri_range) { N_ S out=join_if(d,pick(),xit(0),xit(n)); RFIN }
DRV(ri_pair) { N_ S out=join_if(d,pick(),std::make_pair(xit(0),xit(n))); RFIN }
#define R(T,name) DRV(ri_##name) { N_ T c(n); S out=join_if(d,pick(),c); RFIN }
R(std::vector<X>,vector) R(std::deque<X>,deque) R(std::list<X>,list) R(std::set<X>,set) R(std::multiset<X>,multiset)
// nothing follows the last picked item: the first, or the third, is the first one picked
#define FROM(F) vp_unroll(F+1); if (n<F+1) vp_stop(); m.from=F;
#define LAST VP_CHECK(26,m.kept>=1); VP_CHECK(27,out.b==2*m.kept-1);
#define JL(F,name,call) DRV(jl##F##_##name) { N_ FROM(F) START call; VP_CHECK(25,m.seen==n); LAST VP_CHECK(20,out.a==-1); vp_end(); } 
#define RL(F,name,call) DRV(rl##F##_##name) { N_ FROM(F) S out=call; VP_CHECK(25,m.seen==n); LAST VP_CHECK(20,out.a==0); vp_end(); }
JL(0,range,join_if(out,d,pick(),xit(0),xit(n))) JL(2,range,join_if(out,d,pick(),xit(0),xit(n)))
JL(0,pair,join_if(out,d,pick(),std::make_pair(xit(0),xit(n)))) JL(2,pair,join_if(out,d,pick(),std::make_pair(xit(0),xit(n))))
RL(0,range,join_if(d,pick(),xit(0),xit(n))) RL(2,range,join_if(d,pick(),xit(0),xit(n)))
RL(0,pair,join_if(d,pick(),std::make_pair(xit(0),xit(n))))
