// Text and container forms of removal: each applies the range form (decided by d_keep, replaced here) to the whole text with a
// predicate of exactly the given characters, and then drops exactly the removed count from the end.
#include <cstddef>
struct user_pred { char c; inline bool operator()(const char& x) const { return x==c; } };
namespace strtk { template <typename T> struct single_delimiter_predicate; struct multiple_char_delimiter_predicate;
template <typename Iterator,typename Predicate> inline std::size_t remove_inplace(Predicate,Iterator,Iterator); template <typename Iterator,typename Predicate> inline std::size_t remove_consecutives_inplace(Predicate,Iterator,Iterator);
template <typename Iterator> inline std::size_t remove_consecutives_inplace(Iterator,Iterator);
template <typename Iterator,typename Predicate> inline std::size_t remove_leading(Predicate,Iterator,Iterator); template <typename Iterator,typename Predicate> inline std::size_t remove_trailing(Predicate,Iterator,Iterator);
typedef single_delimiter_predicate<char> S1; typedef multiple_char_delimiter_predicate SM;
#define FD(D) template<> inline std::size_t remove_inplace<char*,D>(D,char*,char*); template<> inline std::size_t remove_consecutives_inplace<char*,D>(D,char*,char*); template<> inline std::size_t remove_trailing<char*,D>(D,char*,char*); template<> inline std::size_t remove_leading<char*,D>(D,char*,char*);
FD(S1) FD(SM) FD(user_pred)
template<> inline std::size_t remove_consecutives_inplace<char*>(char*,char*);
}
#include "vp.h"
#include <deque>
using namespace strtk;
typedef const char* P;
struct rec { std::string* s; std::size_t keep; std::size_t size; char q; bool in; long calls; long kind; std::size_t i; char val; };
static rec* G;
static inline std::size_t did(char*b,char*e,long kind) { VP_CHECK(10,b==G->s->data()); VP_CHECK(11,e==G->s->data()+G->s->size()); VP_CHECK(12,G->kind==kind); VP_CHECK(14,G->calls==0); G->calls=G->calls+1;
  std::size_t r=vp_size(); if (r>(std::size_t)(e-b)) vp_stop(); G->keep=(std::size_t)(e-b)-r; 
  std::size_t i=vp_size(); if (i<G->keep && G->calls==1) { int v=vp_int(); if (v<0||v>127) vp_stop(); vp_watch_in(11,b+i,v); G->i=i; G->val=(char)v; } return r; }
template <typename D> static inline std::size_t didp(D d,char*b,char*e,long kind) { char q=G->q; bool r=d(q); bool in=G->in; if (in) VP_CHECK(15,r); else VP_CHECK(16,!r); return did(b,e,kind); }
namespace strtk {
#define SP(D) template<> inline std::size_t remove_inplace<char*,D>(D d,char*b,char*e) { return didp(d,b,e,1); } template<> inline std::size_t remove_consecutives_inplace<char*,D>(D d,char*b,char*e) { return didp(d,b,e,2); } \
  template<> inline std::size_t remove_trailing<char*,D>(D d,char*b,char*e) { return didp(d,b,e,4); } template<> inline std::size_t remove_leading<char*,D>(D d,char*b,char*e) { return didp(d,b,e,5); }
SP(S1) SP(SM) SP(user_pred)
template<> inline std::size_t remove_consecutives_inplace<char*>(char*b,char*e) { return did(b,e,3); }
}
static inline long chr(bool neg) { long v=vp_int(); if (v<(neg ? -128 : 0)) vp_stop(); if (v>(neg ? -1 : 127)) vp_stop(); return v; }
#define GO(v,isin,kd) vp_watch_locals(2,sizeof(SM),(long)(unsigned char)(char)(v)); rec g; STR(s); if (s.size()==0) return; g.s=&s; g.keep=s.size(); g.size=s.size(); g.q=(char)(v); g.in=isin; g.calls=0; g.kind=kd; g.i=s.size(); g.val=0; G=&g
#define FIN { VP_CHECK(1,g.calls==1); VP_CHECK(2,s.size()==g.keep); if (g.i<g.keep) VP_CHECK(3,s[g.i]==g.val); vp_end(); }
#define D_IN(k) STR(d_); const std::string& d=d_; std::size_t n=d.size(); std::size_t i=vp_size(); if (i>=n) return; long v=chr(N); long u=N ? v+256 : v; vp_watch_in(10,d.data()+i,(int)u); GO(v,true,k)
#define D_LO(k) STR(d_); const std::string& d=d_; long v=chr(N); if (v==-128) return; vp_fill(d.data(),d.size(),-128,v-1); GO(v,false,k)
#define D_HI(k) STR(d_); const std::string& d=d_; long v=chr(N); if (v==(N ? -1 : 127)) return; vp_fill(d.data(),d.size(),v+1,N ? -1 : 127); GO(v,false,k)
#define Z_IN(k) std::size_t n=vp_size(); if (n>=256) return; P d=vp_cstr(n); std::size_t i=vp_size(); if (i>=n) return; long v=chr(N); if (v==0) return; long u=N ? v+256 : v; vp_watch_in(10,d+i,(int)u); GO(v,true,k)
#define C_IN(k) long v=chr(N); char d=(char)v; GO(v,true,k)
#define C_OUT(R,k) char d=vp_char(); char w=vp_char(); if (!(d R w)) return; GO(w,false,k)
#define ALL(name,k,F) DRV(name##_in_neg) { const bool N=true; D_IN(k); F(d,s); FIN } DRV(name##_in_pos) { const bool N=false; D_IN(k); F(d,s); FIN } DRV(name##_lo_neg) { const bool N=true; D_LO(k); F(d,s); FIN } DRV(name##_lo_pos) { const bool N=false; D_LO(k); F(d,s); FIN } \
  DRV(name##_hi_neg) { const bool N=true; D_HI(k); F(d,s); FIN } DRV(name##_hi_pos) { const bool N=false; D_HI(k); F(d,s); FIN }
#define ALLZ(name,k,F) DRV(name##_z_in_neg) { const bool N=true; Z_IN(k); F(d,s); FIN } DRV(name##_z_in_pos) { const bool N=false; Z_IN(k); F(d,s); FIN }
#define ALLC(name,k,F) DRV(name##_c_in) { const bool N=false; C_IN(k); F(d,s); FIN } DRV(name##_c_in_neg) { const bool N=true; C_IN(k); F(d,s); FIN } DRV(name##_c_lt) { C_OUT(<,k); F(d,s); FIN } DRV(name##_c_gt) { C_OUT(>,k); F(d,s); FIN }
#define ALLP(name,k,F) DRV(name##_pred) { user_pred d; d.c=vp_char(); GO(d.c,true,k); F(d,s); FIN }
ALLC(rm,1,remove_inplace) ALLP(rm,1,remove_inplace)
ALL(rc,2,remove_consecutives_inplace) ALLZ(rc,2,remove_consecutives_inplace) ALLC(rc,2,remove_consecutives_inplace) ALLP(rc,2,remove_consecutives_inplace)
ALL(rt,4,remove_trailing) ALLZ(rt,4,remove_trailing) ALLC(rt,4,remove_trailing) ALLP(rt,4,remove_trailing)
ALL(rl,5,remove_leading) ALLZ(rl,5,remove_leading) ALLC(rl,5,remove_leading) ALLP(rl,5,remove_leading)
// nothing to remove from an empty text
#define EMPTY(name,K,...) DRV(name##_empty) { rec g; STR(s); if (s.size()!=0) return; g.s=&s; g.keep=0; g.size=0; g.q='a'; g.in=true; g.calls=0; g.kind=K; G=&g; STR(d_); const std::string& d=d_; vp_fill(d.data(),d.size(),0,64); vp_watch_locals(2,sizeof(SM),(long)'a'); __VA_ARGS__; VP_CHECK(2,s.size()==0); vp_end(); }
DRV(re) { GO(0,true,3); remove_consecutives_inplace(s); FIN }
EMPTY(rm_c,1,remove_inplace('a',s)) EMPTY(rc_c,2,remove_consecutives_inplace('a',s)) EMPTY(rt_c,4,remove_trailing('a',s)) EMPTY(rl_c,5,remove_leading('a',s))
EMPTY(re,3,remove_consecutives_inplace(s)) EMPTY(rm_p,1,user_pred p; p.c='a'; remove_inplace(p,s)) EMPTY(rt_p,4,user_pred p; p.c='a'; remove_trailing(p,s)) EMPTY(rl_p,5,user_pred p; p.c='a'; remove_leading(p,s))
EMPTY(rc_s,2,g.in=false; remove_consecutives_inplace(d,s)) EMPTY(rt_s,4,g.in=false; remove_trailing(d,s)) EMPTY(rl_s,5,g.in=false; remove_leading(d,s))
