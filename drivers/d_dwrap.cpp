// Split functions that take their delimiters as text or as one character: each hands the range form (decided by C01 and
// C02, replaced here by specialisations) the whole text, the caller's options and a predicate with exactly the given characters.
#include <deque>
#include <list>
#include "vp.h"
using namespace strtk;
typedef const char* P; typedef std::pair<P,P> PP;
struct rec { P b; P e; long opt; long lim; const void* out; char q; bool in; long calls; std::size_t res; };
static rec* G;
template <typename D> static inline std::size_t got(const D& d,P b,P e,long lim,long opt) { VP_CHECK(10,G->calls==0); G->calls=1; VP_CHECK(11,b==G->b); VP_CHECK(12,e==G->e); VP_CHECK(13,opt==G->opt); VP_CHECK(14,lim==G->lim);
  char q=G->q; bool r=d(q); bool in=G->in; if (in) VP_CHECK(15,r); else VP_CHECK(16,!r); std::size_t n=vp_size(); G->res=n; return n; }
template <typename D> static inline std::size_t got_c(const D& d,char*b,char*e,long lim,long opt) { return got(d,(P)b,(P)e,lim,opt); }
typedef null_out<PP> O; typedef single_delimiter_predicate<char> S1; typedef multiple_char_delimiter_predicate SM; typedef std::back_insert_iterator<std::vector<PP> > OV; typedef std::back_insert_iterator<std::deque<PP> > OD;
struct user_pred { char c; inline bool operator()(const char& x) const { return x==c; } };
struct fun { template <typename T> inline void operator()(const T&) {} };
typedef functional_inserter_iterator<fun> OF;
namespace strtk {
#define ST(D,OUT) template<> inline std::size_t split<D,P,OUT>(const D& d,const std::pair<P,P>& r,OUT,const split_options::type o) { return got(d,r.first,r.second,-1,(long)o); } \
  template<> inline std::size_t split<D,P,OUT>(const D& d,const P b,const P e,OUT,const split_options::type o) { return got(d,b,e,-1,(long)o); }
ST(S1,O) ST(SM,O) ST(S1,OV) ST(SM,OV) ST(S1,OD) ST(SM,OD) ST(user_pred,O) ST(S1,OF) ST(SM,OF)
#define SN(D,OUT) template<> inline std::size_t split_n<D,P,OUT>(const D& d,const P b,const P e,const std::size_t& n,OUT,const split_options::type& o) { return got(d,b,e,(long)n,(long)o); }
SN(S1,O) SN(SM,O) SN(user_pred,O)
}
static inline long chr(bool neg) { long v=vp_int(); if (v<(neg ? -128 : 0)) vp_stop(); if (v>(neg ? -1 : 127)) vp_stop(); return v; }
#define GO(v,isin) vp_watch_locals(2,sizeof(SM),(long)(unsigned char)(char)(v)); rec g; STR(t); g.b=t.data(); g.e=g.b+t.size(); split_options::type opt=(split_options::type)vp_int(); g.opt=(long)opt; g.lim=-1; g.q=(char)(v); g.in=isin; g.calls=0; G=&g
#define N_ { std::size_t l=vp_size(); g.lim=(long)l; }
#define FIN { VP_CHECK(1,g.calls==1); VP_CHECK(2,r==g.res); vp_end(); }
#define D_IN STR(d_); const std::string& d=d_; std::size_t n=d.size(); std::size_t i=vp_size(); if (i>=n) return; long v=chr(N); long u=N ? v+256 : v; vp_watch_in(10,d.data()+i,(int)u); GO(v,true)
#define D_LO STR(d_); const std::string& d=d_; long v=chr(N); if (v==-128) return; vp_fill(d.data(),d.size(),-128,v-1); GO(v,false)
#define D_HI STR(d_); const std::string& d=d_; long v=chr(N); if (v==(N ? -1 : 127)) return; vp_fill(d.data(),d.size(),v+1,N ? -1 : 127); GO(v,false)
#define D_UP STR(d_); const std::string& d=d_; long v=chr(true); vp_fill(d.data(),d.size(),0,127); GO(v,false)
#define Z_IN std::size_t n=vp_size(); if (n>=256) return; P d=vp_cstr(n); std::size_t i=vp_size(); if (i>=n) return; long v=chr(N); if (v==0) return; long u=N ? v+256 : v; vp_watch_in(10,d+i,(int)u); GO(v,true)
#define C_IN long v=chr(N); char d=(char)v; GO(v,true)
#define C_OUT(R) char d=vp_char(); char w=vp_char(); if (!(d R w)) return; GO(w,false)
#define ALL(name,CALL) DRV(name##_in_neg) { const bool N=true; D_IN; CALL FIN } DRV(name##_in_pos) { const bool N=false; D_IN; CALL FIN } DRV(name##_lo_neg) { const bool N=true; D_LO; CALL FIN } DRV(name##_lo_pos) { const bool N=false; D_LO; CALL FIN } \
  DRV(name##_hi_neg) { const bool N=true; D_HI; CALL FIN } DRV(name##_hi_pos) { const bool N=false; D_HI; CALL FIN } DRV(name##_up) { D_UP; CALL FIN }
#define ALLZ(name,CALL) DRV(name##_z_in_neg) { const bool N=true; Z_IN; CALL FIN } DRV(name##_z_in_pos) { const bool N=false; Z_IN; CALL FIN }
#define ALLC(name,CALL) DRV(name##_c_in) { const bool N=false; C_IN; CALL FIN } DRV(name##_c_in_neg) { const bool N=true; C_IN; CALL FIN } DRV(name##_c_lt) { C_OUT(<); CALL FIN } DRV(name##_c_gt) { C_OUT(>); CALL FIN }
#define TS const std::string& ts=t;
#define C_PAIR PP r_(t.data(),t.data()+t.size()); std::size_t r=split<SM>(d,r_,O(),opt);
#define C_STR TS std::size_t r=split(d,ts,O(),opt);
#define C_DEF TS g.opt=(long)split_options::default_mode; std::size_t r=split(d,ts,O());
#define C_VEC TS std::vector<PP> c; std::size_t r=split(d,ts,c,opt);
#define C_DEQ TS std::deque<PP> c; std::size_t r=split(d,ts,c,opt);
#define C_N   TS N_ const std::size_t lim=(std::size_t)g.lim; std::size_t r=split_n(d,ts,lim,O(),opt);
#define C_NR  N_ const std::size_t lim=(std::size_t)g.lim; std::size_t r=split_n(d,t.data(),t.data()+t.size(),lim,O(),opt);
#define C_FOR TS fun f; g.opt=(long)split_options::default_mode; std::size_t r=for_each_token(ts,d,f);
ALL(str,C_STR) ALL(pair,C_PAIR) ALL(def,C_DEF) ALL(vec,C_VEC) ALL(deq,C_DEQ) ALL(n,C_N) ALL(nr,C_NR) ALL(for,C_FOR)
ALLZ(str,C_STR) ALLZ(pair,C_PAIR) ALLZ(def,C_DEF) ALLZ(vec,C_VEC) ALLZ(deq,C_DEQ) ALLZ(n,C_N) ALLZ(for,C_FOR)
ALLC(str,C_STR) ALLC(def,C_DEF) ALLC(n,C_N)
DRV(pred) { user_pred d; d.c=vp_char(); GO(d.c,true); C_STR FIN }
DRV(pred_n) { user_pred d; d.c=vp_char(); GO(d.c,true); C_N FIN }
