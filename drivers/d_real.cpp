// Real-number text: the digits, the scale and the sign the conversion computes with, for a driver-defined number type
// that only records the operations. Characters are handed out by a driver-defined iterator that knows where it stands.
#include <utility>
#include <iterator>
#include <limits>
#include <cstddef>
extern "C" { void vp_fail(int) throw(); std::size_t vp_size() throw(); char vp_char() throw(); bool vp_bool() throw(); void vp_stop() throw() __attribute__((noreturn)); }
#define GCHECK(id,c) do { if (!(c)) vp_fail(id); } while (0)
// text layout: sign [0,s) zeros [s,z) digits [z,p) point [p,q) fraction [q,f) e [f,x) exponent sign [x,y) zeros [y,w) digits [w,u) suffix [u,n)
struct rtext { long s,z,p,q,f,x,y,w,u,n; long cur,val,done,E,ns,sum,neg,made,e0,e1,np,cnt; int shape; long bad,lo,hi; int loose; };
static rtext* T;
template <int SG,int ZR,int I,int PT,int FR,int EX,int SF> static inline void fetch(long k);
template <int SG,int ZR,int I,int PT,int FR,int EX,int SF> struct it { typedef std::random_access_iterator_tag iterator_category; typedef char value_type; typedef std::ptrdiff_t difference_type; typedef const char* pointer; typedef char reference;
  long k; it():k(0){} explicit it(long j):k(j){}
  char operator*() const { fetch<SG,ZR,I,PT,FR,EX,SF>(k); return (char)T->val; }
  it& operator++(){ ++k; return *this; } it operator++(int){ it t(k); ++k; return t; } it& operator--(){ --k; return *this; } it& operator+=(long j){ k+=j; return *this; } it operator+(long j) const { return it(k+j); } it operator-(long j) const { return it(k-j); }
  std::ptrdiff_t operator-(const it& o) const { return k-o.k; } bool operator==(const it& o) const { return k==o.k; } bool operator!=(const it& o) const { return k!=o.k; } bool operator<(const it& o) const { return k<o.k; } bool operator>=(const it& o) const { return k>=o.k; } };
namespace rec {
  // v: value of a literal; cnt: digits taken in; m: multiplied by ten since the last digit
  struct num; struct R { long v,cnt; int m; R():v(0),cnt(0),m(0){} explicit R(int i):v(i),cnt(0),m(0){} R& operator+=(const R& o); };
  static inline R operator*(const R& a,const R& b) { GCHECK(60,b.v==10); GCHECK(61,!a.m); R r(a); r.m=1; return r; }
  static inline R operator+(const R& a,unsigned d) { GCHECK(62,a.m==1); R r(a); r.m=0; r.v=0; if (T->loose) return r;
    if (T->cur>=T->z) { GCHECK(63,T->cur==T->done); GCHECK(64,(long)d==T->val-48); T->done++; r.cnt++; } else GCHECK(65,d==0); return r; }
  inline R& R::operator+=(const R& o) { if (T->loose) return *this; GCHECK(66,T->np==1); GCHECK(72,T->f>T->q); (void)o; T->sum++; return *this; }
  static inline R operator-(const R& a) { T->neg++; return a; }
  static inline R pow10(const R& a,int e) { if (T->loose) return a; if (T->np==0 && T->f>T->q) { GCHECK(67,e==T->e0); GCHECK(68,a.cnt==T->f-T->q); } else if (T->np<=1 && T->u>T->f) { GCHECK(70,T->cur>=T->u-1); GCHECK(71,e==(T->e1<0?-T->E:T->E)); } else GCHECK(69,0); T->np++; return a; }
  struct num { unsigned d; num():d(0){} explicit num(unsigned c):d(c){} explicit num(const R&):d(0) { T->made++; } };
  static inline R operator+(const R& a,const num& n) { return a+n.d; }
  static inline num operator-(const num& a) { T->neg++; return a; }
}
namespace std { template<> class numeric_limits<rec::num> { public: static rec::num quiet_NaN() { T->made+=100; return rec::num(); } static rec::num infinity() { T->made+=1000; return rec::num(); } }; }
#include "vp.h"
using namespace strtk;
namespace strtk { namespace details { template<> struct supported_conversion_to_type<rec::num> { typedef real_type_tag type; }; template<> struct real_type<rec::num> { typedef rec::R type; }; } }
namespace strtk { namespace details { template <> inline rec::R pow10<rec::R>(rec::R d,const int e) { return rec::pow10(d,e); } } }
#define CH(lo,hi) { char c_=vp_char(); if (c_<(lo)) vp_stop(); if (c_>(hi)) vp_stop(); T->val=c_; }
// SG: 0 no sign, 1 plus, 2 minus; ZR: leading zeros; I: integer digits; PT: point; FR: fraction digits; EX: exponent 0 none, 1 plain, 2 plus, 3 minus, +4 with zeros, +8 written E, +16 times the number of digits; SF: suffix
// the character at position bad is one from lo to hi
template <int SG,int ZR,int I,int PT,int FR,int EX,int SF> static inline void fetch(long k) { GCHECK(50,0<=k); GCHECK(51,k<T->n); if (T->cur==k) return; T->cur=k;
  if (k==T->bad) { CH((char)T->lo,(char)T->hi) return; }
  if (SG && k<T->s) { T->val=SG==2?'-':'+'; return; } if (ZR && k<T->z) { T->val='0'; return; } if (I && k<T->p) { if (k==T->z) { CH('1','9') } else CH('0','9') return; } if (PT && k<T->q) { T->val='.'; if (T->done==k) T->done++; return; }
  if (FR && k<T->f) { CH('0','9') return; } if (EX) { if (k<T->x) { T->val=EX>7?'E':'e'; return; } if ((EX&3)>1 && k<T->y) { T->val=(EX&3)==3?'-':'+'; return; } if ((EX&4) && k<T->w) { T->val='0'; return; }
  if (k<T->u) { if (k==T->w) CH('1','9') else CH('0','9') T->E=T->E*10+T->val-48; return; } }
  if (SF) T->val=SF==1?'f':SF==2?'F':SF==3?'l':'L'; }
#define TXT rtext t; T=&t; t.s=t.z=t.p=t.q=t.f=t.x=t.y=t.w=t.u=t.n=0; t.cur=-1; t.val=t.done=t.E=t.ns=t.sum=t.neg=t.made=t.e0=t.e1=t.np=t.cnt=0; t.bad=-1; t.loose=0; t.lo=t.hi=0;
static inline long len() { long k=(long)vp_size(); if (k>500000000) vp_stop(); return k; }
template <int SG,int ZR,int I,int PT,int FR,int EX,int SF> static inline void real() { vp_unroll(4); TXT t.s=SG?1:0; t.z=t.s; t.z+=ZR; t.p=t.z; t.p+=I;
  t.q=t.p+PT; t.f=t.q; t.f+=FR; t.e0=-FR; t.e1=(EX&3)==3?-1:1; t.x=t.f+(EX?1:0); t.y=t.x+((EX&3)>1?1:0); t.w=t.y+((EX&4)?2:0); t.u=t.w+(EX>>4); t.n=t.u+(SF?1:0); t.done=t.z; T=&t;
  typedef it<SG,ZR,I,PT,FR,EX,SF> iter; iter b(0),e(t.n); rec::num v; bool r=details::string_to_type_converter_impl(b,e,v,details::real_type_tag()); VP_CHECK(1,r); VP_CHECK(2,t.made==1); VP_CHECK(3,t.neg==(SG==2)); VP_CHECK(4,t.np==(FR?1:0)+(EX?1:0)); VP_CHECK(5,t.sum==(FR?1:0));
  if (!FR) VP_CHECK(6,t.done==t.q); vp_end(); }
#define REAL(N,SG,ZR,I,PT,FR,EX,SF) DRV(real_##N) { real<SG,ZR,I,PT,FR,EX,SF>(); }
REAL(0,0,0,1,0,0,0,0)
REAL(1,2,0,7,0,0,0,0)
REAL(2,1,0,2,0,0,0,1)
REAL(3,0,2,3,0,0,0,0)
REAL(4,0,1,0,0,0,0,0)
REAL(5,0,0,5,1,0,0,0)
REAL(6,2,0,6,1,0,0,3)
REAL(7,0,0,3,1,4,0,0)
REAL(8,1,1,1,1,7,0,2)
REAL(9,2,0,0,1,1,0,4)
REAL(10,0,0,0,1,5,0,0)
REAL(11,0,2,0,1,2,0,1)
REAL(12,0,0,1,0,0,17,0)
REAL(13,2,0,3,0,0,34,0)
REAL(14,0,0,2,0,0,51,0)
REAL(15,1,0,1,0,0,75,0)
REAL(16,0,0,1,0,0,21,1)
REAL(17,0,0,2,1,0,47,3)
REAL(18,0,0,1,1,2,33,0)
REAL(19,2,0,0,1,3,59,0)
REAL(20,0,1,4,1,6,34,2)
REAL(21,0,0,4,1,1,51,4)
REAL(22,2,1,1,0,0,65,0)
// texts without digits, or with an exponent without digits, are no numbers
template <int SG,int ZR,int I,int PT,int FR,int EX,int SF> static inline void none() { vp_unroll(4); TXT t.s=SG?1:0; t.z=t.s+ZR; t.p=t.z+I; t.q=t.p+PT; t.f=t.q+FR; t.x=t.f+(EX?1:0); t.y=t.x+((EX&3)>1?1:0); t.w=t.y+((EX&4)?2:0); t.u=t.w+(EX>>4); t.n=t.u+(SF?1:0); t.done=t.z; t.e0=-FR; T=&t;
  typedef it<SG,ZR,I,PT,FR,EX,SF> iter; iter b(0),e(t.n); rec::num v; bool r=details::string_to_type_converter_impl(b,e,v,details::real_type_tag()); VP_CHECK(1,!r); VP_CHECK(2,t.made==0); vp_end(); }
#define NONE(N,SG,ZR,I,PT,FR,EX,SF) DRV(none_##N) { none<SG,ZR,I,PT,FR,EX,SF>(); }
NONE(empty,0,0,0,0,0,0,0)
NONE(plus,1,0,0,0,0,0,0)
NONE(minus,2,0,0,0,0,0,0)
NONE(pt,0,0,0,1,0,0,0)
NONE(mpt,2,0,0,1,0,0,0)
NONE(ptf,0,0,0,1,0,0,1)
NONE(pte,0,0,0,1,0,17,0)
NONE(ex,0,0,0,0,0,17,0)
NONE(e,0,0,3,0,0,1,0)
NONE(eplus,0,0,2,1,1,2,0)
NONE(eminus,2,0,1,0,0,3,0)
// a character that occurs in no number makes the text no number, wherever it stands
template <int P,int LO,int HI,int SG,int ZR,int I,int PT,int FR,int EX,int SF> static inline void other() { vp_unroll(4); TXT t.s=SG?1:0; t.z=t.s+ZR; t.p=t.z+I; t.q=t.p+PT; t.f=t.q+FR; t.x=t.f+(EX?1:0); t.y=t.x+((EX&3)>1?1:0); t.w=t.y+((EX&4)?2:0); t.u=t.w+(EX>>4); t.n=t.u+(SF?1:0); t.loose=1; t.bad=P; t.lo=LO; t.hi=HI; T=&t;
  typedef it<SG,ZR,I,PT,FR,EX,SF> iter; iter b(0),e(t.n); rec::num v; bool r=details::string_to_type_converter_impl(b,e,v,details::real_type_tag()); VP_CHECK(1,!r); VP_CHECK(2,t.made==0); vp_end(); }
#define OTHER(N,P,LO,HI,SG,ZR,I,PT,FR,EX,SF) DRV(other_##N) { other<P,LO,HI,SG,ZR,I,PT,FR,EX,SF>(); }
OTHER(1,0,-128,34,0,0,1,0,0,0,0)
OTHER(2,0,90,96,0,0,1,0,0,0,0)
OTHER(3,1,111,115,2,0,3,0,0,0,0)
OTHER(4,1,66,68,2,0,3,0,0,0,0)
OTHER(5,2,79,83,2,0,3,0,0,0,0)
OTHER(6,2,44,44,2,0,3,0,0,0,0)
OTHER(7,3,58,64,2,0,3,0,0,0,0)
OTHER(8,3,122,127,2,0,3,0,0,0,0)
OTHER(9,1,36,42,0,0,4,0,0,0,0)
OTHER(10,1,98,100,0,0,4,0,0,0,0)
OTHER(11,2,117,120,0,0,4,0,0,0,0)
OTHER(12,2,71,72,0,0,4,0,0,0,0)
OTHER(13,3,90,96,0,0,4,0,0,0,0)
OTHER(14,3,47,47,0,0,4,0,0,0,0)
OTHER(15,1,66,68,0,1,2,0,0,0,0)
OTHER(16,1,-128,34,0,1,2,0,0,0,0)
OTHER(17,2,44,44,0,1,2,0,0,0,0)
OTHER(18,2,111,115,0,1,2,0,0,0,0)
OTHER(19,0,122,127,0,0,2,1,2,0,0)
OTHER(20,0,79,83,0,0,2,1,2,0,0)
OTHER(21,1,98,100,0,0,2,1,2,0,0)
OTHER(22,1,58,64,0,0,2,1,2,0,0)
OTHER(23,2,71,72,0,0,2,1,2,0,0)
OTHER(24,2,36,42,0,0,2,1,2,0,0)
OTHER(25,3,47,47,0,0,2,1,2,0,0)
OTHER(26,3,117,120,0,0,2,1,2,0,0)
OTHER(27,4,-128,34,0,0,2,1,2,0,0)
OTHER(28,4,90,96,0,0,2,1,2,0,0)
OTHER(29,1,111,115,0,0,0,1,4,0,0)
OTHER(30,1,66,68,0,0,0,1,4,0,0)
OTHER(31,2,79,83,0,0,0,1,4,0,0)
OTHER(32,2,44,44,0,0,0,1,4,0,0)
OTHER(33,3,58,64,0,0,0,1,4,0,0)
OTHER(34,3,122,127,0,0,0,1,4,0,0)
OTHER(35,4,36,42,0,0,0,1,4,0,0)
OTHER(36,4,98,100,0,0,0,1,4,0,0)
OTHER(37,2,117,120,0,0,1,1,3,0,1)
OTHER(38,2,71,72,0,0,1,1,3,0,1)
OTHER(39,4,90,96,0,0,1,1,3,0,1)
OTHER(40,4,47,47,0,0,1,1,3,0,1)
OTHER(41,5,66,68,0,0,1,1,3,0,1)
OTHER(42,5,-128,34,0,0,1,1,3,0,1)
OTHER(43,1,44,44,0,0,1,0,0,32,0)
OTHER(44,1,111,115,0,0,1,0,0,32,0)
OTHER(45,2,122,127,0,0,1,0,0,32,0)
OTHER(46,2,79,83,0,0,1,0,0,32,0)
OTHER(47,3,98,100,0,0,1,0,0,32,0)
OTHER(48,3,58,64,0,0,1,0,0,32,0)
OTHER(49,2,71,72,0,0,1,0,0,49,1)
OTHER(50,2,36,42,0,0,1,0,0,49,1)
OTHER(51,3,47,47,0,0,1,0,0,49,1)
OTHER(52,3,117,120,0,0,1,0,0,49,1)
OTHER(53,4,-128,34,0,0,1,0,0,49,1)
OTHER(54,4,90,96,0,0,1,0,0,49,1)
OTHER(55,5,111,115,0,0,1,0,0,49,1)
OTHER(56,5,66,68,0,0,1,0,0,49,1)
OTHER(57,4,79,83,0,0,1,1,1,67,0)
OTHER(58,4,44,44,0,0,1,1,1,67,0)
OTHER(59,5,58,64,0,0,1,1,1,67,0)
OTHER(60,5,122,127,0,0,1,1,1,67,0)
OTHER(61,6,36,42,0,0,1,1,1,67,0)
OTHER(62,6,98,100,0,0,1,1,1,67,0)
OTHER(63,7,117,120,0,0,1,1,1,67,0)
OTHER(64,7,71,72,0,0,1,1,1,67,0)
OTHER(65,8,90,96,0,0,1,1,1,67,0)
OTHER(66,8,47,47,0,0,1,1,1,67,0)
OTHER(67,2,66,68,0,0,2,0,0,38,3)
OTHER(68,2,-128,34,0,0,2,0,0,38,3)
OTHER(69,3,44,44,0,0,2,0,0,38,3)
OTHER(70,3,111,115,0,0,2,0,0,38,3)
OTHER(71,5,122,127,0,0,2,0,0,38,3)
OTHER(72,5,79,83,0,0,2,0,0,38,3)
OTHER(73,6,98,100,0,0,2,0,0,38,3)
OTHER(74,6,58,64,0,0,2,0,0,38,3)
OTHER(75,7,71,72,0,0,2,0,0,38,3)
OTHER(76,7,36,42,0,0,2,0,0,38,3)
OTHER(77,8,47,47,0,0,2,0,0,38,3)
OTHER(78,8,117,120,0,0,2,0,0,38,3)
// the words for not-a-number and infinity
template <int K,int S,int A,int B,int C,int D,int E,int F,int G,int H> struct wit { typedef std::random_access_iterator_tag iterator_category; typedef char value_type; typedef std::ptrdiff_t difference_type; typedef const char* pointer; typedef char reference;
  long k; wit():k(0){} explicit wit(long j):k(j){} char at(long j) const { return (char)(j==0?A:j==1?B:j==2?C:j==3?D:j==4?E:j==5?F:j==6?G:H); } char operator*() const { GCHECK(80,0<=k); GCHECK(81,k<K+(S?1:0)); return S?(k==0?(char)S:at(k-1)):at(k); }
  wit& operator++(){ ++k; return *this; } wit operator++(int){ wit t(k); ++k; return t; } wit& operator--(){ --k; return *this; } wit& operator+=(long j){ k+=j; return *this; } wit operator+(long j) const { return wit(k+j); } wit operator-(long j) const { return wit(k-j); }
  std::ptrdiff_t operator-(const wit& o) const { return k-o.k; } bool operator==(const wit& o) const { return k==o.k; } bool operator!=(const wit& o) const { return k!=o.k; } bool operator<(const wit& o) const { return k<o.k; } };
template <int M,int K,int S,int A,int B,int C,int D,int E,int F,int G,int H> static inline void word() { vp_unroll(9); TXT rec::num v; wit<K,S,A,B,C,D,E,F,G,H> b(0),e(K+(S?1:0)); bool r=details::string_to_type_converter_impl(b,e,v,details::real_type_tag()); VP_CHECK(1,r==(M!=0)); VP_CHECK(2,t.made==M); VP_CHECK(3,t.neg==(M && S=='-')); vp_end(); }
#define WORD(N,M,K,S,A,B,C,D,E,F,G,H) DRV(word_##N) { word<M,K,S,A,B,C,D,E,F,G,H>(); }
WORD(nan,100,3,0,'n','a','n',0,0,0,0,0)
WORD(NAN,100,3,0,'N','A','N',0,0,0,0,0)
WORD(inf,1000,3,0,'i','n','f',0,0,0,0,0)
WORD(INF,1000,3,0,'I','N','F',0,0,0,0,0)
WORD(infinity,1000,8,0,'i','n','f','i','n','i','t','y')
WORD(INFINITY,1000,8,0,'I','N','F','I','N','I','T','Y')
WORD(minf,1000,3,'-','i','n','f',0,0,0,0,0)
WORD(mINFINITY,1000,8,'-','I','N','F','I','N','I','T','Y')
WORD(pinf,1000,3,'+','i','n','f',0,0,0,0,0)
WORD(na,0,2,0,'n','a',0,0,0,0,0,0)
WORD(nam,0,3,0,'n','a','m',0,0,0,0,0)
WORD(nann,0,4,0,'n','a','n','n',0,0,0,0)
WORD(nAN,0,3,0,'n','A','N',0,0,0,0,0)
WORD(in,0,2,0,'i','n',0,0,0,0,0,0)
WORD(ing,0,3,0,'i','n','g',0,0,0,0,0)
WORD(infi,0,4,0,'i','n','f','i',0,0,0,0)
WORD(infinite,0,8,0,'i','n','f','i','n','i','t','e')
WORD(INf,0,3,0,'I','N','f',0,0,0,0,0)
WORD(NA,0,2,0,'N','A',0,0,0,0,0,0)
// a decimal field: at most IS digits before the point, FS digits after it count
template <bool OK,int IS,int FS,int SG,int ZR,int I,int PT,int FR> static inline void decimal() { vp_unroll(8); TXT t.s=SG?1:0; t.z=t.s+ZR; t.p=t.z+I; t.q=t.p+PT; t.f=t.x=t.y=t.w=t.u=t.q+(FR<FS?FR:FS); t.n=t.q+FR; t.done=t.z; t.e0=-(FR<FS?FR:FS); if (!OK) t.loose=1; T=&t;
  typedef it<SG,ZR,I,PT,FR,0,0> iter; iter b(0),e(t.n); rec::num v; decimal_sink<rec::num> k(v,IS,FS); bool r=k(b,e); VP_CHECK(1,r==OK); if (!OK) { VP_CHECK(2,t.made==0); } else { VP_CHECK(3,t.made==1); VP_CHECK(4,t.neg==(SG==2)); VP_CHECK(5,t.np==(FR?1:0)); VP_CHECK(6,t.sum==(FR?1:0)); if (!FR) VP_CHECK(7,t.done==t.q); } vp_end(); }
#define DECIMAL(N,OK,IS,FS,SG,ZR,I,PT,FR) DRV(decimal_##N) { decimal<OK,IS,FS,SG,ZR,I,PT,FR>(); }
DECIMAL(int,1,5,3,0,0,4,0,0)
DECIMAL(mint,1,3,3,2,0,3,0,0)
DECIMAL(zint,1,3,3,1,2,2,0,0)
DECIMAL(pt,1,3,3,0,0,2,1,0)
DECIMAL(frac,1,4,3,0,0,2,1,3)
DECIMAL(mfrac,1,4,6,2,1,4,1,2)
DECIMAL(onlyfrac,1,4,6,0,0,0,1,3)
DECIMAL(cut,1,4,2,0,0,3,1,5)
DECIMAL(toolong,0,2,2,0,0,3,1,2)
DECIMAL(toolong2,0,2,2,2,0,5,0,0)
DECIMAL(empty,0,4,2,0,0,0,0,0)
DECIMAL(minus,0,4,2,2,0,0,0,0)
