// Multi-value parsing. The tokeniser underneath (decided on its own by d_split) is replaced by explicit
// specialisations that hand out tagged tokens: token k is the k-th pair of positions of a tag buffer.
// The destinations are types that record which token they were converted from, and in which order.
#include <deque>
#include <vector>
#include <string>
#include <utility>
#include <new>
#include <cstddef>
typedef std::pair<const char*,const char*> R_;
struct toks { union { char raw[320]; R_* al; }; R_* a; std::size_t n; typedef R_ value_type; typedef R_* iterator; typedef const R_* const_iterator; typedef R_& reference; typedef const R_& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; toks():a((R_*)raw),n(0){}
  void push_back(const R_& r){ new(a+n) R_(r); ++n; } std::size_t size() const { return n; } bool empty() const { return n==0; } R_* begin(){ return a; } R_* end(){ return a+n; } R_& operator[](std::size_t i){ return a[i]; } R_& front(){ return a[0]; } void reserve(std::size_t){} };
namespace std { template<> class deque<R_,std::allocator<R_> > : public toks {}; template<> class vector<R_,std::allocator<R_> > : public toks {}; }
#include "vp.h"
using namespace strtk;
struct mon { const char* b; const char* e; unsigned avail; unsigned limit; const char* tag; int calls; int conv; int okc; int failed; R_* lb; int tail; int tailres; };
static mon* G;
template <int I> struct cap { typedef cap self; };
struct cap_tag {};
namespace strtk { namespace details {
  template <int I> struct supported_conversion_to_type<cap<I> > { typedef cap_tag type; }; } }
  template <typename It,int I> inline bool string_to_type_converter_impl(It& i,const It e,cap<I>&,cap_tag) {
    VP_CHECK(30,!G->failed); VP_CHECK(31,G->conv==I-1); VP_CHECK(32,i==G->tag+2*(I-1)); VP_CHECK(33,e==G->tag+2*(I-1)+1);
    G->conv=I; if (vp_bool()) { G->okc=I; i=e; return true; } G->failed=1; return false; }
template <typename O> static inline std::size_t hand(const char* b,const char* e,std::size_t lim,O out,std::size_t opt) {
  VP_CHECK(40,b==G->b); VP_CHECK(41,e==G->e); VP_CHECK(42,opt==1); VP_CHECK(43,G->calls==0); G->calls=1; std::size_t n=0;
  #define T_(k) if (G->avail<=k || lim<=k) return n; *out=R_(G->tag+2*k,G->tag+2*k+1); ++out; ++n;
  T_(0) T_(1) T_(2) T_(3) T_(4) T_(5) T_(6) T_(7) T_(8) T_(9) T_(10) T_(11) T_(12) T_(13) T_(14) T_(15) T_(16) T_(17) T_(18)
  return n; }
namespace strtk {
  template<> inline std::size_t split_n<const char*,R_*>(const std::string&,const char* b,const char* e,const std::size_t& n,R_* out,const split_options::type& o){ return hand(b,e,n,out,o); }
  template<> inline std::size_t split_n<single_delimiter_predicate<char>,const char*,R_*>(const single_delimiter_predicate<char>&,const char* b,const char* e,const std::size_t& n,R_* out,const split_options::type& o){ return hand(b,e,n,out,o); }
  template<> inline std::size_t split_n<multiple_char_delimiter_predicate,const char*,R_*>(const multiple_char_delimiter_predicate&,const char* b,const char* e,const std::size_t& n,R_* out,const split_options::type& o){ return hand(b,e,n,out,o); }
  typedef std::back_insert_iterator<std::deque<R_> > bi_t; typedef std::back_insert_iterator<std::vector<R_> > bv_t;
  template<> inline std::size_t split<single_delimiter_predicate<char>,const char*,bi_t>(const single_delimiter_predicate<char>&,const char* b,const char* e,bi_t out,const split_options::type o){ return hand(b,e,99,out,o); }
  template<> inline std::size_t split<multiple_char_delimiter_predicate,const char*,bi_t>(const multiple_char_delimiter_predicate&,const char* b,const char* e,bi_t out,const split_options::type o){ return hand(b,e,99,out,o); }
  template<> inline std::size_t split<single_delimiter_predicate<char>,const char*,bv_t>(const single_delimiter_predicate<char>&,const char* b,const char* e,bv_t out,const split_options::type o){ return hand(b,e,99,out,o); }
  template<> inline std::size_t split<multiple_char_delimiter_predicate,const char*,bv_t>(const multiple_char_delimiter_predicate&,const char* b,const char* e,bv_t out,const split_options::type o){ return hand(b,e,99,out,o); }
  namespace details { template<> inline bool container_adder::operator()<R_*>(R_* b,R_* e) { VP_CHECK(50,b!=e); VP_CHECK(51,b->first==G->tag+2*G->conv); VP_CHECK(52,(std::size_t)(e-b)==G->avail-(unsigned)G->conv); VP_CHECK(53,!G->failed); VP_CHECK(54,!G->tail); G->tail=1; bool r=vp_bool(); G->tailres=r?1:0; return r; } }
}
template <int N> static inline void verdict(mon& m,bool r,int tail) {
  if (m.avail<(unsigned)(N+tail)) { VP_CHECK(1,!r); VP_CHECK(2,m.conv==0); VP_CHECK(3,!m.tail); return; }
  if (r) { VP_CHECK(4,m.okc==N); VP_CHECK(5,!m.failed); if (tail) { VP_CHECK(6,m.tail==1); VP_CHECK(7,m.tailres==1); } }
  else { if (!tail) VP_CHECK(8,m.failed); else VP_CHECK(9,m.failed || (m.tail==1 && m.tailres==0)); } }
#define INIT(T,...) BUF(txt,n); mon m; m.b=txt; m.e=txt+n; m.avail=T; m.tag=vp_buf(64); m.calls=m.conv=m.okc=m.failed=m.tail=m.tailres=0; G=&m; __VA_ARGS__; STR(d_); const std::string& d=d_;
template <int N,int T> struct P1;
#define C_(k) cap<k> t##k;
#define DECLS cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; cap<12> t12; cap<13> t13; cap<14> t14; cap<15> t15; cap<16> t16;
#define L1 t1
#define L2 L1,t2
#define L3 L2,t3
#define L4 L3,t4
#define L5 L4,t5
#define L6 L5,t6
#define L7 L6,t7
#define L8 L7,t8
#define L9 L8,t9
#define L10 L9,t10
#define L11 L10,t11
#define L12 L11,t12
#define L13 L12,t13
#define L14 L13,t14
#define L15 L14,t15
#define L16 L15,t16
#define ONE(N,T) DRV(vals_##N##_of_##T) { DECLS INIT(T,vp_unroll(18)) bool r=parse((const char*)txt,(const char*)txt+n,d,L##N); verdict<N>(m,r,0); vp_end(); }
#define TAIL(N,T) DRV(tail_##N##_of_##T) { DECLS INIT(T) if (vp_bool()) { if (d.size()!=1) vp_stop(); } else { if (d.size()!=0) vp_stop(); } details::container_adder* ca=(details::container_adder*)vp_buf(sizeof(details::container_adder)); bool r=parse((const char*)txt,(const char*)txt+n,d,L##N,*ca); verdict<N>(m,r,1); vp_end(); }
#define T0(X,N) X(N,0) X(N,1)
#define T1(X,N) T0(X,N) X(N,2)
#define T2(X,N) T1(X,N) X(N,3)
#define T3(X,N) T2(X,N) X(N,4)
#define T4(X,N) T3(X,N) X(N,5)
#define T5(X,N) T4(X,N) X(N,6)
#define T6(X,N) T5(X,N) X(N,7)
#define T7(X,N) T6(X,N) X(N,8)
#define T8(X,N) T7(X,N) X(N,9)
#define T9(X,N) T8(X,N) X(N,10)
#define T10(X,N) T9(X,N) X(N,11)
#define T11(X,N) T10(X,N) X(N,12)
#define T12(X,N) T11(X,N) X(N,13)
#define T13(X,N) T12(X,N) X(N,14)
#define T14(X,N) T13(X,N) X(N,15)
#define T15(X,N) T14(X,N) X(N,16)
#define T16(X,N) T15(X,N) X(N,17)
T1(ONE,1) T2(ONE,2) T3(ONE,3) T4(ONE,4) T5(ONE,5) T6(ONE,6) T7(ONE,7) T8(ONE,8) T9(ONE,9) T10(ONE,10) T11(ONE,11) T12(ONE,12) T13(ONE,13) T14(ONE,14) T15(ONE,15) T16(ONE,16)
T2(TAIL,1) T3(TAIL,2) T4(TAIL,3) T5(TAIL,4) T6(TAIL,5) T7(TAIL,6) T8(TAIL,7) T9(TAIL,8) T10(TAIL,9) T11(TAIL,10) T12(TAIL,11)
