// Token grid columns: every row of the range that has the column contributes its own token of that column, once, in order.
#include "d_gridtab.h"
using namespace strtk;
// d[k]: rows decided for the k-th column asked for; need: the column a row must have to take part
struct mon { std::size_t d[5],idx[5]; std::size_t need; int n,chk,sure,some; int pend[5]; std::size_t okc,shown; };
static mon* G;
static inline void fetch(std::size_t i) { GCHECK(21,i<T->rows); if (T->cur==(long)i) return; const long B=1000000000; long a=(long)vp_size(),c=(long)vp_size(),h=(long)vp_size(),need=(long)G->need; if (c<1) vp_stop(); if (h>1) vp_stop(); if (c>need+B*h) vp_stop(); if (c+B-B*h<need+1) vp_stop(); if (a>=(long)T->toks) vp_stop(); if (a+c>(long)T->toks) vp_stop(); T->cur=(long)i; T->x.first=(unsigned)a; T->x.second=(unsigned)(a+c-1);
  #define S_(k) if (G->n>k) GCHECK(22,i==G->d[k]);
  S_(0) S_(1) S_(2) S_(3) S_(4)
  #define U_(k) if (G->n>k) G->d[k]+=(std::size_t)(1-h);
  U_(0) U_(1) U_(2) U_(3) U_(4) }
static inline void took(const obs&) {}
struct obs_tag {}; template <int K> struct ob { const unsigned char* src; };
namespace strtk { namespace details { template<int K> struct supported_conversion_to_type<ob<K> > { typedef obs_tag type; }; } }
template <typename It> static inline bool conv(It& i,const It e,int K) {
  GCHECK(32,T->cur==(long)G->d[K]); GCHECK(33,i==T->tag+2*(T->x.first+G->idx[K])); GCHECK(34,e==T->tag+2*(T->x.first+G->idx[K])+1); GCHECK(35,!G->pend[K]); G->d[K]++;
  bool ok=G->sure || vp_bool(); if (ok || !G->chk) G->pend[K]=1; if (ok) { i=e; return true; } return false; }
template <typename It,int K> inline bool string_to_type_converter_impl(It& i,const It e,ob<K>&,obs_tag) { return conv(i,e,K); }
template <int K> struct gout { typedef std::output_iterator_tag iterator_category; typedef ob<K> value_type; typedef void difference_type; typedef void pointer; typedef void reference; gout& operator*(){return *this;} gout& operator++(){return *this;} gout operator++(int){return *this;}
  void operator=(const ob<K>&){ GCHECK(40,G->pend[K]); G->pend[K]=0; G->okc++; } };
#define Z_(q) m.d[q]=0; m.idx[q]=0; m.pend[q]=0;
#define GRID(N) grid t; mon m; T=&t; G=&m; t.rows=t.toks=0; t.ch=0; t.cur=-1; m.n=N; m.chk=m.sure=m.some=0;  Z_(0) Z_(1) Z_(2) Z_(3) Z_(4) m.need=0; m.okc=0; token_grid g; const std::size_t mx=vp_size(); g.enforce_min_max_column_count(0,mx); \
  t.rows=vp_size(); t.toks=vp_size(); if (t.rows>1000000000) vp_stop(); if (t.toks>1000000000) vp_stop(); t.tag=(const unsigned char*)vp_buf(2000000002ul); T=&t; G=&m;
#define FROM(x) m.d[0]=m.d[1]=m.d[2]=m.d[3]=m.d[4]=x; t.cur=(long)(x)-1;
#define RANGE std::size_t lo=vp_size(),hi=vp_size(); if (hi>t.rows) vp_stop(); if (lo>hi) vp_stop(); FROM(lo) const token_grid::row_range_t rr((unsigned)lo,(unsigned)hi);
#define WHOLE const std::size_t lo=0,hi=t.rows; FROM(0)
#define I_(k) std::size_t i##k=vp_size(); if (i##k>mx) vp_stop(); m.idx[k]=i##k;
#define MAX_(k) m.need=i##k;
#define LE_(j,k) if (i##j>i##k) vp_stop();
#define LT_(j,k) if (i##j>=i##k) vp_stop();
#define GOOD(...) VP_CHECK(1,b); __VA_ARGS__ vp_end();
#define D_(k) VP_CHECK(2,m.d[k]==hi); VP_CHECK(3,!m.pend[k]);
#define REFUSED VP_CHECK(5,!b); VP_CHECK(6,m.d[0]==0); VP_CHECK(7,m.okc==0); vp_end();
#define NOROWS(nm,...) DRV(nm##_late) { GRID(1) std::size_t lo=vp_size(),hi=vp_size(); if (hi<=t.rows) vp_stop(); if (hi>2000000000) vp_stop(); if (lo>hi) vp_stop(); const token_grid::row_range_t rr((unsigned)lo,(unsigned)hi); bool b=__VA_ARGS__; REFUSED } \
  DRV(nm##_turned) { GRID(1) std::size_t lo=vp_size(),hi=vp_size(); if (lo>2000000000) vp_stop(); if (hi>=lo) vp_stop(); const token_grid::row_range_t rr((unsigned)lo,(unsigned)hi); bool b=__VA_ARGS__; REFUSED }
DRV(col1_0) { GRID(1) RANGE I_(0)  MAX_(0) bool b=g.extract_column(rr,i0,gout<0>()); GOOD(D_(0)) }
DRV(col2_0) { GRID(2) RANGE I_(0) I_(1) LE_(1,0) MAX_(0) bool b=g.extract_column(rr,i0,i1,gout<0>(),gout<1>()); GOOD(D_(0) D_(1)) }
DRV(col2_1) { GRID(2) RANGE I_(0) I_(1) LE_(0,1) MAX_(1) bool b=g.extract_column(rr,i0,i1,gout<0>(),gout<1>()); GOOD(D_(0) D_(1)) }
DRV(col3_0) { GRID(3) RANGE I_(0) I_(1) I_(2) LE_(1,0) LE_(2,0) MAX_(0) bool b=g.extract_column(rr,i0,i1,i2,gout<0>(),gout<1>(),gout<2>()); GOOD(D_(0) D_(1) D_(2)) }
DRV(col3_1) { GRID(3) RANGE I_(0) I_(1) I_(2) LE_(0,1) LE_(2,1) MAX_(1) bool b=g.extract_column(rr,i0,i1,i2,gout<0>(),gout<1>(),gout<2>()); GOOD(D_(0) D_(1) D_(2)) }
DRV(col3_2) { GRID(3) RANGE I_(0) I_(1) I_(2) LE_(0,2) LE_(1,2) MAX_(2) bool b=g.extract_column(rr,i0,i1,i2,gout<0>(),gout<1>(),gout<2>()); GOOD(D_(0) D_(1) D_(2)) }
DRV(col4_0_up) { GRID(4) RANGE I_(0) I_(1) I_(2) I_(3) LT_(1,2) LT_(2,3) LT_(3,0) MAX_(0) bool b=g.extract_column(rr,i0,i1,i2,i3,gout<0>(),gout<1>(),gout<2>(),gout<3>()); GOOD(D_(0) D_(1) D_(2) D_(3)) }
DRV(col4_0_down) { GRID(4) RANGE I_(0) I_(1) I_(2) I_(3) LT_(3,2) LT_(2,1) LT_(1,0) MAX_(0) bool b=g.extract_column(rr,i0,i1,i2,i3,gout<0>(),gout<1>(),gout<2>(),gout<3>()); GOOD(D_(0) D_(1) D_(2) D_(3)) }
DRV(col4_1_up) { GRID(4) RANGE I_(0) I_(1) I_(2) I_(3) LT_(0,2) LT_(2,3) LT_(3,1) MAX_(1) bool b=g.extract_column(rr,i0,i1,i2,i3,gout<0>(),gout<1>(),gout<2>(),gout<3>()); GOOD(D_(0) D_(1) D_(2) D_(3)) }
DRV(col4_1_down) { GRID(4) RANGE I_(0) I_(1) I_(2) I_(3) LT_(3,2) LT_(2,0) LT_(0,1) MAX_(1) bool b=g.extract_column(rr,i0,i1,i2,i3,gout<0>(),gout<1>(),gout<2>(),gout<3>()); GOOD(D_(0) D_(1) D_(2) D_(3)) }
DRV(col4_2_up) { GRID(4) RANGE I_(0) I_(1) I_(2) I_(3) LT_(0,1) LT_(1,3) LT_(3,2) MAX_(2) bool b=g.extract_column(rr,i0,i1,i2,i3,gout<0>(),gout<1>(),gout<2>(),gout<3>()); GOOD(D_(0) D_(1) D_(2) D_(3)) }
DRV(col4_2_down) { GRID(4) RANGE I_(0) I_(1) I_(2) I_(3) LT_(3,1) LT_(1,0) LT_(0,2) MAX_(2) bool b=g.extract_column(rr,i0,i1,i2,i3,gout<0>(),gout<1>(),gout<2>(),gout<3>()); GOOD(D_(0) D_(1) D_(2) D_(3)) }
DRV(col4_3_up) { GRID(4) RANGE I_(0) I_(1) I_(2) I_(3) LT_(0,1) LT_(1,2) LT_(2,3) MAX_(3) bool b=g.extract_column(rr,i0,i1,i2,i3,gout<0>(),gout<1>(),gout<2>(),gout<3>()); GOOD(D_(0) D_(1) D_(2) D_(3)) }
DRV(col4_3_down) { GRID(4) RANGE I_(0) I_(1) I_(2) I_(3) LT_(2,1) LT_(1,0) LT_(0,3) MAX_(3) bool b=g.extract_column(rr,i0,i1,i2,i3,gout<0>(),gout<1>(),gout<2>(),gout<3>()); GOOD(D_(0) D_(1) D_(2) D_(3)) }
DRV(col5_0_up) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(1,2) LT_(2,3) LT_(3,4) LT_(4,0) MAX_(0) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_0_down) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(4,3) LT_(3,2) LT_(2,1) LT_(1,0) MAX_(0) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_1_up) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(0,2) LT_(2,3) LT_(3,4) LT_(4,1) MAX_(1) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_1_down) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(4,3) LT_(3,2) LT_(2,0) LT_(0,1) MAX_(1) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_2_up) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(0,1) LT_(1,3) LT_(3,4) LT_(4,2) MAX_(2) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_2_down) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(4,3) LT_(3,1) LT_(1,0) LT_(0,2) MAX_(2) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_3_up) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(0,1) LT_(1,2) LT_(2,4) LT_(4,3) MAX_(3) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_3_down) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(4,2) LT_(2,1) LT_(1,0) LT_(0,3) MAX_(3) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_4_up) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(0,1) LT_(1,2) LT_(2,3) LT_(3,4) MAX_(4) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col5_4_down) { GRID(5) RANGE I_(0) I_(1) I_(2) I_(3) I_(4) LT_(3,2) LT_(2,1) LT_(1,0) LT_(0,4) MAX_(4) bool b=g.extract_column(rr,i0,i1,i2,i3,i4,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()); GOOD(D_(0) D_(1) D_(2) D_(3) D_(4)) }
DRV(col1_all) { GRID(1) WHOLE I_(0) MAX_(0) bool b=g.extract_column(i0,gout<0>()); GOOD(D_(0)) }
DRV(col_checked) { GRID(1) m.chk=1; RANGE I_(0) MAX_(0) bool b=g.extract_column_checked(rr,i0,gout<0>()); GOOD(D_(0)) }
DRV(col_checked_all) { GRID(1) m.chk=1; WHOLE I_(0) MAX_(0) bool b=g.extract_column_checked(i0,gout<0>()); GOOD(D_(0)) }
NOROWS(col1,g.extract_column(rr,0,gout<0>())) NOROWS(col2,g.extract_column(rr,0,0,gout<0>(),gout<1>())) NOROWS(col3,g.extract_column(rr,0,0,0,gout<0>(),gout<1>(),gout<2>())) NOROWS(col_checked,g.extract_column_checked(rr,0,gout<0>()))
NOROWS(col4,g.extract_column(rr,0,0,0,0,gout<0>(),gout<1>(),gout<2>(),gout<3>())) NOROWS(col5,g.extract_column(rr,0,0,0,0,0,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>()))
#define NOCOL(nm,...) DRV(nm##_nocol) { GRID(1) const std::size_t i0=vp_size(); if (i0<=mx) vp_stop(); const std::size_t i1=0; const token_grid::row_range_t rr(0,(unsigned)t.rows); bool b=__VA_ARGS__; REFUSED }
NOCOL(col1_0,g.extract_column(rr,i0,gout<0>())) NOCOL(col2_0,g.extract_column(rr,i0,i1,gout<0>(),gout<1>())) NOCOL(col2_1,g.extract_column(rr,i1,i0,gout<0>(),gout<1>())) NOCOL(col3_0,g.extract_column(rr,i0,i1,i1,gout<0>(),gout<1>(),gout<2>())) NOCOL(col3_1,g.extract_column(rr,i1,i0,i1,gout<0>(),gout<1>(),gout<2>())) NOCOL(col3_2,g.extract_column(rr,i1,i1,i0,gout<0>(),gout<1>(),gout<2>())) NOCOL(col4_0,g.extract_column(rr,i0,i1,i1,i1,gout<0>(),gout<1>(),gout<2>(),gout<3>())) NOCOL(col4_1,g.extract_column(rr,i1,i0,i1,i1,gout<0>(),gout<1>(),gout<2>(),gout<3>())) NOCOL(col4_2,g.extract_column(rr,i1,i1,i0,i1,gout<0>(),gout<1>(),gout<2>(),gout<3>())) NOCOL(col4_3,g.extract_column(rr,i1,i1,i1,i0,gout<0>(),gout<1>(),gout<2>(),gout<3>())) NOCOL(col5_0,g.extract_column(rr,i0,i1,i1,i1,i1,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>())) NOCOL(col5_1,g.extract_column(rr,i1,i0,i1,i1,i1,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>())) NOCOL(col5_2,g.extract_column(rr,i1,i1,i0,i1,i1,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>())) NOCOL(col5_3,g.extract_column(rr,i1,i1,i1,i0,i1,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>())) NOCOL(col5_4,g.extract_column(rr,i1,i1,i1,i1,i0,gout<0>(),gout<1>(),gout<2>(),gout<3>(),gout<4>())) 
NOCOL(col_checked,g.extract_column_checked(rr,i0,gout<0>()))
// one row at a time
struct seer { void operator()(const token_grid::row_type& r) const { GCHECK(50,r.index()==G->shown); G->shown++; } };
DRV(rows_each) { GRID(0) RANGE m.need=900000000; m.shown=lo; std::size_t n=g.for_each_row(rr,seer()); VP_CHECK(1,n==hi-lo); VP_CHECK(2,m.shown==hi); vp_end(); }
DRV(rows_each_all) { GRID(0) WHOLE m.need=900000000; m.shown=0; std::size_t n=g.for_each_row(seer()); VP_CHECK(1,n==hi); VP_CHECK(2,m.shown==hi); vp_end(); }
NOROWS(rows_each,0!=g.for_each_row(rr,seer()))
// sums: every value of the column is added once
struct num { num(){} num& operator+=(const num& o); };
namespace strtk { namespace details { template<> struct supported_conversion_to_type<num> { typedef obs_tag type; }; } }
template <typename It> inline bool string_to_type_converter_impl(It& i,const It e,num&,obs_tag) { return conv(i,e,0); }
inline num& num::operator+=(const num&) { GCHECK(60,G->pend[0]); G->pend[0]=0; G->okc++; return *this; }
#define SUM GRID(1) m.chk=1; m.sure=1; num s;
DRV(sum_col) { SUM RANGE I_(0) MAX_(0) g.accumulate_column(i0,rr,s); D_(0) vp_end(); }
DRV(sum_col_all) { SUM WHOLE I_(0) MAX_(0) g.accumulate_column(i0,s); D_(0) vp_end(); }
struct yes { bool operator()(const token_grid::row_type&) const { return true; } };
DRV(sum_col_if) { SUM RANGE I_(0) MAX_(0) std::size_t n=g.accumulate_column(i0,rr,yes(),s); VP_CHECK(1,n==m.okc); D_(0) vp_end(); }
DRV(sum_col_if_all) { SUM WHOLE I_(0) MAX_(0) std::size_t n=g.accumulate_column(i0,yes(),s); VP_CHECK(1,n==m.okc); D_(0) vp_end(); }
