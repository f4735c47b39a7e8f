// Token grid: widths, joined text and sums of rows; partitions of the rows.
#define GRID_LEN
#include "d_gridtab.h"
using namespace strtk;
// d: rows decided; idx: the column; w: some length seen; top: no token is longer; next: token expected next in a row
struct mon { std::size_t d,idx,top,w,next,last,seen; int mode,pend; std::size_t lo,hi,pl; };
static mon* G;
enum { BYCOL, BYROW, FREE };
static inline void fetch(std::size_t i) { GCHECK(21,i<T->rows); if (T->cur==(long)i) return; const long B=1000000000; long a=(long)vp_size(),c=(long)vp_size(),h=(long)vp_size(),need=(long)G->idx; if (c<1) vp_stop(); if (G->mode==BYCOL) { if (h>1) vp_stop(); if (c>need+B*h) vp_stop(); if (c+B-B*h<need+1) vp_stop(); } if (a>=(long)T->toks) vp_stop(); if (a+c>(long)T->toks) vp_stop();
  T->cur=(long)i; T->lk=-1; T->x.first=(unsigned)a; T->x.second=(unsigned)(a+c-1); if (G->mode==BYCOL) { GCHECK(22,i==G->d); G->d+=(std::size_t)(1-h); } }
// every token has its own length; looking at one again gives the same
static inline void newtok(std::size_t k) { if (G->mode!=BYCOL) { T->len=1; T->lk=(long)k; return; } std::size_t n=vp_size(); if (n>G->top) vp_stop(); T->len=n; T->lk=(long)k;
  if (G->mode==BYCOL) { GCHECK(24,T->cur==(long)G->d); GCHECK(25,k==T->x.first+G->idx); G->d++; if (n<G->w) vp_stop(); G->w=n; } }
static inline void took(const obs&) {}
struct obs_tag {}; struct num { num(){} num& operator+=(const num& o); };
namespace strtk { namespace details { template<> struct supported_conversion_to_type<num> { typedef obs_tag type; }; } }
template <typename It> inline bool string_to_type_converter_impl(It& i,const It e,num&,obs_tag) { GCHECK(30,i==T->tag+G->next); GCHECK(31,e==T->tag+G->next+1); GCHECK(32,!G->pend); G->pend=1; G->next++; i=e; return true; }
inline num& num::operator+=(const num&) { GCHECK(33,G->pend); G->pend=0; G->seen++; return *this; }
#define GRID(M) grid t; mon m; T=&t; G=&m; t.rows=t.toks=0; t.ch=0; t.cur=-1; t.lk=-1; t.len=0; m.mode=M;  m.d=m.idx=m.w=m.next=m.last=m.seen=m.lo=m.hi=m.pl=0; m.pend=0; m.top=1000000000; token_grid g; const std::size_t mx=vp_size(); g.enforce_min_max_column_count(0,mx); \
  t.rows=vp_size(); t.toks=vp_size(); if (t.rows>1000000000) vp_stop(); if (t.toks>1000000000) vp_stop(); t.tag=(const unsigned char*)vp_buf(2000000002ul); T=&t; G=&m;
#define FROM(x) m.d=x; t.cur=(long)(x)-1;
#define RANGE std::size_t lo=vp_size(),hi=vp_size(); if (hi>t.rows) vp_stop(); if (lo>hi) vp_stop(); FROM(lo) const token_grid::row_range_t rr((unsigned)lo,(unsigned)hi);
#define WHOLE const std::size_t lo=0,hi=t.rows; FROM(0)
#define COL std::size_t c=vp_size(); if (c>mx) vp_stop(); m.idx=c; std::size_t top=vp_size(); if (top>1000000000) vp_stop(); m.top=top;
DRV(width) { GRID(BYCOL) RANGE COL std::size_t r=g.column_width(c,rr); VP_CHECK(1,r==m.w); VP_CHECK(3,m.d==hi); vp_end(); }
DRV(width_all) { GRID(BYCOL) WHOLE COL std::size_t r=g.column_width(c); VP_CHECK(1,r==m.w); VP_CHECK(3,m.d==hi); vp_end(); }
// the text of a column: all its tokens, and in between the delimiter, which is one character here
DRV(join_col_bare) { GRID(BYCOL) RANGE COL std::string d; std::string s; bool b=g.join_column(c,rr,d,s); VP_CHECK(1,b); VP_CHECK(3,m.d==hi); VP_CHECK(4,s.size()>=m.w); vp_end(); }
struct yes { bool operator()(const token_grid::row_type&) const { return true; } bool operator()(const R_&) const { return true; } };
struct no { bool operator()(const token_grid::row_type&) const { return false; } bool operator()(const R_&) const { return false; } };
DRV(join_col_if) { GRID(BYCOL) RANGE COL std::string d; std::string s; bool b=g.join_column(c,rr,yes(),d,s); VP_CHECK(1,b); VP_CHECK(3,m.d==hi); VP_CHECK(4,s.size()>=m.w); vp_end(); }
DRV(join_col_none) { GRID(BYCOL) RANGE COL std::string d; std::string s; bool b=g.join_column(c,rr,no(),d,s); VP_CHECK(1,b); VP_CHECK(3,m.d==hi); VP_CHECK(4,s.size()==0); vp_end(); }
#define ROW std::size_t ri=vp_size(); if (ri>=t.rows) vp_stop(); fetch(ri); const std::size_t f=t.x.first,cnt=(std::size_t)t.x.second-t.x.first+1;
#define NOROW std::size_t ri=vp_size(); if (ri<t.rows) vp_stop();
DRV(sum_row) { GRID(BYROW) ROW m.next=f; num s; std::size_t n=g.accumulate_row(ri,s); VP_CHECK(1,n==cnt); VP_CHECK(2,m.seen==cnt); VP_CHECK(3,m.next==f+cnt); vp_end(); }
DRV(sum_norow) { GRID(BYROW) NOROW num s; std::size_t n=g.accumulate_row(ri,s); VP_CHECK(1,n==0); VP_CHECK(2,m.seen==0); vp_end(); }
DRV(join_row_bare) { GRID(BYROW) ROW std::string d; std::string s; bool b=g.join_row(ri,d,s); VP_CHECK(1,b); VP_CHECK(2,s.size()==cnt); vp_end(); }
DRV(join_row_delim) { GRID(BYROW) ROW std::string d(1,'|'); std::string s; bool b=g.join_row(ri,d,s); VP_CHECK(1,b); VP_CHECK(2,s.size()==2*cnt-1); vp_end(); }
DRV(join_row_if) { GRID(BYROW) ROW std::string d; std::string s; bool b=g.join_row(ri,yes(),d,s); VP_CHECK(1,b); VP_CHECK(2,s.size()==cnt); vp_end(); }
DRV(join_row_none) { GRID(BYROW) ROW std::string d(1,'|'); std::string s; bool b=g.join_row(ri,no(),d,s); VP_CHECK(1,b); VP_CHECK(2,s.size()==0); vp_end(); }
DRV(join_norow) { GRID(BYROW) NOROW std::string d; std::string s; bool b=g.join_row(ri,d,s); VP_CHECK(1,!b); VP_CHECK(2,s.size()==0); vp_end(); }
// partitions: consecutive, each starting at a row chosen by the predicate, together all rows
struct cutp { bool operator()(const token_grid::row_type& r) const { GCHECK(50,r.index()==G->next); G->next++; bool b=vp_bool(); if (b) { G->pend=(G->hi!=r.index()); G->pl=r.index(); } return b; } };
struct part { bool operator()(const token_grid& g,const token_grid::row_range_t& r) const { (void)g; GCHECK(51,r.first==G->hi); GCHECK(52,r.second>r.first); GCHECK(53,r.second<=G->next); G->hi=r.second; return true; } };
DRV(parts) { GRID(FREE) RANGE m.next=lo; m.hi=lo; bool b=g.sequential_partition(rr,cutp(),part()); VP_CHECK(1,b); VP_CHECK(2,m.hi==hi); VP_CHECK(3,m.next==hi); vp_end(); }
DRV(parts_all) { GRID(FREE) WHOLE m.next=0; m.hi=0; bool b=g.sequential_partition(cutp(),part()); VP_CHECK(1,b); VP_CHECK(2,m.hi==hi); VP_CHECK(3,m.next==hi); vp_end(); }
