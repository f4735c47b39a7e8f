// Token grid rows: which token each value of a row is converted from.
#include "d_gridtab.h"
using namespace strtk;
// next: token to be converted next; conv: tokens converted; okc: successes; failed: one was refused; pend: a value is still to be stored
struct mon { std::size_t f,cnt,next; std::size_t conv,okc,stored,seen; int failed,pend,sure; std::size_t want[11]; };
static mon* G;
static inline void fetch(std::size_t i) { GCHECK(21,i<T->rows); if (T->cur==(long)i) return; std::size_t a=vp_size(),c=vp_size(); if (c<1 || a>=T->toks || c>T->toks-a) vp_stop(); T->cur=(long)i; T->x.first=(unsigned)a; T->x.second=(unsigned)(a+c-1); }
static inline void took(const obs& v) { VP_CHECK(30,G->pend); VP_CHECK(31,v.src==T->tag+2*(G->next-1)); G->pend=0; G->stored++; }
struct obs_tag {}; template <int I> struct cap { typedef cap self; }; struct cap_tag {};
namespace strtk { namespace details { template<> struct supported_conversion_to_type<obs> { typedef obs_tag type; }; template <int I> struct supported_conversion_to_type<cap<I> > { typedef cap_tag type; }; } }
template <typename It> inline bool string_to_type_converter_impl(It& i,const It e,obs& t,obs_tag) {
  VP_CHECK(32,i==T->tag+2*G->next); VP_CHECK(33,e==T->tag+2*G->next+1); VP_CHECK(34,!G->pend); G->next++; G->conv++;
  if (G->sure || vp_bool()) { t.src=i; i=e; G->pend=1; G->okc++; return true; } G->failed=1; return false; }
template <typename It,int I> inline bool string_to_type_converter_impl(It& i,const It e,cap<I>&,cap_tag) {
  VP_CHECK(35,!G->failed); VP_CHECK(36,G->conv==I-1); VP_CHECK(37,i==T->tag+2*G->want[I]); VP_CHECK(38,e==T->tag+2*G->want[I]+1);
  G->conv=I; if (vp_bool()) { G->okc=I; i=e; return true; } G->failed=1; return false; }
static inline void init(grid& t,mon& m,token_grid&) { t.ch=0; t.rows=vp_size(); t.toks=vp_size(); if (t.rows>1000000000 || t.toks>1000000000) vp_stop(); t.tag=(const unsigned char*)vp_buf(2000000002ul); t.cur=-1; T=&t; m.conv=m.okc=m.stored=m.seen=0; m.failed=m.pend=m.sure=0; G=&m; }
#define ROW grid t; mon m; T=&t; t.rows=t.toks=0; token_grid g; init(t,m,g); std::size_t ri=vp_size(); if (ri>=t.rows) vp_stop(); fetch(ri); m.f=t.x.first; m.cnt=(std::size_t)t.x.second-t.x.first+1; m.next=m.f; const token_grid::row_type r=g.row(ri);
#define COL(c) std::size_t c=vp_size(); if (c>=m.cnt) vp_stop();
#define TOK(p,k) VP_CHECK(2,(p).first==t.tag+2*(m.f+(k))); VP_CHECK(3,(p).second==t.tag+2*(m.f+(k))+1)
DRV(row_size) { ROW VP_CHECK(1,r.size()==m.cnt); VP_CHECK(2,r.index()==ri); VP_CHECK(3,r.all_columns().first==0); VP_CHECK(4,r.all_columns().second==m.cnt); vp_end(); }
DRV(row_token) { ROW COL(c) R_ p=r.token(c); TOK(p,c); VP_CHECK(4,!r.is_null(c)); VP_CHECK(5,r.raw_length(c)==1); vp_end(); }
DRV(row_range) { ROW R_ p=r.range(); VP_CHECK(1,p.first==t.tag+2*m.f); VP_CHECK(2,p.second==t.tag+2*(m.f+m.cnt-1)+1); vp_end(); }
DRV(row_raw_length) { ROW VP_CHECK(1,r.raw_length()==m.cnt); vp_end(); }
DRV(row_as_string) { ROW std::string s=r.as_string(); VP_CHECK(1,s.size()==m.cnt); vp_end(); }
DRV(row_as_string_out) { ROW STR(s); r.as_string(s); VP_CHECK(1,s.size()==m.cnt); vp_end(); }
DRV(row_col_range) { ROW unsigned a=vp_int(),b=vp_int(); if (b==~0u) vp_stop(); VP_CHECK(1,r.range(a,b).first==a); VP_CHECK(2,r.range(a,b).second==b); VP_CHECK(3,r.range(a,~0u).first==a); VP_CHECK(4,r.range(a,~0u).second==m.cnt); vp_end(); }
DRV(row_validate) { ROW std::size_t a=vp_size(),b=vp_size(); if (a>b) vp_stop(); if (b>m.cnt) vp_stop(); VP_CHECK(1,r.validate_column_range(token_grid::col_range_t((unsigned)a,(unsigned)b))); vp_end(); }
DRV(row_validate_order) { ROW unsigned a=vp_int(),b=vp_int(); if (a<=b) vp_stop(); VP_CHECK(2,!r.validate_column_range(token_grid::col_range_t(a,b))); vp_end(); }
DRV(row_validate_end) { ROW unsigned a=vp_int(),b=vp_int(); if (b<=m.cnt) vp_stop(); VP_CHECK(3,!r.validate_column_range(token_grid::col_range_t(a,b))); vp_end(); }
// one value
DRV(row_get) { ROW COL(c) m.next=m.f+c; r.get<obs>(c); VP_CHECK(1,m.conv==1); vp_end(); }
DRV(row_index) { ROW COL(c) m.next=m.f+c; r.operator[]<obs>(c); VP_CHECK(1,m.conv==1); vp_end(); }
DRV(grid_get) { grid t; mon m; T=&t; t.rows=t.toks=0; token_grid g; init(t,m,g); std::size_t ri=vp_size(); if (ri>=t.rows) vp_stop(); fetch(ri); m.f=t.x.first; m.cnt=(std::size_t)t.x.second-t.x.first+1; COL(c) m.next=m.f+c; g.get<obs>(ri,c); VP_CHECK(1,m.conv==1); vp_end(); }
DRV(grid_token) { grid t; mon m; T=&t; t.rows=t.toks=0; token_grid g; init(t,m,g); std::size_t ri=vp_size(); if (ri>=t.rows) vp_stop(); fetch(ri); m.f=t.x.first; m.cnt=(std::size_t)t.x.second-t.x.first+1; COL(c) R_ p=g.token(ri,c); TOK(p,c); vp_end(); }
DRV(grid_token_norow) { grid t; mon m; T=&t; t.rows=t.toks=0; token_grid g; init(t,m,g); std::size_t ri=vp_size(),c=vp_size(); if (ri<t.rows) vp_stop(); R_ p=g.token(ri,c); VP_CHECK(1,p.first==p.second); vp_end(); }
DRV(grid_token_nocol) { grid t; mon m; T=&t; t.rows=t.toks=0; token_grid g; init(t,m,g); std::size_t ri=vp_size(); if (ri>=t.rows) vp_stop(); fetch(ri); m.f=t.x.first; m.cnt=(std::size_t)t.x.second-t.x.first+1; std::size_t c=vp_size(); if (c<m.cnt) vp_stop(); R_ p=g.token(ri,c); VP_CHECK(1,p.first==p.second); vp_end(); }
DRV(grid_counts) { grid t; mon m; T=&t; t.rows=t.toks=0; token_grid g; init(t,m,g); VP_CHECK(1,g.row_count()==t.rows); VP_CHECK(2,g.all_rows().first==0); VP_CHECK(3,g.all_rows().second==t.rows); vp_end(); }
// several variables: the first N columns, or the named columns
#define VERDICT(N) if (b) { VP_CHECK(1,m.okc==N); VP_CHECK(2,!m.failed); } else VP_CHECK(3,m.failed); vp_end();
#define DECLS cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10;
#define WANT(k) m.want[k]=m.f+k-1;
#define ANY(k) COL(c##k) m.want[k]=m.f+c##k;
#define VALS(N,W,C,...) DRV(row_vals_##N) { ROW if (m.cnt<N) vp_stop(); DECLS W(WANT) bool b=r.parse(__VA_ARGS__); VERDICT(N) } \
 DRV(row_cols_##N) { ROW DECLS W(ANY) bool b=r.parse_with_index(C,__VA_ARGS__); VERDICT(N) }
#define W1(f) f(1)
#define W2(f) W1(f) f(2)
#define W3(f) W2(f) f(3)
#define W4(f) W3(f) f(4)
#define W5(f) W4(f) f(5)
#define W6(f) W5(f) f(6)
#define W7(f) W6(f) f(7)
#define W8(f) W7(f) f(8)
#define W9(f) W8(f) f(9)
#define W10(f) W9(f) f(10)
#define K_(...) __VA_ARGS__
VALS(1,W1,K_(c1),t1) VALS(2,W2,K_(c1,c2),t1,t2) VALS(3,W3,K_(c1,c2,c3),t1,t2,t3) VALS(4,W4,K_(c1,c2,c3,c4),t1,t2,t3,t4) VALS(5,W5,K_(c1,c2,c3,c4,c5),t1,t2,t3,t4,t5)
VALS(6,W6,K_(c1,c2,c3,c4,c5,c6),t1,t2,t3,t4,t5,t6) VALS(7,W7,K_(c1,c2,c3,c4,c5,c6,c7),t1,t2,t3,t4,t5,t6,t7) VALS(8,W8,K_(c1,c2,c3,c4,c5,c6,c7,c8),t1,t2,t3,t4,t5,t6,t7,t8)
VALS(9,W9,K_(c1,c2,c3,c4,c5,c6,c7,c8,c9),t1,t2,t3,t4,t5,t6,t7,t8,t9) VALS(10,W10,K_(c1,c2,c3,c4,c5,c6,c7,c8,c9,c10),t1,t2,t3,t4,t5,t6,t7,t8,t9,t10)
// containers: the columns of a range until one does not convert; every column that converts (checked); the first k
#define CR std::size_t a=vp_size(),e=vp_size(); m.next=m.f+a; bool valid=a<=e; if (valid) valid=e<=m.cnt;
#define EACH(N,C) \
DRV(row_range_##N) { ROW std::size_t a=vp_size(),e=vp_size(); if (a>e) vp_stop(); if (e>m.cnt) vp_stop(); m.next=m.f+a; C c; bool b=r.parse(token_grid::col_range_t((unsigned)a,(unsigned)e),c); VP_CHECK(1,m.stored==m.okc); VP_CHECK(2,!m.pend); if (b) { VP_CHECK(3,!m.failed); VP_CHECK(4,m.conv==e-a); } else { VP_CHECK(5,m.failed); VP_CHECK(6,m.conv==m.okc+1); } vp_end(); } \
DRV(row_norange_##N) { ROW unsigned a=vp_int(),e=vp_int(); if (a<=e) vp_stop(); C c; bool b=r.parse(token_grid::col_range_t((unsigned)a,(unsigned)e),c); VP_CHECK(1,!b); VP_CHECK(2,m.conv==0); vp_end(); } \
DRV(row_badrange_##N) { ROW unsigned a=vp_int(),e=vp_int(); if (e<=m.cnt) vp_stop(); C c; bool b=r.parse(token_grid::col_range_t((unsigned)a,(unsigned)e),c); VP_CHECK(1,!b); VP_CHECK(2,m.conv==0); vp_end(); } \
DRV(row_all_##N) { ROW C c; bool b=r.parse(c); VP_CHECK(1,m.stored==m.okc); VP_CHECK(2,!m.pend); if (b) { VP_CHECK(3,!m.failed); VP_CHECK(4,m.conv==m.cnt); } else { VP_CHECK(5,m.failed); VP_CHECK(6,m.conv==m.okc+1); } vp_end(); } \
DRV(row_checked_##N) { ROW C c; r.parse_checked(c); VP_CHECK(1,m.stored==m.okc); VP_CHECK(2,!m.pend); VP_CHECK(3,m.conv==m.cnt); vp_end(); }
typedef std::vector<obs> c_vec; typedef std::deque<obs> c_deq; typedef std::list<obs> c_lst; typedef std::set<obs> c_set; typedef std::multiset<obs> c_mse; typedef std::queue<obs> c_que; typedef std::stack<obs> c_stk; typedef std::priority_queue<obs> c_pq;
EACH(vector,c_vec) EACH(deque,c_deq) EACH(list,c_lst) EACH(set,c_set) EACH(multiset,c_mse) EACH(queue,c_que) EACH(stack,c_stk) EACH(pq,c_pq)
#define FIRSTN(N,C) DRV(row_n_##N) { ROW C c; std::size_t k=vp_size(); r.parse_n(k,c); VP_CHECK(1,m.stored==m.okc); VP_CHECK(2,!m.pend); VP_CHECK(3,m.conv<=k); vp_end(); } \
DRV(row_nsome_##N) { ROW C c; m.sure=1; std::size_t k=vp_size(); if (k>m.cnt) vp_stop(); std::size_t b=r.parse_n(k,c); VP_CHECK(4,b==k); VP_CHECK(5,m.stored==k); vp_end(); } \
DRV(row_nall_##N) { ROW C c; m.sure=1; std::size_t k=vp_size(); if (k<m.cnt) vp_stop(); std::size_t b=r.parse_n(k,c); VP_CHECK(4,b==m.cnt); VP_CHECK(5,m.stored==m.cnt); vp_end(); }
FIRSTN(vector,c_vec) FIRSTN(deque,c_deq) FIRSTN(list,c_lst)
struct pout { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; pout& operator*(){return *this;} pout& operator++(){return *this;} pout operator++(int){return *this;} void operator=(const obs& v){ if (G->pend) took(v); } };
DRV(row_out) { ROW r.parse<obs>(pout()); VP_CHECK(1,m.conv==m.cnt); VP_CHECK(2,m.stored==m.okc); vp_end(); }
// every column of a range is shown, in order
struct see { void operator()(const R_& p) const { VP_CHECK(40,p.first==T->tag+2*G->next); VP_CHECK(41,p.second==T->tag+2*G->next+1); G->next++; G->seen++; } };
DRV(row_each) { ROW std::size_t n=r.for_each_column(see()); VP_CHECK(1,n==m.cnt); VP_CHECK(2,m.seen==m.cnt); vp_end(); }
DRV(row_each_range) { ROW std::size_t a=vp_size(),e=vp_size(); if (a>e) vp_stop(); if (e>m.cnt) vp_stop(); m.next=m.f+a; std::size_t n=r.for_each_column(token_grid::col_range_t((unsigned)a,(unsigned)e),see()); VP_CHECK(1,n==e-a); VP_CHECK(2,m.seen==e-a); vp_end(); }
DRV(row_each_norange) { ROW unsigned a=vp_int(),e=vp_int(); if (a<=e) vp_stop(); std::size_t n=r.for_each_column(token_grid::col_range_t((unsigned)a,(unsigned)e),see()); VP_CHECK(1,n==0); VP_CHECK(2,m.seen==0); vp_end(); }
DRV(row_each_badrange) { ROW unsigned a=vp_int(),e=vp_int(); if (e<=m.cnt) vp_stop(); std::size_t n=r.for_each_column(token_grid::col_range_t((unsigned)a,(unsigned)e),see()); VP_CHECK(1,n==0); VP_CHECK(2,m.seen==0); vp_end(); }
