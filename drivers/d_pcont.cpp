// Parsing into containers. The tokeniser (decided by d_split) is replaced by overloads that hand out any number
// of tagged tokens; the containers are stand-ins that accept only the value of the token just converted.
#include <deque>
#include <vector>
#include <list>
#include <set>
#include <queue>
#include <stack>
#include <string>
#include <utility>
#include <cstddef>
typedef std::pair<const char*,const char*> R_;
struct obs { const char* src; };
struct mon;
static mon* G;
static void took(const obs&);
struct cont { std::size_t n; typedef obs value_type; typedef obs& reference; typedef const obs& const_reference; typedef std::size_t size_type; cont():n(0){}
  void push_back(const obs& v){ took(v); ++n; } void insert(const obs& v){ took(v); ++n; } void push(const obs& v){ took(v); ++n; } std::size_t size() const { return n; } bool empty() const { return n==0; } void clear() { n=0; } void reserve(std::size_t) {} };
namespace std {
  template<> class vector<obs,std::allocator<obs> > : public cont {}; template<> class deque<obs,std::allocator<obs> > : public cont {}; template<> class list<obs,std::allocator<obs> > : public cont {};
  template<> class set<obs,std::less<obs>,std::allocator<obs> > : public cont {}; template<> class multiset<obs,std::less<obs>,std::allocator<obs> > : public cont {};
  template<> class queue<obs,std::deque<obs> > : public cont {}; template<> class stack<obs,std::deque<obs> > : public cont {}; template<> class priority_queue<obs,std::vector<obs>,std::less<obs> > : public cont {};
}
#include "vp.h"
using namespace strtk;
// k: tokens handed out; cur: the token being converted; conv: it was converted; pend: its value is still to be stored; stored: values stored
struct mon { const char* b; const char* e; const char* tag; std::size_t lim; int kind; int line; std::size_t opt; int calls; std::size_t k; int conv; int pend; int len; std::size_t stored; std::size_t okc; };
static void took(const obs& v) { VP_CHECK(20,G->pend); VP_CHECK(21,v.src==G->tag+G->k); G->pend=0; G->stored++; }
struct obs_tag {};
namespace strtk { namespace details { template<> struct supported_conversion_to_type<obs> { typedef obs_tag type; }; } }
template <typename It> inline bool string_to_type_converter_impl(It& i,const It e,obs& t,obs_tag) {
  VP_CHECK(30,i==G->tag+G->k); VP_CHECK(31,e==i+G->len); VP_CHECK(32,!G->conv); G->conv=1;
  if (vp_bool()) { t.src=i; i=e; G->pend=1; G->okc++; return true; } return false; }
template <typename O> static inline std::size_t hand(const char* b,const char* e,std::size_t lim,int kind,O out,std::size_t opt) {
  if (!G->line) { VP_CHECK(40,b==G->b); VP_CHECK(41,e==G->e); } else VP_CHECK(48,b!=e); VP_CHECK(42,opt==G->opt); VP_CHECK(43,!G->calls); VP_CHECK(44,kind==G->kind); if (kind) VP_CHECK(47,lim==G->lim); G->calls=1;
  while (vp_more() && G->k<64) { G->conv=0; G->len=vp_bool() ? 1 : 0; *out=R_(G->tag+G->k,G->tag+G->k+G->len); VP_CHECK(45,G->conv); VP_CHECK(46,!G->pend); ++out; G->k++; }
  return G->k; }
namespace strtk {
  template <typename O> inline std::size_t split(const single_delimiter_predicate<char>&,const char* const b,const char* const e,O out,const split_options::type o){ return hand(b,e,0,0,out,o); }
  template <typename O> inline std::size_t split(const single_delimiter_predicate<char>&,char* const b,char* const e,O out,const split_options::type o){ return hand(b,e,0,0,out,o); }
  template <typename O> inline std::size_t split(const multiple_char_delimiter_predicate&,const char* const b,const char* const e,O out,const split_options::type o){ return hand(b,e,0,0,out,o); }
  template <typename O> inline std::size_t split(const multiple_char_delimiter_predicate&,char* const b,char* const e,O out,const split_options::type o){ return hand(b,e,0,0,out,o); }
  template <typename O> inline std::size_t split_n(const single_delimiter_predicate<char>&,const char* const b,const char* const e,const std::size_t& n,O out,const split_options::type& o){ return hand(b,e,n,1,out,o); }
  template <typename O> inline std::size_t split_n(const single_delimiter_predicate<char>&,char* const b,char* const e,const std::size_t& n,O out,const split_options::type& o){ return hand(b,e,n,1,out,o); }
  template <typename O> inline std::size_t split_n(const multiple_char_delimiter_predicate&,const char* const b,const char* const e,const std::size_t& n,O out,const split_options::type& o){ return hand(b,e,n,1,out,o); }
  template <typename O> inline std::size_t split_n(const multiple_char_delimiter_predicate&,char* const b,char* const e,const std::size_t& n,O out,const split_options::type& o){ return hand(b,e,n,1,out,o); }
}
static inline void init(mon& m,const char* b,const char* e,std::size_t opt) { m.b=b; m.e=e; m.opt=opt; m.tag=vp_buf(65); m.lim=0; m.kind=0; m.line=0; m.calls=0; m.k=0; m.conv=m.pend=0; m.stored=m.okc=0; G=&m; }
#define TXT BUF(txt,n); const char* b=txt; const char* e=b+n; STR(d_); const std::string& d=d_; const std::size_t opt=vp_size(); mon m; init(m,b,e,opt);
#define STXT STR(s_); const std::string& s=s_; const char* b=s.data(); const char* e=b+s.size(); STR(d_); const std::string& d=d_; const std::size_t opt=vp_size(); mon m; init(m,b,e,opt);
#define ALLTOK(r) VP_CHECK(1,m.calls==1); VP_CHECK(2,r==m.k); VP_CHECK(3,m.stored==m.okc); VP_CHECK(4,c.size()==m.okc); vp_end();
#define ALLVAL(r) VP_CHECK(1,m.calls==1); VP_CHECK(5,r==m.stored); VP_CHECK(3,m.stored==m.okc); vp_end();
#define EACH(N,C) \
DRV(range_##N) { TXT C c; std::size_t r=parse(b,e,d,c,opt); ALLTOK(r) } \
DRV(pair_##N) { TXT C c; std::size_t r=parse(R_(b,e),d,c,opt); ALLTOK(r) } \
DRV(string_##N) { STXT C c; std::size_t r=parse(s,d,c,opt); ALLTOK(r) } \
DRV(nrange_##N) { TXT C c; std::size_t k=vp_size(); m.lim=k; m.kind=1; std::size_t r=parse_n(b,e,d,k,c,opt); ALLVAL(r) } \
DRV(npair_##N) { TXT C c; std::size_t k=vp_size(); m.lim=k; m.kind=1; std::size_t r=parse_n(R_(b,e),d,k,c,opt); ALLVAL(r) } \
DRV(nstring_##N) { STXT C c; std::size_t k=vp_size(); m.lim=k; m.kind=1; std::size_t r=parse_n(s,d,k,c,opt); ALLVAL(r) } \
DRV(default_##N) { TXT C c; m.opt=1; std::size_t r=parse(b,e,d,c); ALLTOK(r) } \
DRV(ndefault_##N) { TXT C c; m.opt=1; std::size_t k=vp_size(); m.lim=k; m.kind=1; std::size_t r=parse_n(b,e,d,k,c); ALLVAL(r) } \
DRV(sdefault_##N) { STXT C c; m.opt=1; std::size_t r=parse(s,d,c); ALLTOK(r) } \
DRV(snodefault_##N) { STXT C c; m.opt=1; std::size_t k=vp_size(); m.lim=k; m.kind=1; std::size_t r=parse_n(s,d,k,c); ALLVAL(r) }
typedef std::vector<obs> c_vec; typedef std::deque<obs> c_deq; typedef std::list<obs> c_lst; typedef std::set<obs> c_set; typedef std::multiset<obs> c_mse; typedef std::queue<obs> c_que; typedef std::stack<obs> c_stk; typedef std::priority_queue<obs> c_pq;
EACH(vector,c_vec) EACH(deque,c_deq) EACH(list,c_lst) EACH(set,c_set) EACH(multiset,c_mse) EACH(queue,c_que) EACH(stack,c_stk) EACH(pq,c_pq)
// one line of a stream: nothing is parsed when the line is empty or cannot be read
#define LTXT std::ifstream& f=*(std::ifstream*)vp_buf(sizeof(std::ifstream)); STR(d_); const std::string& d=d_; const std::size_t opt=vp_size(); mon m; init(m,0,0,opt); m.line=1;
#define LTOK(r) VP_CHECK(2,r==m.k); VP_CHECK(3,m.stored==m.okc); VP_CHECK(4,c.size()==m.okc); vp_end();
#define LVAL(r) VP_CHECK(5,r==m.stored); VP_CHECK(3,m.stored==m.okc); vp_end();
#define LINE(N,C) DRV(line_##N) { LTXT C c; std::size_t r=parse_line(f,d,c,opt); LTOK(r) } \
DRV(nline_##N) { LTXT C c; std::size_t k=vp_size(); m.lim=k; m.kind=1; std::size_t r=parse_line_n(f,d,k,c,opt); LVAL(r) }
LINE(vector,c_vec) LINE(deque,c_deq) LINE(list,c_lst) LINE(set,c_set) LINE(multiset,c_mse) LINE(queue,c_que) LINE(stack,c_stk) LINE(pq,c_pq)
// into an array: the converted values fill it from the front
struct aobs; static aobs* AR;
struct aobs { const char* src; void operator=(const aobs& v) { VP_CHECK(22,this==AR+G->stored); obs o; o.src=v.src; took(o); } };
namespace strtk { namespace details { template<> struct supported_conversion_to_type<aobs> { typedef obs_tag type; }; } }
template <typename It> inline bool string_to_type_converter_impl(It& i,const It e,aobs& t,obs_tag g) { obs o; if (!string_to_type_converter_impl(i,e,o,g)) return false; t.src=o.src; return true; }
#define ARR AR=(aobs*)vp_buf(64*sizeof(aobs)); std::size_t k=vp_size(); m.lim=k; m.kind=1;
DRV(nrange_array) { TXT ARR std::size_t r=parse_n(b,e,d,k,AR,opt); ALLVAL(r) }
DRV(nstring_array) { STXT ARR std::size_t r=parse_n(s,d,k,AR,opt); ALLVAL(r) }
DRV(ndefault_array) { TXT ARR m.opt=1; std::size_t r=parse_n(b,e,d,k,AR); ALLVAL(r) }
// the tail container: every remaining token is converted and stored until one fails
struct tit { std::size_t k; R_ r; R_& operator*(){ VP_CHECK(60,k==G->k); VP_CHECK(61,!G->pend); r=R_(G->tag+k,G->tag+k+1); G->conv=0; return r; } tit& operator++(){ VP_CHECK(62,G->conv); ++k; ++G->k; return *this; } bool operator!=(const tit& o) const { return k!=o.k; } bool operator==(const tit& o) const { return k==o.k; } };
#define ADDER(N,C) DRV(tail_##N) { mon m; init(m,0,0,0); C c; details::container_adder ca(c); m.len=1; tit b,e; b.k=0; e.k=vp_size(); if (e.k>64) return; bool r=ca(b,e); VP_CHECK(3,m.stored==m.okc); VP_CHECK(4,c.size()==m.okc); if (r) { VP_CHECK(63,m.okc==e.k); } else { VP_CHECK(64,m.okc<e.k); VP_CHECK(65,m.okc==m.k); } vp_end(); }
ADDER(vector,c_vec) ADDER(deque,c_deq) ADDER(list,c_lst) ADDER(set,c_set) ADDER(multiset,c_mse) ADDER(queue,c_que) ADDER(stack,c_stk) ADDER(pq,c_pq)
