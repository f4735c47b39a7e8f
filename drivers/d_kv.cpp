// Key-value text: the pair blocks of a text are taken in order, empty ones skipped; each other one is split at the first pair
// delimiter and its key and value are handed to the map once. Strict: the first failure ends it; lenient: failures are counted.
// The two splits are replaced by what C01 and C08 decide about them.
#include <vector>
#include <utility>
#include <cstddef>
#include <iterator>
typedef unsigned char* U; typedef std::pair<U,U> R;
extern "C" { void vp_fail(int) throw(); std::size_t vp_size() throw(); bool vp_bool() throw(); bool vp_more() throw(); void vp_stop() throw() __attribute__((noreturn)); }
#define KCHECK(id,c) do { if (!(c)) vp_fail(id); } while (0)
// cur: the block last looked at and where it is; next: the block expected to be handled next; split/handed: progress on it
struct mon { U b,e; std::size_t n,lo,fails,pairs; long cur,done; U f,s,kf,ks,vf,vs; int stage,list; };
static mon* G;
static inline void fetch(std::size_t i) { if ((long)i==G->cur) return; KCHECK(10,i<G->n); KCHECK(11,G->stage==0); KCHECK(12,(long)i==G->cur+1); KCHECK(14,G->done==G->cur+1); G->cur=(long)i; std::size_t o=vp_size(),l=vp_size(),m=(std::size_t)(G->e-G->b); if (o>m) vp_stop(); if (l>m) vp_stop(); if (o+l>m) vp_stop(); G->f=G->b+o; G->s=G->f+l; long h=(long)vp_size(); const long B=1000000000; if (h>1) vp_stop(); if ((long)l>B*(1-h)) vp_stop(); if ((long)l<1-h) vp_stop(); G->done+=h; }
namespace std { template<> class vector<R> { public: typedef R value_type; typedef R& reference; typedef const R& const_reference; typedef std::size_t size_type; typedef R* iterator; typedef const R* const_iterator; R x; std::size_t n; vector():n(0){} void reserve(std::size_t){} void clear(){ n=0; } void push_back(const R&){ n++; } std::size_t size() const { return n; } bool empty() const { return n==0; }
  R& operator[](std::size_t i){ KCHECK(13,i<n); fetch(i); x.first=G->f; x.second=G->s; return x; } }; }
static inline R piece(std::size_t i) { fetch(i); R r; r.first=G->f; r.second=G->s; return r; }
namespace strtk { template <typename T> struct single_delimiter_predicate; typedef single_delimiter_predicate<unsigned char> SD; static inline bool marks(const SD& d,const unsigned char c);
template <typename It,typename Out> inline std::size_t split(const SD& d,const It b,const It e,Out o) { KCHECK(20,marks(d,'|')); KCHECK(21,!marks(d,'=')); KCHECK(22,b==G->b); KCHECK(23,e==G->e); KCHECK(24,G->n==0); G->n=vp_size(); const std::size_t n=G->n; if (G->lo ? n<1 : n>0) vp_stop(); if (n>1000000000) vp_stop();
  if (G->list) { R r; r.first=r.second=G->b; for (std::size_t i=0;i<n;++i) { *o=r; ++o; } } else for (std::size_t i=0;i<n;++i) { *o=piece(i); ++o; KCHECK(25,G->done==G->cur+1); } return n; }
template <typename It,typename OP> inline bool split_pair(const It f,const It s,const SD& d,OP& v1,OP& v2) { KCHECK(30,marks(d,'=')); KCHECK(31,!marks(d,'|')); KCHECK(32,G->stage==0); KCHECK(35,f!=s); KCHECK(36,G->done==G->cur); G->done++; KCHECK(33,f==G->f); KCHECK(34,s==G->s); std::size_t c=vp_size(),l=(std::size_t)(s-f); if (c>=l) { G->fails++; G->stage=0; return false; }
  v1.first=f; v1.second=f+c; v2.first=f+c+1; v2.second=s; G->kf=f; G->ks=f+c; G->vf=f+c+1; G->vs=s; G->stage=2; return true; }
}
#include "vp.h"
using namespace strtk;
namespace strtk { static inline bool marks(const SD& d,const unsigned char c) { return d(c); } }
struct M { typedef int key_type; template <typename O> M(const O&){} bool operator()(const R& k,const R& v) { KCHECK(40,G->stage==2); KCHECK(41,k.first==G->kf); KCHECK(42,k.second==G->ks); KCHECK(43,v.first==G->vf); KCHECK(44,v.second==G->vs); G->stage=0; G->pairs++; if (vp_bool()) return true; G->fails++; return false; } };
#define SETUP(L,N) UBUF(b,len); if (len>1000000000) vp_stop(); mon m; m.b=b; m.e=b+len; m.n=0; m.cur=-1; m.done=0; m.fails=m.pairs=0; m.stage=0; m.list=L; m.lo=N; m.f=m.s=m.kf=m.ks=m.vf=m.vs=b; G=&m; keyvalue::options<unsigned char> o; o.pair_block_delimiter='|'; o.pair_delimiter='='; keyvalue::parser<M> p(o); R d(b,b+len);
#define STRICT if (r) { VP_CHECK(1,m.n>0); VP_CHECK(2,m.fails==0); VP_CHECK(9,m.done==(long)m.n); VP_CHECK(3,m.cur+1==(long)m.n); } else VP_CHECK(4,m.fails==1); vp_end();
#define LENIENT VP_CHECK(6,r); VP_CHECK(7,p.failure_count()==m.fails); VP_CHECK(9,m.done==(long)m.n); VP_CHECK(8,m.cur+1==(long)m.n); vp_end();
DRV(strict) { SETUP(1,1) bool r=p(d); STRICT }
DRV(strict_f) { SETUP(1,1) bool r=p(d,false); STRICT }
DRV(lenient) { SETUP(0,1) bool r=p(d,true); LENIENT }
// parsers are used again and again: nothing is left over from the text before
DRV(lenient_again) { SETUP(0,1) p(d,true); m.n=0; m.cur=-1; m.done=0; m.fails=0; bool r=p(d,true); LENIENT }
DRV(strict_again) { SETUP(1,1) p(d); m.n=0; m.stage=0; m.cur=-1; m.done=0; m.fails=0; bool r=p(d); STRICT }
DRV(strict_none) { SETUP(1,0) bool r=p(d); VP_CHECK(1,!r); VP_CHECK(2,m.pairs==0); vp_end(); }
DRV(lenient_none) { SETUP(0,0) bool r=p(d,true); VP_CHECK(1,r); VP_CHECK(2,m.pairs==0); VP_CHECK(3,p.failure_count()==0); vp_end(); }
DRV(text_strict) { SETUP(1,1) std::string& s=*(std::string*)vp_str(); m.b=(U)s.data(); m.e=m.b+s.size(); if (s.size()>1000000000) vp_stop(); bool r=p(s); STRICT }
DRV(text_lenient) { SETUP(0,1) std::string& s=*(std::string*)vp_str(); m.b=(U)s.data(); m.e=m.b+s.size(); if (s.size()>1000000000) vp_stop(); bool r=p(s,true); LENIENT }
