// Trims of a field: the field is stored whole, then exactly the asked-for ends are cut with the given characters.
// The range forms underneath (decided by d_keep) are replaced here by ones that report an arbitrary count.
#include <cstddef>
namespace strtk { struct multiple_char_delimiter_predicate;
template <typename Iterator,typename Predicate> inline std::size_t remove_leading(Predicate,Iterator,Iterator); template <typename Iterator,typename Predicate> inline std::size_t remove_trailing(Predicate,Iterator,Iterator);
typedef multiple_char_delimiter_predicate SM;
template<> inline std::size_t remove_leading<char*,SM>(SM,char*,char*); template<> inline std::size_t remove_trailing<char*,SM>(SM,char*,char*); }
#include "vp.h"
using namespace strtk;
typedef const char* P;
struct rec { std::string* s; std::size_t left; long lead; long tail; long mode; }; static rec* G;
static inline std::size_t cutoff_(char* b,char* e) { VP_CHECK(10,b==G->s->data()); VP_CHECK(11,e==b+G->left); VP_CHECK(12,G->s->size()==G->left); std::size_t r=vp_size(); if (r>(std::size_t)(e-b)) vp_stop(); if (G->mode==1) { if (r==(std::size_t)(e-b)) vp_stop(); } if (G->mode==2) { if (r!=(std::size_t)(e-b)) vp_stop(); } G->left=(std::size_t)(e-b)-r; return r; }
namespace strtk { template<> inline std::size_t remove_leading<char*,SM>(SM d,char* b,char* e) { VP_CHECK(13,d(' ')); ++G->lead; return cutoff_(b,e); } template<> inline std::size_t remove_trailing<char*,SM>(SM d,char* b,char* e) { VP_CHECK(13,d(' ')); ++G->tail; return cutoff_(b,e); } }
#define GO BUF(a,n); if (n==0) return; std::string s,r(1,' '); vp_fill(r.data(),1,' ',' '); vp_watch_locals(2,sizeof(SM),' '); rec g={&s,n,0,0,MODE}; G=&g
#define TRIM(name,f,LEAD,TAIL) DRV(name) { const long MODE=0; GO; bool ok=f(r,s)((P)a,(P)a+n); VP_CHECK(1,ok); VP_CHECK(2,s.size()==g.left); VP_CHECK(3,g.lead>=LEAD.first); VP_CHECK(4,g.lead<=LEAD.second); VP_CHECK(5,g.tail>=TAIL.first); VP_CHECK(6,g.tail<=TAIL.second); vp_end(); }
struct lim { long first; long second; };
#define ONCE (lim{1,1})
#define NEVER (lim{0,0})
TRIM(trim_leading,trim_leading,ONCE,NEVER) TRIM(trim_trailing,trim_trailing,NEVER,ONCE)
DRV(trim_both) { const long MODE=1; GO; bool ok=trim(r,s)((P)a,(P)a+n); VP_CHECK(1,ok); VP_CHECK(2,s.size()==g.left); VP_CHECK(3,g.lead==1); VP_CHECK(4,g.tail==1); vp_end(); }
DRV(trim_gone) { const long MODE=2; GO; bool ok=trim(r,s)((P)a,(P)a+n); VP_CHECK(1,ok); VP_CHECK(2,s.empty()); vp_end(); }
DRV(trim_none) { std::string s("x"),r(1,' '); rec g={&s,0,0,0,0}; G=&g; char* a=vp_buf(0); bool ok=trim(r,s)((P)a,(P)a); VP_CHECK(1,ok); VP_CHECK(2,s.empty()); vp_end(); }
