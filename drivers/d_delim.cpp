// Delimiter predicates: membership is exact. A delimiter list is an arbitrary buffer; one arbitrary entry is pinned
// (membership must be found), or all entries are kept below / above the queried character (it must not be found).
#include <deque>
#include "vp.h"
using namespace strtk;
typedef const char* P;
static inline long charof(bool neg) { long v=vp_int(); if (v<(neg ? -128 : 0)) vp_stop(); if (v>(neg ? -1 : 127)) vp_stop(); return v; }
// every case once for characters above 127 and once for the others
#define TWO(name,...) DRV(name##_neg) { const bool N=true; __VA_ARGS__ } DRV(name##_pos) { const bool N=false; __VA_ARGS__ }
DRV(single_char) { char a=vp_char(); char c=vp_char(); single_delimiter_predicate<char> p(a); bool r=p(c); if (r) VP_CHECK(1,a==c); else VP_CHECK(2,a!=c); vp_end(); }
DRV(single_uchar) { unsigned char a=(unsigned char)vp_char(); unsigned char c=(unsigned char)vp_char(); single_delimiter_predicate<unsigned char> p(a); bool r=p(c); if (r) VP_CHECK(1,a==c); else VP_CHECK(2,a!=c); vp_end(); }
DRV(single_int) { int a=vp_int(); int c=vp_int(); single_delimiter_predicate<int> p(a); bool r=p(c); if (r) VP_CHECK(1,a==c); else VP_CHECK(2,a!=c); vp_end(); }
// an arbitrary position i of the list holds v
#define LIST_IN(b,n,i,v) BUF(b,n); std::size_t i=vp_size(); if (i>=n) return; long v=charof(N); long u=N ? v+256 : v; vp_watch_in(10,b+i,(int)u)
#define LIST_LO(b,n,v) BUF(b,n); long v=charof(N); if (v==-128) return; vp_fill(b,n,-128,v-1)
// above: up to 127, or (for a character above 127, which is negative as a char) up to -1, or from 0
#define LIST_HI(b,n,v) BUF(b,n); long v=charof(N); if (v==(N ? -1 : 127)) return; vp_fill(b,n,v+1,N ? -1 : 127)
#define LIST_UP(b,n,v) BUF(b,n); long v=charof(true); vp_fill(b,n,0,127)
#define FOUND { char q=(char)v; bool r=p(q); VP_CHECK(1,r); vp_use(i); vp_end(); }
#define ABSENT { char q=(char)v; bool r=p(q); VP_CHECK(1,!r); vp_end(); }
#define UFOUND { unsigned char q=(unsigned char)u; bool r=p(q); VP_CHECK(1,r); vp_use(i); vp_end(); }
// a 256-entry table: the followed byte is the entry of the queried character
typedef multiple_char_delimiter_predicate MC; typedef multiple_delimiter_predicate<char> MD; typedef multiple_delimiter_predicate<unsigned char> MU;
#define TAB(...) long raw[(sizeof(MC)+7)/8]; { long u_=N ? v+256 : v; vp_watch(2,(char*)raw+u_); } MC& p=*new((void*)raw) MC(__VA_ARGS__)
TWO(tab_in, LIST_IN(b,n,i,v); TAB((P)b,(P)b+n); FOUND)
TWO(tab_in_s, STR(s); P b=s.data(); std::size_t n=s.size(); std::size_t i=vp_size(); if (i>=n) return; long v=charof(N); long u=N ? v+256 : v; vp_watch_in(10,b+i,(int)u); TAB(s); FOUND)
TWO(tab_in_u, LIST_IN(b,n,i,v); TAB((P)b,(P)b+n); UFOUND)
TWO(tab_lo, LIST_LO(b,n,v); TAB((P)b,(P)b+n); ABSENT)
TWO(tab_hi, LIST_HI(b,n,v); TAB((P)b,(P)b+n); ABSENT)
DRV(tab_up)    { const bool N=true; LIST_UP(b,n,v); TAB((P)b,(P)b+n); ABSENT }
TWO(tab_lo_s, STR(s); long v=charof(N); if (v==-128) return; vp_fill(s.data(),s.size(),-128,v-1); TAB(s); ABSENT)
TWO(tab_hi_s, STR(s); long v=charof(N); if (v==(N ? -1 : 127)) return; vp_fill(s.data(),s.size(),v+1,N ? -1 : 127); TAB(s); ABSENT)
TWO(tab_0, long v=charof(N); TAB((P)0,(P)0); ABSENT)
TWO(set_in, LIST_IN(b,n,i,v); MD p((P)b,(P)b+n); FOUND)
TWO(set_in_n, LIST_IN(b,n,i,v); MD p((P)b,n); FOUND)
TWO(set_in_it, LIST_IN(b,n,i,v); MD p(b,b+n); FOUND)
TWO(set_lo, LIST_LO(b,n,v); MD p((P)b,(P)b+n); ABSENT)
TWO(set_hi, LIST_HI(b,n,v); MD p((P)b,(P)b+n); ABSENT)
TWO(set_lo_n, LIST_LO(b,n,v); MD p((P)b,n); ABSENT)
TWO(set_hi_n, LIST_HI(b,n,v); MD p((P)b,n); ABSENT)
TWO(set_lo_it, LIST_LO(b,n,v); MD p(b,b+n); ABSENT)
TWO(set_hi_it, LIST_HI(b,n,v); MD p(b,b+n); ABSENT)
