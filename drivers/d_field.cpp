// Field conditions: what expect, iexpect, inrange, fill_array, case conversion, string conditions and prefix/suffix tests accept.
// Two texts are known either as repetitions of one character (equal as far as they go) or by one arbitrary position where they differ.
#include "vp.h"
using namespace strtk;
typedef const char* P; typedef const unsigned char* U;
static inline long charv() { long v=vp_int(); if (v<-128) vp_stop(); if (v>127) vp_stop(); return v; }
static inline long posv() { long v=vp_int(); if (v<0) vp_stop(); if (v>127) vp_stop(); return v; }
#define FILLED(c) const long c=charv(); vp_fill(a,n,c,c); vp_fill(b,m,c,c)
// the same text twice; the second shorter or longer by k
#define EQ(name,...) DRV(name##_equal) { BUF(a,n); char* b=vp_buf(n); const std::size_t m=n; FILLED(c); __VA_ARGS__ vp_end(); }
#define SHORT(name,...) DRV(name##_shorter) { BUF(a,n); BUF(b,m); if (m>=n) return; FILLED(c); __VA_ARGS__ vp_end(); }
#define LONG(name,...) DRV(name##_longer) { BUF(a,n); BUF(b,m); if (m<=n) return; FILLED(c); __VA_ARGS__ vp_end(); }
#define ANYLEN(name,...) EQ(name,__VA_ARGS__) LONG(name,__VA_ARGS__)
// position i of the pattern holds u, position j of the text v
#define DIFF(u,v,i,j) vp_watch_in(10,a+i,(int)u); vp_watch_in(11,b+j,(int)v)
#define LESS(u,v) const long u=posv(); const long v=posv(); if (u>=v) vp_stop()
#define MORE(u,v) const long u=posv(); const long v=posv(); if (u<=v) vp_stop()
#define TWO(name,...) DRV(name##_less) { LESS(u,v); __VA_ARGS__ vp_end(); } DRV(name##_more) { MORE(u,v); __VA_ARGS__ vp_end(); }
#define AT(i,n) std::size_t i=vp_size(); if (i>=n) return
#define SAMELEN BUF(a,n); char* b=vp_buf(n); const std::size_t m=n; AT(i,n); const std::size_t j=i; DIFF(u,v,i,j)
#define FITS BUF(a,n); BUF(b,m); AT(i,n); if (n>m) return
// exact acceptance
#define EXPECT std::string s(a,n); details::expect_impl e=expect(s); bool r=e((P)b,(P)b+m)
EQ(expect, EXPECT; VP_CHECK(1,r);) SHORT(expect, EXPECT; VP_CHECK(2,!r);) LONG(expect, EXPECT; VP_CHECK(2,!r);)
TWO(expect_diff, SAMELEN; EXPECT; VP_CHECK(3,!r);)
#define BEGINS bool r=begins_with((P)a,(P)a+n,(P)b,(P)b+m)
ANYLEN(begins, BEGINS; VP_CHECK(1,r);) SHORT(begins, BEGINS; VP_CHECK(2,!r);)
TWO(begins_diff, FITS; DIFF(u,v,i,i); BEGINS; VP_CHECK(3,!r);)
#define ENDS bool r=ends_with((P)a,(P)a+n,(P)b,(P)b+m)
ANYLEN(ends, ENDS; VP_CHECK(1,r);) SHORT(ends, ENDS; VP_CHECK(2,!r);)
TWO(ends_diff, FITS; const std::size_t j=m-n+i; DIFF(u,v,i,j); ENDS; VP_CHECK(3,!r);)
// string forms
#define BEGINSS std::string s(a,n); std::string t(b,m); bool r=begins_with(s,t)
ANYLEN(begins_str, BEGINSS; VP_CHECK(1,r);) SHORT(begins_str, BEGINSS; VP_CHECK(2,!r);)
TWO(begins_str_diff, FITS; DIFF(u,v,i,i); BEGINSS; VP_CHECK(3,!r);)
#define ENDSS std::string s(a,n); std::string t(b,m); bool r=ends_with(s,t)
ANYLEN(ends_str, ENDSS; VP_CHECK(1,r);) SHORT(ends_str, ENDSS; VP_CHECK(2,!r);)
TWO(ends_str_diff, FITS; const std::size_t j=m-n+i; DIFF(u,v,i,j); ENDSS; VP_CHECK(3,!r);)
// without regard to case
#define ZONE(name,lo,hi) static inline long name() { long v=vp_int(); if (v<lo) vp_stop(); if (v>hi) vp_stop(); return v; }
ZONE(zn,-128,-1) ZONE(z0,0,64) ZONE(z1,'A','Z') ZONE(z2,91,96) ZONE(z3,'a','z') ZONE(z4,123,127)
#define IEQ1(name,z,...) DRV(name##_equal_##z) { BUF(a,n); char* b=vp_buf(n); const std::size_t m=n; const long c=z(); vp_fill(a,n,c,c); vp_fill(b,m,c,c); __VA_ARGS__ vp_end(); }
#define IEQ(name,...) IEQ1(name,zn,__VA_ARGS__) IEQ1(name,z0,__VA_ARGS__) IEQ1(name,z1,__VA_ARGS__) IEQ1(name,z2,__VA_ARGS__) IEQ1(name,z3,__VA_ARGS__) IEQ1(name,z4,__VA_ARGS__)
#define ILONG1(name,z,...) DRV(name##_longer_##z) { BUF(a,n); BUF(b,m); if (m<=n) return; const long c=z(); vp_fill(a,n,c,c); vp_fill(b,m,c,c); __VA_ARGS__ vp_end(); }
#define ILONG(name,...) ILONG1(name,zn,__VA_ARGS__) ILONG1(name,z0,__VA_ARGS__) ILONG1(name,z1,__VA_ARGS__) ILONG1(name,z2,__VA_ARGS__) ILONG1(name,z3,__VA_ARGS__) ILONG1(name,z4,__VA_ARGS__)
#define IEXPECT std::string s(a,n); details::iexpect_impl e=iexpect(s); bool r=e((P)b,(P)b+m)
#define IBEGINS bool r=ibegins_with((P)a,(P)a+n,(P)b,(P)b+m)
#define IENDS bool r=iends_with((P)a,(P)a+n,(P)b,(P)b+m)
#define IMATCH bool r=imatch((P)a,(P)a+n,(P)b,(P)b+m)
#define IMATCHS std::string s(a,n); std::string t(b,m); bool r=imatch(s,t)
IEQ(iexpect, IEXPECT; VP_CHECK(1,r);) SHORT(iexpect, IEXPECT; VP_CHECK(2,!r);) LONG(iexpect, IEXPECT; VP_CHECK(2,!r);)
IEQ(imatch, IMATCH; VP_CHECK(1,r);) SHORT(imatch, IMATCH; VP_CHECK(2,!r);) LONG(imatch, IMATCH; VP_CHECK(2,!r);)
IEQ(imatch_str, IMATCHS; VP_CHECK(1,r);) SHORT(imatch_str, IMATCHS; VP_CHECK(2,!r);) LONG(imatch_str, IMATCHS; VP_CHECK(2,!r);)
IEQ(ibegins, IBEGINS; VP_CHECK(1,r);) ILONG(ibegins, IBEGINS; VP_CHECK(1,r);) SHORT(ibegins, IBEGINS; VP_CHECK(2,!r);)
IEQ(iends, IENDS; VP_CHECK(1,r);) ILONG(iends, IENDS; VP_CHECK(1,r);) SHORT(iends, IENDS; VP_CHECK(2,!r);)
static inline long lower() { long v=vp_int(); if (v<'a') vp_stop(); if (v>'z') vp_stop(); return v; }
static inline long below() { long v=vp_int(); if (v<0) vp_stop(); if (v>='A') vp_stop(); return v; }
static inline long mid() { long v=vp_int(); if (v<='Z') vp_stop(); if (v>='a') vp_stop(); return v; }
static inline long above() { long v=vp_int(); if (v<='z') vp_stop(); if (v>127) vp_stop(); return v; }
// two characters that are not the same letter, by kind: (letter,letter) in any case, (letter,other), (other,other)
#define NOFOLD(name,...) \
 DRV(name##_ll_less) { long u=lower(); long v=lower(); if (u>=v) vp_stop(); __VA_ARGS__ vp_end(); } DRV(name##_ll_more) { long u=lower(); long v=lower(); if (u<=v) vp_stop(); __VA_ARGS__ vp_end(); } \
 DRV(name##_lu_less) { long u=lower(); long v=lower(); if (u>=v) vp_stop(); v-=32; __VA_ARGS__ vp_end(); } DRV(name##_ul_more) { long u=lower(); long v=lower(); if (u<=v) vp_stop(); u-=32; __VA_ARGS__ vp_end(); } \
 DRV(name##_lb) { long u=lower(); long v=below(); __VA_ARGS__ vp_end(); } DRV(name##_ml) { long u=mid(); long v=lower(); __VA_ARGS__ vp_end(); } DRV(name##_ul_other) { long u=lower()-32; long v=mid(); __VA_ARGS__ vp_end(); } DRV(name##_ua) { long u=lower()-32; long v=above(); __VA_ARGS__ vp_end(); } \
 DRV(name##_am) { long u=above(); long v=mid(); __VA_ARGS__ vp_end(); } DRV(name##_bb) { long u=below(); long v=below(); if (u>=v) vp_stop(); __VA_ARGS__ vp_end(); } DRV(name##_mm) { long u=mid(); long v=mid(); if (u>=v) vp_stop(); __VA_ARGS__ vp_end(); }
NOFOLD(iexpect_diff, SAMELEN; IEXPECT; VP_CHECK(3,!r);)
NOFOLD(imatch_diff, SAMELEN; IMATCH; VP_CHECK(3,!r);)
NOFOLD(ibegins_diff, FITS; DIFF(u,v,i,i); IBEGINS; VP_CHECK(3,!r);)
NOFOLD(iends_diff, FITS; const std::size_t j=m-n+i; DIFF(u,v,i,j); IENDS; VP_CHECK(3,!r);)
// the other case of a letter counts as equal
#define FOLD(name,...) DRV(name##_fold) { BUF(a,n); char* b=vp_buf(n); const std::size_t m=n; const long c=lower(); vp_fill(a,n,c,c); vp_fill(b,m,c-32,c-32); __VA_ARGS__ VP_CHECK(1,r); vp_end(); }
FOLD(iexpect, IEXPECT;) FOLD(imatch, IMATCH;) FOLD(imatch_str, IMATCHS;) FOLD(ibegins, IBEGINS;) FOLD(iends, IENDS;)
