// text encodings: the content of every output byte, for input of any length
#include "vp.h"
using namespace strtk;
static inline int rng(int n){ int x=vp_int(); if (x<0||x>=n) vp_stop(); return x; }
// hexadecimal: one arbitrary byte of the input and the two characters it becomes
template <int H> static inline void hexenc() { UBUF(b,n); unsigned char* o=(unsigned char*)vp_buf(n*2); std::size_t j=vp_size(); if (j>=n) return; int x1=rng(16),x0=rng(16); vp_watch_in(1,b+j,x1*16+x0); vp_watch(2,o+2*j+H); convert_bin_to_hex(b,b+n,o); int c=vp_wget(2); VP_CHECK(1,c>=0); int q=H?x0:x1;
  if (q<10) VP_CHECK(2,c==48+q); else VP_CHECK(3,c==55+q); vp_use(x1); vp_use(x0); vp_end(); }
DRV(hexenc_hi) { hexenc<0>(); }
DRV(hexenc_lo) { hexenc<1>(); }
// a hexadecimal digit: class 0 decimal, 1 upper case, 2 lower case
template <int C> static inline int hexd(int v) { if (v<0||v>15) vp_stop(); if (C==0) { if (v>9) vp_stop(); return 48+v; } if (v<10) vp_stop(); return v+(C==1?55:87); }
template <int C,int D> static inline void hexdec() { UBUF(b,n); unsigned char* o=(unsigned char*)vp_buf(n/2); std::size_t j=vp_size(); if (j>=n/2) return; int u=vp_int(),v=vp_int(); vp_watch_in(1,b+2*j,hexd<C>(u)); vp_watch_in(2,b+2*j+1,hexd<D>(v)); vp_watch(3,o+j); bool ok=convert_hex_to_bin(b,b+n,o); if (ok) { VP_CHECK(5,vp_wget(3)==u*16+v); } else VP_CHECK(6,n%2==1); vp_end(); }
DRV(hexdec_00) { hexdec<0,0>(); } DRV(hexdec_01) { hexdec<0,1>(); } DRV(hexdec_02) { hexdec<0,2>(); }
DRV(hexdec_10) { hexdec<1,0>(); } DRV(hexdec_11) { hexdec<1,1>(); } DRV(hexdec_12) { hexdec<1,2>(); }
DRV(hexdec_20) { hexdec<2,0>(); } DRV(hexdec_21) { hexdec<2,1>(); } DRV(hexdec_22) { hexdec<2,2>(); }
// Base64: class 0 'A'-'Z', 1 'a'-'z', 2 '0'-'9', 3 '+', 4 '/'
static inline void sext_is(int id,int c,int v) { if (v<26) VP_CHECK(11,c==65+v); else if (v<52) VP_CHECK(12,c==71+v); else if (v<62) VP_CHECK(13,c==v-4); else if (v==62) VP_CHECK(14,c==43); else VP_CHECK(15,c==47); (void)id; }
template <int C> static inline int sextc(int v) { if (C==0) { if (v<0||v>25) vp_stop(); return 65+v; } if (C==1) { if (v<26||v>51) vp_stop(); return 71+v; } if (C==2) { if (v<52||v>61) vp_stop(); return v-4; } if (C==3) { if (v!=62) vp_stop(); return 43; } if (v!=63) vp_stop(); return 47; }
// the bytes of a group, cut where the four characters meet
struct grp { int a,b0,b1,c0,c1,d; grp(){ a=rng(64); b0=rng(4); b1=rng(16); c0=rng(16); c1=rng(4); d=rng(64); } int x(){ return a*4+b0; } int y(){ return b1*16+c0; } int z(){ return c1*64+d; } void use(){ vp_use(a); vp_use(b0); vp_use(b1); vp_use(c0); vp_use(c1); vp_use(d); } };
// character k of group j (complete groups)
template <int K> static inline void b64enc() { UBUF(b,n); unsigned char* o=(unsigned char*)vp_buf((n/3)*4+4); std::size_t j=vp_size(); if (j>=n/3) return; grp g; vp_watch_in(1,b+3*j,g.x()); vp_watch_in(2,b+3*j+1,g.y()); vp_watch_in(3,b+3*j+2,g.z()); vp_watch(4,o+4*j+K); convert_bin_to_base64(b,b+n,o); int c=vp_wget(4); VP_CHECK(10,c>=0);
  sext_is(0,c,K==0?g.a:K==1?g.b0*16+g.b1:K==2?g.c0*4+g.c1:g.d); g.use(); vp_end(); }
DRV(b64enc_0) { b64enc<0>(); } DRV(b64enc_1) { b64enc<1>(); } DRV(b64enc_2) { b64enc<2>(); } DRV(b64enc_3) { b64enc<3>(); }
// the incomplete last group
template <int R,int K> static inline void b64tail() { UBUF(b,n); unsigned char* o=(unsigned char*)vp_buf((n/3)*4+4); if (n%3!=R) return; std::size_t j=n/3; grp g; if (R==1) g.b1=0; vp_watch_in(1,b+3*j,g.x()); if (R==2) vp_watch_in(2,b+3*j+1,g.y()); vp_watch(4,o+4*j+K); convert_bin_to_base64(b,b+n,o); int c=vp_wget(4); VP_CHECK(20,c>=0);
  if (K==0) sext_is(0,c,g.a); if (K==1) sext_is(0,c,g.b0*16+g.b1); if (K==2) { if (R==2) sext_is(0,c,g.c0*4); else VP_CHECK(21,c=='='); } if (K==3) VP_CHECK(22,c=='='); g.use(); vp_end(); }
DRV(b64tail_10) { b64tail<1,0>(); } DRV(b64tail_11) { b64tail<1,1>(); } DRV(b64tail_12) { b64tail<1,2>(); } DRV(b64tail_13) { b64tail<1,3>(); }
DRV(b64tail_20) { b64tail<2,0>(); } DRV(b64tail_21) { b64tail<2,1>(); } DRV(b64tail_22) { b64tail<2,2>(); } DRV(b64tail_23) { b64tail<2,3>(); }
