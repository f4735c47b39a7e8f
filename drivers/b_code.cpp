// Base64 and hexadecimal text of whole short inputs: encoding against the alphabet, decoding back
#include "bits.h"
static inline U64 ch(U64 v) { static const char a[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; return (U8)a[v&63]; }
// the k-th six bits of n bytes, missing bits zero
static inline U64 six(const U8* b,int n,int k) { U64 r=0; for (int i=0;i<6;++i) { int p=6*k+i; if (p<8*n) r|=bit(b[p/8],7-p%8)<<(5-i); } return r; }
#define ENC(N) DRV(enc_##N) { const int G=(N+2)/3*4; in<N> x; U8 t[G]; U64 r=convert_bin_to_base64(x.b,x.e(),t); vp_eq(r,G,1); for (int k=0;k<G;++k) vp_eq(t[k],6*k<8*N?ch(six(x.b,N,k)):'=',2); vp_end(); }
ENC(1) ENC(2) ENC(3) ENC(4) ENC(5) ENC(6)
#define DEC(N) DRV(dec_##N) { const int G=(N+2)/3*4; in<N> x; U8 t[G]; U8 o[N]; for (int k=0;k<G;++k) t[k]=(U8)(6*k<8*N?ch(six(x.b,N,k)):'='); U64 r=convert_base64_to_bin(t,t+G,o); vp_eq(r,N,1); for (int k=0;k<N;++k) vp_eq(o[k],x.b[k],2); vp_end(); }
DEC(1) DEC(2) DEC(3) DEC(4) DEC(5) DEC(6)
#define RT(N) DRV(back_##N) { const int G=(N+2)/3*4; in<N> x; char t[G]; char o[N]; convert_bin_to_base64(x.cb(),x.ce(),t); U64 r=convert_base64_to_bin((const char*)t,(const char*)t+G,o); vp_eq(r,N,1); for (int k=0;k<N;++k) vp_eq((U8)o[k],x.b[k],2); vp_end(); }
RT(1) RT(2) RT(3) RT(5) RT(6)
static inline U64 hx(U64 v,bool up) { return v<10?'0'+v:(up?'A':'a')+v-10; }
#define HEX(N) DRV(hex_##N) { in<N> x; U8 t[2*N]; convert_bin_to_hex(x.b,x.e(),t); for (int k=0;k<N;++k) { vp_eq(t[2*k],hx(x.b[k]>>4,true),2); vp_eq(t[2*k+1],hx(x.b[k]&15,true),3); } vp_end(); } \
DRV(unhex_##N) { in<N> x; U8 t[2*N],u[2*N],m[2*N],o[N],p[N],q[N]; for (int k=0;k<N;++k) { t[2*k]=hx(x.b[k]>>4,true); t[2*k+1]=hx(x.b[k]&15,true); u[2*k]=hx(x.b[k]>>4,false); u[2*k+1]=hx(x.b[k]&15,false); m[2*k]=t[2*k]; m[2*k+1]=u[2*k+1]; } vp_eq(convert_hex_to_bin((const U8*)t,(const U8*)t+2*N,o),1,1); vp_eq(convert_hex_to_bin((const U8*)u,(const U8*)u+2*N,p),1,1); vp_eq(convert_hex_to_bin((const U8*)m,(const U8*)m+2*N,q),1,1); for (int k=0;k<N;++k) { vp_eq(o[k],x.b[k],2); vp_eq(p[k],x.b[k],3); vp_eq(q[k],x.b[k],4); } vp_end(); } \
DRV(hexback_##N) { in<N> x; char t[2*N],o[N]; convert_bin_to_hex(x.cb(),x.ce(),t); convert_hex_to_bin((const char*)t,(const char*)t+2*N,o); for (int k=0;k<N;++k) vp_eq((U8)o[k],x.b[k],1); vp_end(); }
HEX(1) HEX(2) HEX(3)
DRV(print) { in<3> x; U8 o[3]; for (int i=0;i<3;++i) o[i]=x.b[i]; convert_to_printable_chars(o,o+3); for (int i=0;i<3;++i) vp_eq(o[i],x.b[i]>=0x21&&x.b[i]<=0x7e?x.b[i]:'.',1); vp_end(); }
