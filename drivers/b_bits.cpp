// bit-level operations, each against its definition on the single bits
#include "bits.h"
namespace bd=strtk::binary::details;
// byte order
#define CONV(n,T) DRV(convert_##n) { in<sizeof(T)> x; T v=(T)le(x.b,sizeof(T)); vp_eq(cut((U64)bd::convert(v),sizeof(T)),be(x.b,sizeof(T)),1); vp_eq(cut((U64)bd::convert_to_be(v),sizeof(T)),be(x.b,sizeof(T)),2); vp_eq(cut((U64)bd::convert_to_le(v),sizeof(T)),le(x.b,sizeof(T)),3); vp_eq(cut((U64)bd::convert(bd::convert(v)),sizeof(T)),le(x.b,sizeof(T)),4); vp_end(); }
CONV(u16,unsigned short) CONV(u32,unsigned int) CONV(u64,unsigned long long) CONV(s16,short) CONV(s32,int) CONV(s64,long long)
// interleaving
#define INTER(n,N) DRV(interleave_##n) { in<N> a,b; U8 o[2*N]; bool r=twoway_bitwise_interleave(a.b,a.e(),b.b,b.e(),o); vp_eq(r,1,1); for (int i=0;i<N;++i) for (int k=0;k<8;++k) { vp_eq(bit(o[2*i+k/4],2*k%8),bit(a.b[i],k),10); vp_eq(bit(o[2*i+k/4],2*k%8+1),bit(b.b[i],k),11); } vp_end(); }
INTER(1,1) INTER(2,2) INTER(3,3)
DRV(interleave_char) { in<2> a,b; U8 o[4]; bool r=twoway_bitwise_interleave(a.cb(),a.ce(),b.cb(),b.ce(),(char*)o); vp_eq(r,1,1); for (int i=0;i<2;++i) for (int k=0;k<8;++k) { vp_eq(bit(o[2*i+k/4],2*k%8),bit(a.b[i],k),10); vp_eq(bit(o[2*i+k/4],2*k%8+1),bit(b.b[i],k),11); } vp_end(); }
DRV(interleave_len) { in<2> a; in<3> b; U8 o[6]; vp_eq(twoway_bitwise_interleave(a.b,a.e(),b.b,b.e(),o),0,1); vp_eq(twoway_bitwise_interleave(b.b,b.e(),a.b,a.e(),o),0,2); vp_end(); }
// combining
#define COMB(n,kind,o) DRV(n) { in<3> a,b; U8 r[3]; bitwise_transform(bitwise_operation::kind,a.b,a.e(),b.b,r); for (int i=0;i<3;++i) vp_eq(r[i],(U8)(a.b[i] o b.b[i]),1); char c[3]; bitwise_transform(bitwise_operation::kind,a.cb(),a.ce(),b.cb(),c); for (int i=0;i<3;++i) vp_eq((U8)c[i],(U8)(a.b[i] o b.b[i]),2); vp_end(); }
COMB(comb_and,eAND,&) COMB(comb_or,eOR,|) COMB(comb_xor,eXOR,^)
// counting
static inline U64 ones(const U8* b,int n) { U64 r=0; for (int i=0;i<n;++i) for (int k=0;k<8;++k) r+=b[i]>>k&1; return r; }
DRV(count_1) { in<1> x; vp_eq(high_bit_count(x.b[0]),ones(x.b,1),1); vp_end(); }
DRV(count_2) { in<2> x; unsigned short v=(unsigned short)le(x.b,2); vp_eq(high_bit_count(v),ones(x.b,2),1); vp_end(); }
DRV(count_4) { in<4> x; unsigned int v=(unsigned)le(x.b,4); vp_eq(high_bit_count(v),ones(x.b,4),1); vp_end(); }
DRV(count_8) { in<8> x; long long v=(long long)le(x.b,8); vp_eq(high_bit_count(v),ones(x.b,8),1); vp_end(); }
DRV(count_range) { in<3> x; vp_eq(high_bit_count(x.b,x.e()),ones(x.b,3),1); vp_eq(high_bit_count(x.cb(),x.ce()),ones(x.b,3),2); vp_eq(high_bit_count(x.b,x.b),0,3); vp_end(); }
DRV(hamming) { in<3> a,b; U8 d[3]; for (int i=0;i<3;++i) d[i]=a.b[i]^b.b[i]; vp_eq(hamming_distance(a.b,a.e(),b.b,b.e()),ones(d,3),1); vp_eq(hamming_distance(a.cb(),a.ce(),b.cb(),b.ce()),ones(d,3),2); vp_end(); }
DRV(hamming_len) { in<3> a; in<2> b; vp_eq(hamming_distance(a.b,a.e(),b.b,b.e()),~0ull,1); vp_eq(hamming_distance(b.cb(),b.ce(),a.cb(),a.ce()),~0ull,2); vp_end(); }
// single bits
#define BIT1(i) { in<3> x; vp_eq(bit_state(i,x.b),bit(x.b[(i)/8],(i)%8),1); U8 h[3],l[3]; for (int k=0;k<3;++k) h[k]=l[k]=x.b[k]; set_bit_high(i,h); set_bit_low(i,l); for (int k=0;k<3;++k) { vp_eq(h[k],(U8)(k==(i)/8?x.b[k]|1<<(i)%8:x.b[k]),2); vp_eq(l[k],(U8)(k==(i)/8?x.b[k]&~(1<<(i)%8):x.b[k]),3); } }
#define BIT4(i) BIT1(i) BIT1(i+1) BIT1(i+2) BIT1(i+3)
DRV(bits_0) { BIT4(0) BIT4(4) vp_end(); }
DRV(bits_8) { BIT4(8) BIT4(12) vp_end(); }
DRV(bits_16) { BIT4(16) BIT4(20) vp_end(); }
DRV(nway_2) { unsigned short t[256]; create_nway_interleave_table<2>(t); for (int i=0;i<256;++i) { U64 e=0; for (int k=0;k<8;++k) e|=bit(i,k)<<2*k; vp_eq(t[i],e,1); } vp_end(); }
DRV(nway_4) { unsigned int t[256]; create_nway_interleave_table<4>(t); for (int i=0;i<256;++i) { U64 e=0; for (int k=0;k<8;++k) e|=bit(i,k)<<4*k; vp_eq(t[i],e,1); } vp_end(); }
DRV(nway_8) { unsigned long long t[256]; create_nway_interleave_table<8>(t); for (int i=0;i<256;++i) { U64 e=0; for (int k=0;k<8;++k) e|=bit(i,k)<<8*k; vp_eq(t[i],e,1); } vp_end(); }
DRV(elementwise) { U8 a[3],b[3]; U64 e=0; for (int i=0;i<3;++i) { a[i]=(U8)vp_in(4); b[i]=(U8)vp_in(4); e+=a[i]!=b[i]; } vp_eq(hamming_distance_elementwise((const U8*)a,(const U8*)a+3,(const U8*)b,(const U8*)b+3),e,1); vp_eq(hamming_distance_elementwise((const U8*)a,(const U8*)a+3,(const U8*)b,(const U8*)b+2),~0ull,2); vp_end(); }
