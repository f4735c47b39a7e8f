// drivers for tool/bitflow: vp_in(n) is n fresh input bits; vp_eq(a,b,id) is an obligation on the bits of a and b
typedef unsigned char U8; typedef unsigned long long U64;
extern "C" { U64 vp_in(int) throw(); void vp_eq(U64,U64,int) throw(); void vp_end() throw(); }
#ifdef BEFORE_BITS
#include BEFORE_BITS
#define string mstring
#endif
#include "strtk.hpp"
#ifdef BEFORE_BITS
#undef string
#endif
using namespace strtk;
#define DRV(n) extern "C" void drv_##n()
template <int N> struct in { U8 b[N]; in() { for (int i=0;i<N;++i) b[i]=(U8)vp_in(8); } const U8* e() const { return b+N; } const char* cb() const { return (const char*)b; } const char* ce() const { return (const char*)b+N; } };
static inline U64 bit(U64 v,int k) { return v>>k&1; }
// the value of the bytes first to last, least significant first / most significant first
static inline U64 le(const U8* b,int n) { U64 r=0; for (int i=0;i<n;++i) r|=(U64)b[i]<<(8*i); return r; }
static inline U64 be(const U8* b,int n) { U64 r=0; for (int i=0;i<n;++i) r|=(U64)b[i]<<(8*(n-1-i)); return r; }
static inline U64 cut(U64 v,int bytes) { return bytes==8?v:v&((1ull<<8*bytes)-1); }
