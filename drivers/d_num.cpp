// text to integer: the value, the refusals and the accesses, for every number of significant digits
#include "vp.h"
using namespace strtk;
// digit monitor: characters are first looked at from left to right and have one fixed answer
// status: 40 only zeros so far, 41 other digits, 42.. a character that is neither digit nor leading sign (by range)
struct dmon { const char* b; const char* e; const char* rp; char cur; int st,sg; long acc; };
static inline void dinit(dmon& m,const char* b,const char* e){ m.b=b; m.e=e; m.rp=b-1; m.cur=0; m.st=40; m.sg=40; m.acc=0; }
template <int K,bool SG> struct dit { typedef std::random_access_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef const char* pointer; typedef const char& reference;
  const char* p; dmon* m; dit():p(0),m(0){} dit(const char* q,dmon* x):p(q),m(x){}
  char operator*() const { VP_CHECK(20,m->b<=p && p<m->e); if (p==m->rp) return m->cur;
    VP_CHECK(21,p==m->rp+1); VP_CHECK(22,m->st<42); m->rp=p; char c=*p; m->cur=c;
    if (c<43) { m->st=42; return c; } if (c==43) { if (p==m->b) m->sg=41; else m->st=43; return c; } if (c==44) { m->st=44; return c; }
    if (c==45) { if (SG && p==m->b) m->sg=42; else m->st=45; return c; } if (c<48) { m->st=46; return c; } if (c>57) { m->st=47; return c; }
    if (m->st==40) { if (c==48) return c; m->st=41; m->acc=c-'0'; return c; }
    m->acc=m->acc*10+(c-'0'); return c; }
  dit& operator++(){ ++p; return *this; } dit operator++(int){ dit r(*this); ++p; return r; } dit& operator+=(long k){ p+=k; return *this; } dit operator+(long k) const { return dit(p+k,m); }
  bool operator==(const dit& o) const { return p==o.p; } bool operator!=(const dit& o) const { return p!=o.p; }
  long operator-(const dit& o) const { long d=p-o.p; if (K>=0) { if (d!=K) vp_stop(); return K; } if (d<=-K) vp_stop(); return d; } };
template <typename T,int K,bool SG> static inline void conv(long lim,long nlim) { BUF(b,n); dmon m; dinit(m,b,b+n); dit<K,SG> i(b,&m),e(b+n,&m); T t=T(); typedef typename details::supported_conversion_to_type<T>::type tag;
  bool ok=details::string_to_type_converter_impl(i,e,t,tag());
  if (ok) { VP_CHECK(1,m.st<42); VP_CHECK(2,m.rp+1==b+n); VP_CHECK(3,n>0); if (m.sg!=40) VP_CHECK(11,n>1); if (m.sg==42) { VP_CHECK(4,(long)t==-m.acc); VP_CHECK(5,m.acc<=nlim); } else { VP_CHECK(6,(long)t==m.acc); VP_CHECK(7,m.acc<=lim); } }
  else if (n>0) { if (m.st==41) { if (m.sg==42) VP_CHECK(9,m.acc>nlim); else VP_CHECK(10,m.acc>lim); } else if (m.st==40) { VP_CHECK(12,n==1); VP_CHECK(13,m.sg!=40); } }
  vp_end(); }
DRV(int_0) { conv<int,0,true>(2147483647L,2147483648L); }
DRV(int_1) { conv<int,1,true>(2147483647L,2147483648L); }
DRV(int_2) { conv<int,2,true>(2147483647L,2147483648L); }
DRV(int_3) { conv<int,3,true>(2147483647L,2147483648L); }
DRV(int_4) { conv<int,4,true>(2147483647L,2147483648L); }
DRV(int_5) { conv<int,5,true>(2147483647L,2147483648L); }
DRV(int_6) { conv<int,6,true>(2147483647L,2147483648L); }
DRV(int_7) { conv<int,7,true>(2147483647L,2147483648L); }
DRV(int_8) { conv<int,8,true>(2147483647L,2147483648L); }
DRV(int_9) { conv<int,9,true>(2147483647L,2147483648L); }
DRV(int_10) { conv<int,10,true>(2147483647L,2147483648L); }
DRV(int_over) { conv<int,-10,true>(-1,-1); }
DRV(uint_0) { conv<unsigned int,0,false>(4294967295L,0); }
DRV(uint_1) { conv<unsigned int,1,false>(4294967295L,0); }
DRV(uint_2) { conv<unsigned int,2,false>(4294967295L,0); }
DRV(uint_3) { conv<unsigned int,3,false>(4294967295L,0); }
DRV(uint_4) { conv<unsigned int,4,false>(4294967295L,0); }
DRV(uint_5) { conv<unsigned int,5,false>(4294967295L,0); }
DRV(uint_6) { conv<unsigned int,6,false>(4294967295L,0); }
DRV(uint_7) { conv<unsigned int,7,false>(4294967295L,0); }
DRV(uint_8) { conv<unsigned int,8,false>(4294967295L,0); }
DRV(uint_9) { conv<unsigned int,9,false>(4294967295L,0); }
DRV(uint_10) { conv<unsigned int,10,false>(4294967295L,0); }
DRV(uint_over) { conv<unsigned int,-10,false>(-1,-1); }
DRV(short_0) { conv<short,0,true>(32767,32768); }
DRV(short_1) { conv<short,1,true>(32767,32768); }
DRV(short_2) { conv<short,2,true>(32767,32768); }
DRV(short_3) { conv<short,3,true>(32767,32768); }
DRV(short_4) { conv<short,4,true>(32767,32768); }
DRV(short_5) { conv<short,5,true>(32767,32768); }
DRV(short_over) { conv<short,-5,true>(-1,-1); }
DRV(ushort_0) { conv<unsigned short,0,false>(65535,0); }
DRV(ushort_1) { conv<unsigned short,1,false>(65535,0); }
DRV(ushort_2) { conv<unsigned short,2,false>(65535,0); }
DRV(ushort_3) { conv<unsigned short,3,false>(65535,0); }
DRV(ushort_4) { conv<unsigned short,4,false>(65535,0); }
DRV(ushort_5) { conv<unsigned short,5,false>(65535,0); }
DRV(ushort_over) { conv<unsigned short,-5,false>(-1,-1); }
DRV(ll_0) { conv<long long,0,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_1) { conv<long long,1,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_2) { conv<long long,2,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_3) { conv<long long,3,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_4) { conv<long long,4,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_5) { conv<long long,5,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_6) { conv<long long,6,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_7) { conv<long long,7,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_8) { conv<long long,8,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_9) { conv<long long,9,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_10) { conv<long long,10,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_11) { conv<long long,11,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_12) { conv<long long,12,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_13) { conv<long long,13,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_14) { conv<long long,14,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_15) { conv<long long,15,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_16) { conv<long long,16,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_17) { conv<long long,17,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_18) { conv<long long,18,true>(1000000000000000000L,1000000000000000000L); }
DRV(ll_over) { conv<long long,-19,true>(-1,-1); }
DRV(ull_0) { conv<unsigned long long,0,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_1) { conv<unsigned long long,1,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_2) { conv<unsigned long long,2,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_3) { conv<unsigned long long,3,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_4) { conv<unsigned long long,4,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_5) { conv<unsigned long long,5,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_6) { conv<unsigned long long,6,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_7) { conv<unsigned long long,7,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_8) { conv<unsigned long long,8,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_9) { conv<unsigned long long,9,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_10) { conv<unsigned long long,10,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_11) { conv<unsigned long long,11,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_12) { conv<unsigned long long,12,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_13) { conv<unsigned long long,13,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_14) { conv<unsigned long long,14,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_15) { conv<unsigned long long,15,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_16) { conv<unsigned long long,16,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_17) { conv<unsigned long long,17,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_18) { conv<unsigned long long,18,false>(1000000000000000000L,1000000000000000000L); }
DRV(ull_over) { conv<unsigned long long,-20,false>(-1,-1); }
DRV(long_0) { conv<long,0,true>(1000000000000000000L,1000000000000000000L); }
DRV(long_1) { conv<long,1,true>(1000000000000000000L,1000000000000000000L); }
DRV(long_2) { conv<long,2,true>(1000000000000000000L,1000000000000000000L); }
DRV(long_10) { conv<long,10,true>(1000000000000000000L,1000000000000000000L); }
DRV(long_11) { conv<long,11,true>(1000000000000000000L,1000000000000000000L); }
DRV(long_18) { conv<long,18,true>(1000000000000000000L,1000000000000000000L); }
DRV(long_over) { conv<long,-19,true>(-1,-1); }
DRV(ulong_0) { conv<unsigned long,0,false>(1000000000000000000L,1000000000000000000L); }
DRV(ulong_1) { conv<unsigned long,1,false>(1000000000000000000L,1000000000000000000L); }
DRV(ulong_2) { conv<unsigned long,2,false>(1000000000000000000L,1000000000000000000L); }
DRV(ulong_10) { conv<unsigned long,10,false>(1000000000000000000L,1000000000000000000L); }
DRV(ulong_11) { conv<unsigned long,11,false>(1000000000000000000L,1000000000000000000L); }
DRV(ulong_18) { conv<unsigned long,18,false>(1000000000000000000L,1000000000000000000L); }
DRV(ulong_over) { conv<unsigned long,-20,false>(-1,-1); }
