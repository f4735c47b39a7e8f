// integer to text: every value, per number of digits
#include "vp.h"
using namespace strtk;
template <int K> struct P10 { static const long v=10*P10<K-1>::v; }; template <> struct P10<0> { static const long v=1; };
template <int K> struct digs { static inline __attribute__((always_inline)) long sum(const char* p,long acc){ int c=p[0]; VP_CHECK(3,c>=48); VP_CHECK(4,c<=57); return digs<K-1>::sum(p+1,acc*10+(c-48)); } }; template <> struct digs<0> { static inline long sum(const char*,long acc){ return acc; } };
// a value of K digits in [lo,hi]: exactly K digits are written, they denote the value, a minus precedes exactly a negative one
template <typename T,int K,bool NEG> static inline void tostr(long lo,long hi) { vp_unroll(7); long a=(long)vp_any(); if (a<lo) vp_stop(); if (a>hi) vp_stop();
  T v=NEG?(T)-a:(T)a; std::string s; bool ok=type_to_string(v,s); VP_CHECK(0,ok); VP_CHECK(1,s.size()==K+(NEG?1:0)); const char* p=s.data(); if (NEG) { VP_CHECK(2,p[0]=='-'); p++; }
  VP_CHECK(5,digs<K>::sum(p,0)==a); vp_use(a); vp_end(); }
template <typename T> static inline void zero() { vp_unroll(7); std::string s; bool ok=type_to_string(T(0),s); VP_CHECK(0,ok); VP_CHECK(1,s.size()==1); VP_CHECK(6,s.data()[0]=='0'); vp_end(); }
DRV(bool_t) { std::string s; bool ok=type_to_string(true,s); VP_CHECK(0,ok); VP_CHECK(1,s.size()==1); VP_CHECK(7,s.data()[0]=='1'); vp_end(); }
DRV(bool_f) { std::string s; bool ok=type_to_string(false,s); VP_CHECK(0,ok); VP_CHECK(1,s.size()==1); VP_CHECK(7,s.data()[0]=='0'); vp_end(); }
DRV(short_0) { zero<short>(); }
DRV(short_p1) { tostr<short,1,false>(1L,9L); }
DRV(short_n1) { tostr<short,1,true>(1L,9L); }
DRV(short_p2) { tostr<short,2,false>(10L,99L); }
DRV(short_n2) { tostr<short,2,true>(10L,99L); }
DRV(short_p3) { tostr<short,3,false>(100L,999L); }
DRV(short_n3) { tostr<short,3,true>(100L,999L); }
DRV(short_p4) { tostr<short,4,false>(1000L,9999L); }
DRV(short_n4) { tostr<short,4,true>(1000L,9999L); }
DRV(short_p5) { tostr<short,5,false>(10000L,32767L); }
DRV(short_n5) { tostr<short,5,true>(10000L,32767L); }
DRV(short_n5h) { tostr<short,5,true>(32768L,32768L); }
DRV(ushort_0) { zero<unsigned short>(); }
DRV(ushort_p1) { tostr<unsigned short,1,false>(1L,9L); }
DRV(ushort_p2) { tostr<unsigned short,2,false>(10L,99L); }
DRV(ushort_p3) { tostr<unsigned short,3,false>(100L,999L); }
DRV(ushort_p4) { tostr<unsigned short,4,false>(1000L,9999L); }
DRV(ushort_p5) { tostr<unsigned short,5,false>(10000L,32767L); }
DRV(ushort_p5h) { tostr<unsigned short,5,false>(32768L,65535L); }
DRV(int_0) { zero<int>(); }
DRV(int_p1) { tostr<int,1,false>(1L,9L); }
DRV(int_n1) { tostr<int,1,true>(1L,9L); }
DRV(int_p2) { tostr<int,2,false>(10L,99L); }
DRV(int_n2) { tostr<int,2,true>(10L,99L); }
DRV(int_p3) { tostr<int,3,false>(100L,999L); }
DRV(int_n3) { tostr<int,3,true>(100L,999L); }
DRV(int_p4) { tostr<int,4,false>(1000L,9999L); }
DRV(int_n4) { tostr<int,4,true>(1000L,9999L); }
DRV(int_p5) { tostr<int,5,false>(10000L,99999L); }
DRV(int_n5) { tostr<int,5,true>(10000L,99999L); }
DRV(int_p6) { tostr<int,6,false>(100000L,999999L); }
DRV(int_n6) { tostr<int,6,true>(100000L,999999L); }
DRV(int_p7) { tostr<int,7,false>(1000000L,9999999L); }
DRV(int_n7) { tostr<int,7,true>(1000000L,9999999L); }
DRV(int_p8) { tostr<int,8,false>(10000000L,99999999L); }
DRV(int_n8) { tostr<int,8,true>(10000000L,99999999L); }
DRV(int_p9) { tostr<int,9,false>(100000000L,999999999L); }
DRV(int_n9) { tostr<int,9,true>(100000000L,999999999L); }
DRV(int_p10) { tostr<int,10,false>(1000000000L,2147483647L); }
DRV(int_n10) { tostr<int,10,true>(1000000000L,2147483647L); }
DRV(int_n10h) { tostr<int,10,true>(2147483648L,2147483648L); }
DRV(uint_0) { zero<unsigned int>(); }
DRV(uint_p1) { tostr<unsigned int,1,false>(1L,9L); }
DRV(uint_p2) { tostr<unsigned int,2,false>(10L,99L); }
DRV(uint_p3) { tostr<unsigned int,3,false>(100L,999L); }
DRV(uint_p4) { tostr<unsigned int,4,false>(1000L,9999L); }
DRV(uint_p5) { tostr<unsigned int,5,false>(10000L,99999L); }
DRV(uint_p6) { tostr<unsigned int,6,false>(100000L,999999L); }
DRV(uint_p7) { tostr<unsigned int,7,false>(1000000L,9999999L); }
DRV(uint_p8) { tostr<unsigned int,8,false>(10000000L,99999999L); }
DRV(uint_p9) { tostr<unsigned int,9,false>(100000000L,999999999L); }
DRV(uint_p10) { tostr<unsigned int,10,false>(1000000000L,2147483647L); }
DRV(uint_p10h) { tostr<unsigned int,10,false>(2147483648L,4294967295L); }
DRV(long_0) { zero<long>(); }
DRV(long_p1) { tostr<long,1,false>(1L,9L); }
DRV(long_n1) { tostr<long,1,true>(1L,9L); }
DRV(long_p2) { tostr<long,2,false>(10L,99L); }
DRV(long_n2) { tostr<long,2,true>(10L,99L); }
DRV(long_p3) { tostr<long,3,false>(100L,999L); }
DRV(long_n3) { tostr<long,3,true>(100L,999L); }
DRV(long_p4) { tostr<long,4,false>(1000L,9999L); }
DRV(long_n4) { tostr<long,4,true>(1000L,9999L); }
DRV(long_p5) { tostr<long,5,false>(10000L,99999L); }
DRV(long_n5) { tostr<long,5,true>(10000L,99999L); }
DRV(long_p6) { tostr<long,6,false>(100000L,999999L); }
DRV(long_n6) { tostr<long,6,true>(100000L,999999L); }
DRV(long_p7) { tostr<long,7,false>(1000000L,9999999L); }
DRV(long_n7) { tostr<long,7,true>(1000000L,9999999L); }
DRV(long_p8) { tostr<long,8,false>(10000000L,99999999L); }
DRV(long_n8) { tostr<long,8,true>(10000000L,99999999L); }
DRV(long_p9) { tostr<long,9,false>(100000000L,999999999L); }
DRV(long_n9) { tostr<long,9,true>(100000000L,999999999L); }
DRV(long_p10) { tostr<long,10,false>(1000000000L,9999999999L); }
DRV(long_n10) { tostr<long,10,true>(1000000000L,9999999999L); }
DRV(long_p11) { tostr<long,11,false>(10000000000L,99999999999L); }
DRV(long_n11) { tostr<long,11,true>(10000000000L,99999999999L); }
DRV(long_p12) { tostr<long,12,false>(100000000000L,999999999999L); }
DRV(long_n12) { tostr<long,12,true>(100000000000L,999999999999L); }
DRV(long_p13) { tostr<long,13,false>(1000000000000L,9999999999999L); }
DRV(long_n13) { tostr<long,13,true>(1000000000000L,9999999999999L); }
DRV(long_p14) { tostr<long,14,false>(10000000000000L,99999999999999L); }
DRV(long_n14) { tostr<long,14,true>(10000000000000L,99999999999999L); }
DRV(long_p15) { tostr<long,15,false>(100000000000000L,999999999999999L); }
DRV(long_n15) { tostr<long,15,true>(100000000000000L,999999999999999L); }
DRV(long_p16) { tostr<long,16,false>(1000000000000000L,9999999999999999L); }
DRV(long_n16) { tostr<long,16,true>(1000000000000000L,9999999999999999L); }
DRV(long_p17) { tostr<long,17,false>(10000000000000000L,99999999999999999L); }
DRV(long_n17) { tostr<long,17,true>(10000000000000000L,99999999999999999L); }
DRV(ulong_0) { zero<unsigned long>(); }
DRV(ulong_p1) { tostr<unsigned long,1,false>(1L,9L); }
DRV(ulong_p2) { tostr<unsigned long,2,false>(10L,99L); }
DRV(ulong_p3) { tostr<unsigned long,3,false>(100L,999L); }
DRV(ulong_p4) { tostr<unsigned long,4,false>(1000L,9999L); }
DRV(ulong_p5) { tostr<unsigned long,5,false>(10000L,99999L); }
DRV(ulong_p6) { tostr<unsigned long,6,false>(100000L,999999L); }
DRV(ulong_p7) { tostr<unsigned long,7,false>(1000000L,9999999L); }
DRV(ulong_p8) { tostr<unsigned long,8,false>(10000000L,99999999L); }
DRV(ulong_p9) { tostr<unsigned long,9,false>(100000000L,999999999L); }
DRV(ulong_p10) { tostr<unsigned long,10,false>(1000000000L,9999999999L); }
DRV(ulong_p11) { tostr<unsigned long,11,false>(10000000000L,99999999999L); }
DRV(ulong_p12) { tostr<unsigned long,12,false>(100000000000L,999999999999L); }
DRV(ulong_p13) { tostr<unsigned long,13,false>(1000000000000L,9999999999999L); }
DRV(ulong_p14) { tostr<unsigned long,14,false>(10000000000000L,99999999999999L); }
DRV(ulong_p15) { tostr<unsigned long,15,false>(100000000000000L,999999999999999L); }
DRV(ulong_p16) { tostr<unsigned long,16,false>(1000000000000000L,9999999999999999L); }
DRV(ulong_p17) { tostr<unsigned long,17,false>(10000000000000000L,99999999999999999L); }
DRV(ll_0) { zero<long long>(); }
DRV(ll_p1) { tostr<long long,1,false>(1L,9L); }
DRV(ll_n1) { tostr<long long,1,true>(1L,9L); }
DRV(ll_p2) { tostr<long long,2,false>(10L,99L); }
DRV(ll_n2) { tostr<long long,2,true>(10L,99L); }
DRV(ll_p3) { tostr<long long,3,false>(100L,999L); }
DRV(ll_n3) { tostr<long long,3,true>(100L,999L); }
DRV(ll_p4) { tostr<long long,4,false>(1000L,9999L); }
DRV(ll_n4) { tostr<long long,4,true>(1000L,9999L); }
DRV(ll_p5) { tostr<long long,5,false>(10000L,99999L); }
DRV(ll_n5) { tostr<long long,5,true>(10000L,99999L); }
DRV(ll_p6) { tostr<long long,6,false>(100000L,999999L); }
DRV(ll_n6) { tostr<long long,6,true>(100000L,999999L); }
DRV(ll_p7) { tostr<long long,7,false>(1000000L,9999999L); }
DRV(ll_n7) { tostr<long long,7,true>(1000000L,9999999L); }
DRV(ll_p8) { tostr<long long,8,false>(10000000L,99999999L); }
DRV(ll_n8) { tostr<long long,8,true>(10000000L,99999999L); }
DRV(ll_p9) { tostr<long long,9,false>(100000000L,999999999L); }
DRV(ll_n9) { tostr<long long,9,true>(100000000L,999999999L); }
DRV(ll_p10) { tostr<long long,10,false>(1000000000L,9999999999L); }
DRV(ll_n10) { tostr<long long,10,true>(1000000000L,9999999999L); }
DRV(ll_p11) { tostr<long long,11,false>(10000000000L,99999999999L); }
DRV(ll_n11) { tostr<long long,11,true>(10000000000L,99999999999L); }
DRV(ll_p12) { tostr<long long,12,false>(100000000000L,999999999999L); }
DRV(ll_n12) { tostr<long long,12,true>(100000000000L,999999999999L); }
DRV(ll_p13) { tostr<long long,13,false>(1000000000000L,9999999999999L); }
DRV(ll_n13) { tostr<long long,13,true>(1000000000000L,9999999999999L); }
DRV(ll_p14) { tostr<long long,14,false>(10000000000000L,99999999999999L); }
DRV(ll_n14) { tostr<long long,14,true>(10000000000000L,99999999999999L); }
DRV(ll_p15) { tostr<long long,15,false>(100000000000000L,999999999999999L); }
DRV(ll_n15) { tostr<long long,15,true>(100000000000000L,999999999999999L); }
DRV(ll_p16) { tostr<long long,16,false>(1000000000000000L,9999999999999999L); }
DRV(ll_n16) { tostr<long long,16,true>(1000000000000000L,9999999999999999L); }
DRV(ll_p17) { tostr<long long,17,false>(10000000000000000L,99999999999999999L); }
DRV(ll_n17) { tostr<long long,17,true>(10000000000000000L,99999999999999999L); }
DRV(ull_0) { zero<unsigned long long>(); }
DRV(ull_p1) { tostr<unsigned long long,1,false>(1L,9L); }
DRV(ull_p2) { tostr<unsigned long long,2,false>(10L,99L); }
DRV(ull_p3) { tostr<unsigned long long,3,false>(100L,999L); }
DRV(ull_p4) { tostr<unsigned long long,4,false>(1000L,9999L); }
DRV(ull_p5) { tostr<unsigned long long,5,false>(10000L,99999L); }
DRV(ull_p6) { tostr<unsigned long long,6,false>(100000L,999999L); }
DRV(ull_p7) { tostr<unsigned long long,7,false>(1000000L,9999999L); }
DRV(ull_p8) { tostr<unsigned long long,8,false>(10000000L,99999999L); }
DRV(ull_p9) { tostr<unsigned long long,9,false>(100000000L,999999999L); }
DRV(ull_p10) { tostr<unsigned long long,10,false>(1000000000L,9999999999L); }
DRV(ull_p11) { tostr<unsigned long long,11,false>(10000000000L,99999999999L); }
DRV(ull_p12) { tostr<unsigned long long,12,false>(100000000000L,999999999999L); }
DRV(ull_p13) { tostr<unsigned long long,13,false>(1000000000000L,9999999999999L); }
DRV(ull_p14) { tostr<unsigned long long,14,false>(10000000000000L,99999999999999L); }
DRV(ull_p15) { tostr<unsigned long long,15,false>(100000000000000L,999999999999999L); }
DRV(ull_p16) { tostr<unsigned long long,16,false>(1000000000000000L,9999999999999999L); }
DRV(ull_p17) { tostr<unsigned long long,17,false>(10000000000000000L,99999999999999999L); }
