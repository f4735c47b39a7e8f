// bit operations over ranges of any length: they stay inside their ranges, write exactly the result, and finish; texts of
// different length are refused
#include "vp.h"
using namespace strtk;
#define TWO(same) UBUF(a,n); if (n>1000000000) vp_stop(); std::size_t m=n; if (!(same)) { m=vp_size(); if (m==n) vp_stop(); } unsigned char* b=(unsigned char*)vp_buf(m);
#define STR2 STR(a); STR(b); if (a.size()>1000000000) vp_stop();
#define SAME if (a.size()!=b.size()) vp_stop();
#define DIFF if (a.size()>=b.size()) vp_stop();
#define DIFG if (a.size()<=b.size()) vp_stop();
static const std::size_t none=~(std::size_t)0;
DRV(inter) { TWO(true) unsigned char* o=(unsigned char*)vp_buf(n+n); bool r=twoway_bitwise_interleave(a,a+n,b,b+m,o); VP_CHECK(1,r); vp_end(); }
DRV(inter_less) { UBUF(a,n); UBUF(b,m); if (n>=m) vp_stop(); unsigned char* o=(unsigned char*)vp_buf(0); bool r=twoway_bitwise_interleave(a,a+n,b,b+m,o); VP_CHECK(1,!r); vp_end(); }
DRV(inter_more) { UBUF(a,n); UBUF(b,m); if (n<=m) vp_stop(); unsigned char* o=(unsigned char*)vp_buf(0); bool r=twoway_bitwise_interleave(a,a+n,b,b+m,o); VP_CHECK(1,!r); vp_end(); }
DRV(inter_s) { STR2 STR(o); SAME bool r=twoway_bitwise_interleave(a,b,o); VP_CHECK(1,r); VP_CHECK(3,o.size()==2*a.size()); vp_end(); }
DRV(inter_sl) { STR2 STR(o); DIFF bool r=twoway_bitwise_interleave(a,b,o); VP_CHECK(1,!r); vp_end(); }
DRV(inter_sm) { STR2 STR(o); DIFG bool r=twoway_bitwise_interleave(a,b,o); VP_CHECK(1,!r); vp_end(); }
#define COMB(n,kind) DRV(n) { UBUF(a,l); unsigned char* b=(unsigned char*)vp_buf(l); unsigned char* o=(unsigned char*)vp_buf(l); bitwise_transform(bitwise_operation::kind,a,a+l,b,o); vp_end(); } \
DRV(n##_s) { STR2 STR(o); SAME bitwise_transform(bitwise_operation::kind,a,b,o); VP_CHECK(1,o.size()==a.size()); vp_end(); } \
DRV(n##_sl) { STR2 STR(o); DIFF std::size_t z=o.size(); bitwise_transform(bitwise_operation::kind,a,b,o); VP_CHECK(1,o.size()==z); vp_end(); } \
DRV(n##_sm) { STR2 STR(o); DIFG std::size_t z=o.size(); bitwise_transform(bitwise_operation::kind,a,b,o); VP_CHECK(1,o.size()==z); vp_end(); }
COMB(c_and,eAND) COMB(c_or,eOR) COMB(c_xor,eXOR)
DRV(count) { UBUF(a,n); std::size_t c=high_bit_count(a,a+n); vp_use(c); vp_end(); }
DRV(count_s) { STR(a); std::size_t c=high_bit_count(a); vp_use(c); vp_end(); }
DRV(ham) { TWO(true) std::size_t c=hamming_distance(a,a+n,b,b+m); vp_use(c); vp_end(); }
DRV(ham_less) { UBUF(a,n); UBUF(b,m); if (n>=m) vp_stop(); VP_CHECK(1,hamming_distance(a,a+n,b,b+m)==none); vp_end(); }
DRV(ham_more) { UBUF(a,n); UBUF(b,m); if (n<=m) vp_stop(); VP_CHECK(1,hamming_distance(a,a+n,b,b+m)==none); vp_end(); }
DRV(ham_s) { STR2 SAME std::size_t c=hamming_distance(a,b); vp_use(c); vp_end(); }
DRV(ham_sl) { STR2 DIFF VP_CHECK(1,hamming_distance(a,b)==none); vp_end(); }
DRV(ham_sm) { STR2 DIFG VP_CHECK(1,hamming_distance(a,b)==none); vp_end(); }
DRV(elem) { TWO(true) std::size_t c=hamming_distance_elementwise(a,a+n,b,b+m); VP_CHECK(1,c<=n); vp_end(); }
DRV(elem_less) { UBUF(a,n); UBUF(b,m); if (n>=m) vp_stop(); VP_CHECK(1,hamming_distance_elementwise(a,a+n,b,b+m)==none); vp_end(); }
DRV(elem_more) { UBUF(a,n); UBUF(b,m); if (n<=m) vp_stop(); VP_CHECK(1,hamming_distance_elementwise(a,a+n,b,b+m)==none); vp_end(); }
DRV(elem_s) { STR2 SAME std::size_t c=hamming_distance_elementwise(a,b); VP_CHECK(1,c<=a.size()); vp_end(); }
DRV(bit) { UBUF(a,n); std::size_t i=vp_size(); if (i/8>=n) vp_stop(); bool r=bit_state(i,a); vp_use(r); set_bit_high(i,a); set_bit_low(i,a); vp_end(); }
