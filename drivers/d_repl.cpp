// Repeated texts: exactly n copies are added (by length; the copy is a fixed number of characters).
#include "vp.h"
using namespace strtk;
#define N_ std::size_t n=vp_size(); if (n>1000000000) vp_stop(); std::string s(7,'x');
DRV(replicate) { N_ std::string out(3,'-'); replicate(n,s,out); VP_CHECK(1,out.size()==7*n+3); VP_CHECK(2,s.size()==7); vp_end(); }
DRV(replicate_r) { N_ std::string out=replicate(n,s); VP_CHECK(1,out.size()==7*n); vp_end(); }
DRV(replicate_in) { N_ replicate_inplace(n,s); VP_CHECK(1,s.size()==7*n+7); vp_end(); }
