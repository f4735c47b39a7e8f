// removal / replacement / matching / searching over [begin,end)
#include "vp.h"
using namespace strtk;
DRV(remove_inplace)   { BUF(b,n); std::size_t r=remove_inplace(any_pred(),b,b+n); VP_CHECK(1,r<=n); vp_end(); }
DRV(remove_inplace_adapter) { BUF(b,n); std::size_t r=remove_inplace(any_pred(),range::adapter<char>(b,n)); VP_CHECK(1,r<=n); vp_end(); }
DRV(remove_inplace_c)  { STR(s); std::size_t n=s.size(); remove_inplace('x',s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(remove_inplace_s)  { STR(s); std::size_t n=s.size(); remove_inplace(any_pred(),s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(remove_consec_p)   { BUF(b,n); std::size_t r=remove_consecutives_inplace(any_pred(),b,b+n); VP_CHECK(1,r<=n); vp_end(); }
DRV(remove_consec_c)   { STR(s); std::size_t n=s.size(); remove_consecutives_inplace('x',s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(remove_consec_ps)  { STR(s); std::size_t n=s.size(); remove_consecutives_inplace(any_pred(),s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(remove_consec)     { BUF(b,n); std::size_t r=remove_consecutives_inplace(b,b+n); VP_CHECK(1,r<=n); vp_end(); }
DRV(remove_consec_s)   { STR(s); std::size_t n=s.size(); remove_consecutives_inplace(s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(remove_duplicates) { STR(s); std::string r=remove_duplicates(s); vp_end(); }
DRV(remove_trailing)   { BUF(b,n); std::size_t r=remove_trailing(any_pred(),b,b+n); VP_CHECK(1,r<=n); vp_end(); }
DRV(remove_trailing_c) { STR(s); std::size_t n=s.size(); remove_trailing('x',s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(remove_trailing_s) { STR(s); std::size_t n=s.size(); remove_trailing(any_pred(),s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(remove_leading)    { BUF(b,n); std::size_t r=remove_leading(any_pred(),b,b+n); VP_CHECK(1,r<=n); vp_end(); }
DRV(remove_leading_c)  { STR(s); std::size_t n=s.size(); remove_leading('x',s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(remove_leading_s)  { STR(s); std::size_t n=s.size(); remove_leading(any_pred(),s); VP_CHECK(1,s.size()<=n); vp_end(); }
DRV(replace)           { BUF(b,n); replace('a','b',b,b+n); vp_end(); }
DRV(replace_s)         { STR(s); replace('a','b',s); vp_end(); }
DRV(replace_pattern)   { BUF(b,n); BUF(p,m); BUF(r,k); replace_pattern((const char*)b,(const char*)b+n,(const char*)p,(const char*)p+m,(const char*)r,(const char*)r+k,null_out<char>()); vp_end(); }
DRV(match)             { BUF(p,m); BUF(b,n); match(p,p+m,b,b+n,'*','?'); vp_end(); }
DRV(match_s)           { STR(p); STR(s); match(p,s); vp_end(); }
DRV(imatch)            { BUF(p,m); BUF(b,n); imatch(p,p+m,b,b+n); vp_end(); }
DRV(imatch_s)          { STR(p); STR(s); imatch(p,s); vp_end(); }
DRV(find_all)          { BUF(p,m); BUF(b,n); if (m==0) return; find_all(p,p+m,b,b+n,null_out<std::pair<char*,char*> >()); vp_end(); }
DRV(ifind_all)         { BUF(p,m); BUF(b,n); if (m==0) return; ifind_all(p,p+m,b,b+n,null_out<std::pair<char*,char*> >()); vp_end(); }
DRV(ifind)             { STR(p); STR(s); std::size_t r=ifind(p,s); if (r!=std::string::npos) VP_CHECK(1,r<=s.size()); vp_end(); }
DRV(index_of)          { STR(p); STR(s); std::size_t r=index_of(p,s); if (r!=std::string::npos) VP_CHECK(1,r<s.size()); vp_end(); }
DRV(begins_with)       { BUF(p,m); BUF(b,n); bool r=begins_with(p,p+m,b,b+n); if (r) VP_CHECK(1,m<=n); vp_end(); }
DRV(ibegins_with)      { BUF(p,m); BUF(b,n); bool r=ibegins_with(p,p+m,b,b+n); if (r) VP_CHECK(1,m<=n); vp_end(); }
DRV(ends_with)         { BUF(p,m); BUF(b,n); bool r=ends_with(p,p+m,b,b+n); if (r) VP_CHECK(1,m<=n); vp_end(); }
DRV(iends_with)        { BUF(p,m); BUF(b,n); bool r=iends_with(p,p+m,b,b+n); if (r) VP_CHECK(1,m<=n); vp_end(); }
DRV(begins_with_s)     { STR(p); STR(s); begins_with(p,s); ibegins_with(p,s); ends_with(p,s); iends_with(p,s); vp_end(); }
