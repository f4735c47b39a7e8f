// tokenisation: split in every mode
#include "mon_tok.h"
using namespace strtk;
template <int M> static inline void go(P b,std::size_t n,split_options::type o) { mon m; minit(m,b,b+n); std::size_t k=split(mpred<M>(&m),b,b+n,mout<M>(&m),o); VP_CHECK(14,k==m.n); done(&m); vp_end(); }
DRV(split_default)   { BUF(b,n); go<DEF>(b,n,split_options::default_mode); }
DRV(split_compress)  { BUF(b,n); go<COMP>(b,n,split_options::compress_delimiters); }
DRV(split_first)     { BUF(b,n); go<FIRST>(b,n,split_options::include_1st_delimiter); }
DRV(split_firstcomp) { BUF(b,n); go<FIRSTCOMP>(b,n,split_options::include_1st_delimiter+split_options::compress_delimiters); }
DRV(split_all)       { BUF(b,n); go<ALL>(b,n,split_options::include_all_delimiters); }
DRV(split_allcomp)   { BUF(b,n); go<ALL>(b,n,split_options::include_all_delimiters+split_options::compress_delimiters); }
DRV(split_range)     { BUF(b,n); mon m; minit(m,b,b+n); std::size_t k=split(mpred<DEF>(&m),R(b,b+n),mout<DEF>(&m)); VP_CHECK(14,k==m.n); done(&m); vp_end(); }
// split_n: the same tokens, but no more than the requested number, and it stops there
template <int M> static inline void gon(P b,std::size_t n,split_options::type o) { std::size_t k=vp_size(); if (k==0 || n==0) return; mon m; minit(m,b,b+n); std::size_t r=split_n(mpred<M>(&m),b,b+n,k,mout<M>(&m),o); VP_CHECK(14,r==m.n); VP_CHECK(15,r<=k); if (r<k) done(&m); vp_end(); }
DRV(split_n_none)      { BUF(b,n); mon m; minit(m,b,b+n); std::size_t r=split_n(mpred<DEF>(&m),(P)b,(P)b+n,0,mout<DEF>(&m)); VP_CHECK(14,r==0); VP_CHECK(15,m.n==0); r=split_n(mpred<DEF>(&m),(P)b,(P)b,n,mout<DEF>(&m)); VP_CHECK(16,r==0); VP_CHECK(17,m.n==0); vp_end(); }
DRV(split_n_default)   { BUF(b,n); gon<DEF>(b,n,split_options::default_mode); }
DRV(split_n_compress)  { BUF(b,n); gon<COMP>(b,n,split_options::compress_delimiters); }
DRV(split_n_first)     { BUF(b,n); gon<FIRST>(b,n,split_options::include_1st_delimiter); }
DRV(split_n_firstcomp) { BUF(b,n); gon<FIRSTCOMP>(b,n,split_options::include_1st_delimiter+split_options::compress_delimiters); }
// the iterator form
template <int M> static inline void goi(P b,std::size_t n,tokenize_options::type o) { mon m; minit(m,b,b+n); mpred<M> p(&m); typedef tokenizer<P,mpred<M> > T; T t(b,b+n,p,o); typename T::iterator i=t.begin(); while (i!=t.end()) { R r=*i; emit<M>(&m,r.first,r.second); ++i; } done(&m); vp_end(); }
DRV(tokenizer_default)   { BUF(b,n); goi<DEF>(b,n,tokenize_options::default_mode); }
DRV(tokenizer_compress)  { BUF(b,n); goi<COMP>(b,n,tokenize_options::compress_delimiters); }
DRV(tokenizer_first)     { BUF(b,n); goi<FIRST>(b,n,tokenize_options::include_1st_delimiter); }
DRV(tokenizer_firstcomp) { BUF(b,n); goi<FIRSTCOMP>(b,n,tokenize_options::include_1st_delimiter+tokenize_options::compress_delimiters); }
DRV(tokenizer_all)       { BUF(b,n); goi<ALL>(b,n,tokenize_options::include_all_delimiters); }
// given another text before, stepped with the other increments, through copies
template <int M> static inline void goa(P b,std::size_t n,tokenize_options::type o) { BUF(c,k); mon m; minit(m,c,c+k); mpred<M> p(&m); typedef tokenizer<P,mpred<M> > T; T t(c,c+k,p,o); minit(m,b,b+n); t.assign(b,b+n); typename T::iterator i=t.begin(); while (i!=t.end()) { R r=*i; emit<M>(&m,r.first,r.second); i++; } done(&m); vp_end(); }
template <int M> static inline void goc(P b,std::size_t n,tokenize_options::type o) { BUF(c,k); mon m0; minit(m0,c,c+k); mon m; minit(m,b,b+n); mpred<M> p(&m),p0(&m0); typedef tokenizer<P,mpred<M> > T; T t(b,b+n,p,o); T t2(t); typename T::iterator i=t2.begin(); typename T::iterator j(i); while (j!=t2.end()) { R r=*j; emit<M>(&m,r.first,r.second); j+=1; } done(&m); vp_end(); }
DRV(tokassign_default)   { BUF(b,n); goa<DEF>(b,n,tokenize_options::default_mode); }
DRV(tokassign_compress)  { BUF(b,n); goa<COMP>(b,n,tokenize_options::compress_delimiters); }
DRV(tokassign_first)     { BUF(b,n); goa<FIRST>(b,n,tokenize_options::include_1st_delimiter); }
DRV(tokassign_firstcomp) { BUF(b,n); goa<FIRSTCOMP>(b,n,tokenize_options::include_1st_delimiter+tokenize_options::compress_delimiters); }
DRV(tokassign_all)       { BUF(b,n); goa<ALL>(b,n,tokenize_options::include_all_delimiters); }
DRV(tokcopy_default)   { BUF(b,n); goc<DEF>(b,n,tokenize_options::default_mode); }
DRV(tokcopy_compress)  { BUF(b,n); goc<COMP>(b,n,tokenize_options::compress_delimiters); }
DRV(tokcopy_first)     { BUF(b,n); goc<FIRST>(b,n,tokenize_options::include_1st_delimiter); }
DRV(tokcopy_firstcomp) { BUF(b,n); goc<FIRSTCOMP>(b,n,tokenize_options::include_1st_delimiter+tokenize_options::compress_delimiters); }
DRV(tokcopy_all)       { BUF(b,n); goc<ALL>(b,n,tokenize_options::include_all_delimiters); }
// a whole string as text
template <int M> static inline void gos(tokenize_options::type o) { STR(s); const char* b=s.data(); std::size_t n=s.size(); mon m; minit(m,b,b+n); mpred<M> p(&m); typedef tokenizer<P,mpred<M> > T; T t(s,p,o); typename T::iterator i=t.begin(); while (i!=t.end()) { R r=*i; emit<M>(&m,r.first,r.second); ++i; } done(&m); vp_end(); }
DRV(tokstr_default)   { gos<DEF>(tokenize_options::default_mode); }
DRV(tokstr_compress)  { gos<COMP>(tokenize_options::compress_delimiters); }
template <int M> static inline void gosa(tokenize_options::type o) { STR(s); STR(u); mon m; minit(m,u.data(),u.data()+u.size()); mpred<M> p(&m); typedef tokenizer<P,mpred<M> > T; T t(u,p,o); const char* b=s.data(); std::size_t n=s.size(); minit(m,b,b+n); t.assign(s); typename T::iterator i=t.begin(); while (i!=t.end()) { R r=*i; emit<M>(&m,r.first,r.second); ++i; } done(&m); vp_end(); }
DRV(tokstrassign_default)   { gosa<DEF>(tokenize_options::default_mode); }
DRV(tokstrassign_firstcomp) { gosa<FIRSTCOMP>(tokenize_options::include_1st_delimiter+tokenize_options::compress_delimiters); }
