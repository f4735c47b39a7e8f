// Field conditions: which fields and tokens the filters, string conditions, ranges and trims accept, and what they store.
#include "vp.h"
using namespace strtk;
typedef const char* P; typedef const unsigned char* U;
#define ZONE(name,lo,hi) static inline long name() { long v=vp_int(); if (v<lo) vp_stop(); if (v>hi) vp_stop(); return v; }
ZONE(charv,-128,127) ZONE(posv,0,127) ZONE(plain,'A','Z')
#define FILLED(c) const long c=charv(); vp_fill(a,n,c,c); vp_fill(b,m,c,c)
#define PLAIN(c) const long c=plain(); vp_fill(a,n,c,c); vp_fill(b,m,c,c)
#define DIFF(u,v,i,j) vp_watch_in(10,a+i,(int)u); vp_watch_in(11,b+j,(int)v)
#define LESS(u,v) const long u=posv(); const long v=posv(); if (u>=v) vp_stop()
#define MORE(u,v) const long u=posv(); const long v=posv(); if (u<=v) vp_stop()
#define TWO(name,...) DRV(name##_less) { LESS(u,v); __VA_ARGS__ vp_end(); } DRV(name##_more) { MORE(u,v); __VA_ARGS__ vp_end(); }
#define AT(i,n) std::size_t i=vp_size(); if (i>=n) return
#define EQ(name,...) DRV(name##_equal) { BUF(a,n); char* b=vp_buf(n); const std::size_t m=n; __VA_ARGS__ vp_end(); }
#define SHORT(name,...) DRV(name##_shorter) { BUF(a,n); BUF(b,m); if (m>=n) return; __VA_ARGS__ vp_end(); }
#define LONG(name,...) DRV(name##_longer) { BUF(a,n); BUF(b,m); if (m<=n) return; __VA_ARGS__ vp_end(); }
#define SAMELEN BUF(a,n); char* b=vp_buf(n); const std::size_t m=n; AT(i,n); const std::size_t j=i; DIFF(u,v,i,j)
#define FITS BUF(a,n); BUF(b,m); AT(i,n); if (n>m) return
// conditions on a text: kind, and what each makes of equal, shorter, longer and different texts
#define NZ(kind) if (n==0) return;
#define COND(kind,e,s,l) \
 EQ(cond_##kind, NZ(kind) FILLED(c); std::string p(a,n); string_condition q(string_condition::kind,p); bool r=q((U)b,(U)b+m); VP_CHECK(1,r==e);) \
 SHORT(cond_##kind, FILLED(c); std::string p(a,n); string_condition q(string_condition::kind,p); bool r=q((U)b,(U)b+m); VP_CHECK(2,r==s);) \
 LONG(cond_##kind, FILLED(c); std::string p(a,n); string_condition q(string_condition::kind,p); bool r=q((U)b,(U)b+m); VP_CHECK(3,r==l);) \
 EQ(conds_##kind, NZ(kind) FILLED(c); std::string p(a,n); std::string t(b,m); string_condition q(string_condition::kind,p); bool r=q(t); VP_CHECK(1,r==e);)
#define CONDF(kind,e,s,l) \
 EQ(cond_##kind, PLAIN(c); std::string p(a,n); string_condition q(string_condition::kind,p); bool r=q((U)b,(U)b+m); VP_CHECK(1,r==e);) \
 SHORT(cond_##kind, PLAIN(c); std::string p(a,n); string_condition q(string_condition::kind,p); bool r=q((U)b,(U)b+m); VP_CHECK(2,r==s);) \
 LONG(cond_##kind, PLAIN(c); std::string p(a,n); string_condition q(string_condition::kind,p); bool r=q((U)b,(U)b+m); VP_CHECK(3,r==l);)
COND(within,true,false,true) COND(notwithin,false,true,false) COND(equal,true,false,false) COND(notequal,false,true,true) COND(begins_with,true,false,true) COND(ends_with,true,false,true)
CONDF(like,true,false,false)
#define CONDD(kind,x) TWO(cond_##kind##_diff, SAMELEN; std::string p(a,n); string_condition q(string_condition::kind,p); bool r=q((U)b,(U)b+m); VP_CHECK(4,r==x);)
CONDD(equal,false) CONDD(notequal,true) CONDD(begins_with,false) CONDD(ends_with,false) CONDD(within,false) CONDD(notwithin,true)
TWO(cond_begins_with_fits, FITS; DIFF(u,v,i,i); std::string p(a,n); string_condition q(string_condition::begins_with,p); bool r=q((U)b,(U)b+m); VP_CHECK(5,!r);)
TWO(cond_ends_with_fits, FITS; const std::size_t j=m-n+i; DIFF(u,v,i,j); std::string p(a,n); string_condition q(string_condition::ends_with,p); bool r=q((U)b,(U)b+m); VP_CHECK(5,!r);)
SHORT(cond_within_any, std::string p(a,n); string_condition q(string_condition::within,p); bool r=q((U)b,(U)b+m); VP_CHECK(6,!r);)
SHORT(cond_notwithin_any, std::string p(a,n); string_condition q(string_condition::notwithin,p); bool r=q((U)b,(U)b+m); VP_CHECK(6,r);)
// sizes
#define SIZES(form,N,rel,...) SIZES2(form,N,n rel N,!(n rel N),__VA_ARGS__)
#define SIZES2(form,N,y,no,...) \
 DRV(size_##form##_##N##_yes) { BUF(a,n); (void)a; if (!(y)) return; std::string s(a,n); __VA_ARGS__ VP_CHECK(1,p(a,a+n)); VP_CHECK(2,p(std::make_pair(a,a+n))); VP_CHECK(3,p(s)); vp_end(); } \
 DRV(size_##form##_##N##_no) { BUF(a,n); (void)a; if (!(no)) return; std::string s(a,n); __VA_ARGS__ VP_CHECK(1,!p(a,a+n)); VP_CHECK(2,!p(std::make_pair(a,a+n))); VP_CHECK(3,!p(s)); vp_end(); }
SIZES(equal_to,0,==,size_equal_to<0> p;) SIZES2(equal_to,7,n==7,n<7,size_equal_to<7> p;) SIZES2(equal_to,4,n==4,n>4,size_equal_to<4> p;) SIZES(less_than,7,<,size_less_than<7> p;) SIZES(greater_than,0,>,size_greater_than<0> p;) SIZES(greater_than,7,>,size_greater_than<7> p;)
DRV(size_even) { std::size_t k=vp_size(); if (k>1000000000) return; char* a=vp_buf(2*k); size_is_even e; size_is_odd o; std::string s(a,2*k); VP_CHECK(1,e(a,a+2*k)); VP_CHECK(2,!o(a,a+2*k)); VP_CHECK(3,e(std::make_pair(a,a+2*k))); VP_CHECK(4,!o(std::make_pair(a,a+2*k))); VP_CHECK(5,e(s)); VP_CHECK(6,!o(s)); vp_use(k); vp_end(); }
DRV(size_odd) { std::size_t k=vp_size(); if (k>1000000000) return; char* a=vp_buf(2*k+1); size_is_even e; size_is_odd o; std::string s(a,2*k+1); VP_CHECK(1,!e(a,a+2*k+1)); VP_CHECK(2,o(a,a+2*k+1)); VP_CHECK(3,!e(std::make_pair(a,a+2*k+1))); VP_CHECK(4,o(std::make_pair(a,a+2*k+1))); VP_CHECK(5,!e(s)); VP_CHECK(6,o(s)); vp_use(k); vp_end(); }
DRV(range_empty) { BUF(a,n); empty_range e; nonempty_range f; if (n==0) { VP_CHECK(1,e(a,a+n)); VP_CHECK(2,!f(a,a+n)); } else { VP_CHECK(3,!e(a,a+n)); VP_CHECK(4,f(a,a+n)); } vp_end(); }
// what a filter passes on: the very range or string it was given, once
struct seen { long calls; const char* b; const char* e; const std::string* s; }; static seen* G;
struct pass { void operator()(const std::pair<P,P>& r) const { ++G->calls; G->b=r.first; G->e=r.second; } void operator()(const std::pair<std::string::const_iterator,std::string::const_iterator>&) const { ++G->calls; } void operator()(const std::string& s) const { ++G->calls; G->s=&s; } };
struct out { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  out& operator*(){return *this;} out& operator++(){return *this;} out operator++(int){return *this;} void operator=(const std::pair<P,P>& r){ ++G->calls; G->b=r.first; G->e=r.second; } };
#define REC seen g={0,0,0,0}; G=&g
#define PASSED(x,y) VP_CHECK(1,g.calls==1); VP_CHECK(2,g.b==(x)); VP_CHECK(3,g.e==(y))
#define STOPPED VP_CHECK(4,g.calls==0)
DRV(filter_nonempty) { BUF(a,n); if (n==0) return; REC; filter_non_empty_range<out> f((out())); f(std::make_pair((P)a,(P)a+n)); PASSED(a,a+n); vp_end(); }
DRV(filter_empty) { BUF(a,n); if (n!=0) return; REC; filter_non_empty_range<out> f((out())); f(std::make_pair((P)a,(P)a+n)); STOPPED; vp_end(); }
// list of one word, text equal / shorter / longer / different in one place; with and without regard to case; matches passed or stopped
#define RANGE f(std::make_pair((P)b,(P)b+m));
#define STRNG std::string t(b,m); f(t);
#define ONE(ci,allow) std::string w[1]; w[0].assign(a,n); REC; filter_on_match<pass> f(w,w+1,pass(),ci,allow)
#define SPASSED VP_CHECK(1,g.calls==1); VP_CHECK(2,g.s==&t)
#define FOM(ci,nm) \
 EQ(filter_match_##nm, PLAIN(c); ONE(ci,true); RANGE PASSED(b,b+m);) EQ(filter_stop_##nm, PLAIN(c); ONE(ci,false); RANGE STOPPED;) \
 SHORT(filter_match_##nm, PLAIN(c); ONE(ci,true); RANGE STOPPED;) SHORT(filter_stop_##nm, PLAIN(c); ONE(ci,false); RANGE PASSED(b,b+m);) \
 LONG(filter_match_##nm, PLAIN(c); ONE(ci,true); RANGE STOPPED;) LONG(filter_stop_##nm, PLAIN(c); ONE(ci,false); RANGE PASSED(b,b+m);) \
 TWO(filter_match_##nm##_diff, if (u<'A'||u>'Z'||v<'A'||v>'Z') return; SAMELEN; ONE(ci,true); RANGE STOPPED;) TWO(filter_stop_##nm##_diff, if (u<'A'||u>'Z'||v<'A'||v>'Z') return; SAMELEN; ONE(ci,false); RANGE PASSED(b,b+m);) \
 EQ(filter_match_str_##nm, PLAIN(c); ONE(ci,true); STRNG SPASSED;) EQ(filter_stop_str_##nm, PLAIN(c); ONE(ci,false); STRNG STOPPED;) \
 SHORT(filter_match_str_##nm, PLAIN(c); ONE(ci,true); STRNG STOPPED;) SHORT(filter_stop_str_##nm, PLAIN(c); ONE(ci,false); STRNG SPASSED;) \
 LONG(filter_match_str_##nm, PLAIN(c); ONE(ci,true); STRNG STOPPED;) LONG(filter_stop_str_##nm, PLAIN(c); ONE(ci,false); STRNG SPASSED;) \
 TWO(filter_match_str_##nm##_diff, if (u<'A'||u>'Z'||v<'A'||v>'Z') return; SAMELEN; ONE(ci,true); STRNG STOPPED;) TWO(filter_stop_str_##nm##_diff, if (u<'A'||u>'Z'||v<'A'||v>'Z') return; SAMELEN; ONE(ci,false); STRNG SPASSED;)
FOM(false,exact) FOM(true,nocase)
// pattern filter: a pattern without wildcards matches exactly itself, "*" anything
#define WILD(allow) std::string p(a,n); REC; pass o; filter_on_wildcard_match<pass> f(p,o,allow)
#define WRANGE std::string t(b,m); const std::string& ct=t; f(std::make_pair(ct.begin(),ct.end()));
#define NPASSED VP_CHECK(1,g.calls==1)
#define FOW(nm,how,ok) \
 EQ(wild_match_##nm, PLAIN(c); WILD(true); how ok;) EQ(wild_stop_##nm, PLAIN(c); WILD(false); how STOPPED;) \
 SHORT(wild_match_##nm, PLAIN(c); WILD(true); how STOPPED;) SHORT(wild_stop_##nm, PLAIN(c); WILD(false); how ok;) \
 LONG(wild_match_##nm, PLAIN(c); WILD(true); how STOPPED;) LONG(wild_stop_##nm, PLAIN(c); WILD(false); how ok;) \
 DRV(wild_match_##nm##_star) { const std::size_t n=1; char* a=vp_buf(n); vp_fill(a,n,'*','*'); BUF(b,m); WILD(true); how ok; vp_end(); } \
 DRV(wild_stop_##nm##_star) { const std::size_t n=1; char* a=vp_buf(n); vp_fill(a,n,'*','*'); BUF(b,m); WILD(false); how STOPPED; vp_end(); }
FOW(str,STRNG,SPASSED) FOW(range,WRANGE,NPASSED)
EQ(like, PLAIN(c); std::string p(a,n); details::like_impl l=like(p); VP_CHECK(1,l((P)b,(P)b+m));) SHORT(like, PLAIN(c); std::string p(a,n); details::like_impl l=like(p); VP_CHECK(2,!l((P)b,(P)b+m));) LONG(like, PLAIN(c); std::string p(a,n); details::like_impl l=like(p); VP_CHECK(3,!l((P)b,(P)b+m));)
DRV(like_star) { const std::size_t n=1; char* a=vp_buf(n); vp_fill(a,n,'*','*'); BUF(b,m); std::string p(a,n); details::like_impl l=like(p); VP_CHECK(1,l((P)b,(P)b+m)); vp_end(); }
// between two bounds: values may compare with nothing
struct V { long v; bool odd; }; static bool* VOK; static long* VV; static bool* VODD;
inline bool operator<(const V& a,const V& b) { return !a.odd&&!b.odd&&a.v<b.v; } inline bool operator>(const V& a,const V& b) { return !a.odd&&!b.odd&&a.v>b.v; } inline bool operator<=(const V& a,const V& b) { return !a.odd&&!b.odd&&a.v<=b.v; } inline bool operator>=(const V& a,const V& b) { return !a.odd&&!b.odd&&a.v>=b.v; } inline bool operator==(const V& a,const V& b) { return !a.odd&&!b.odd&&a.v==b.v; } inline bool operator!=(const V& a,const V& b) { return !(a==b); }
struct V_tag {};
namespace strtk { namespace details { template<> struct supported_conversion_to_type<V> { typedef V_tag type; }; } }
template <typename Iterator> inline bool string_to_type_converter_impl(Iterator& i, const Iterator e, V& t, V_tag) { (void)i; (void)e; t.v=*VV; t.odd=*VODD; return *VOK; }
#define RNG(name,OK,ODD,cond,...) DRV(inrange_##name) { BUF(a,n); bool ok=OK, odd=ODD; long v=vp_int(), lo=vp_int(), hi=vp_int(); if (!(cond)) return; VOK=&ok; VODD=&odd; VV=&v; V t={777,false}; V l={lo,false}, h={hi,false}; details::inrange_impl<V> q=inrange(t,l,h); bool r=q((P)a,(P)a+n); __VA_ARGS__ vp_end(); }
RNG(inside,true,false,lo<=v&&v<=hi, VP_CHECK(1,r); VP_CHECK(2,t.v==v);) RNG(below,true,false,v<lo, VP_CHECK(3,!r); VP_CHECK(4,t.v==777);) RNG(above,true,false,v>hi, VP_CHECK(3,!r); VP_CHECK(4,t.v==777);)
RNG(bad,false,false,true, VP_CHECK(5,!r); VP_CHECK(6,t.v==777);) RNG(unordered,true,true,true, VP_CHECK(7,!r); VP_CHECK(8,t.v==777);)
// case: letters change, everything else stays, for every position
ZONE(zn,128,255) ZONE(z0,0,64) ZONE(z1,'A','Z') ZONE(z2,91,96) ZONE(z3,'a','z') ZONE(z4,123,127)
#define CASE1(z,lo,up) \
 DRV(as_lcase_##z) { BUF(a,n); AT(i,n); const long c=z(); vp_watch_in(10,a+i,(int)c); std::string s; details::conv_to_lcase_impl q=as_lcase(s); bool r=q((P)a,(P)a+n); VP_CHECK(1,r); VP_CHECK(2,s.size()==n); VP_CHECK(3,(unsigned char)s[i]==(lo)); vp_use(c); vp_end(); } \
 DRV(as_ucase_##z) { BUF(a,n); AT(i,n); const long c=z(); vp_watch_in(10,a+i,(int)c); std::string s; details::conv_to_ucase_impl q=as_ucase(s); bool r=q((P)a,(P)a+n); VP_CHECK(1,r); VP_CHECK(2,s.size()==n); VP_CHECK(3,(unsigned char)s[i]==(up)); vp_use(c); vp_end(); } \
 DRV(lcase_##z) { BUF(a,n); AT(i,n); const long c=z(); vp_watch_in(10,a+i,(int)c); convert_to_lowercase(a,a+n);  VP_CHECK(3,vp_wget(10)==(lo)); vp_use(c); vp_end(); } \
 DRV(lcase_u_##z) { BUF(a,n); AT(i,n); const long c=z(); vp_watch_in(10,a+i,(int)c); convert_to_lowercase((unsigned char*)a,(unsigned char*)a+n);  VP_CHECK(3,vp_wget(10)==(lo)); vp_use(c); vp_end(); } \
 DRV(ucase_##z) { BUF(a,n); AT(i,n); const long c=z(); vp_watch_in(10,a+i,(int)c); convert_to_uppercase(a,a+n);  VP_CHECK(3,vp_wget(10)==(up)); vp_use(c); vp_end(); } \
 DRV(ucase_u_##z) { BUF(a,n); AT(i,n); const long c=z(); vp_watch_in(10,a+i,(int)c); convert_to_uppercase((unsigned char*)a,(unsigned char*)a+n);  VP_CHECK(3,vp_wget(10)==(up)); vp_use(c); vp_end(); }
CASE1(zn,c,c) CASE1(z0,c,c) CASE1(z1,c+32,c) CASE1(z2,c,c) CASE1(z3,c,c-32) CASE1(z4,c,c)
// exactly as many bytes as the array has
DRV(fill_same) { BUF(a,n); AT(i,n); int v=vp_int(); if (v<0||v>255) return; vp_watch_in(10,a+i,v); char* d=vp_buf(n); vp_watch(11,d+i); bool r=fill_array((unsigned char*)d,n)((P)a,(P)a+n); VP_CHECK(1,r); VP_CHECK(2,vp_wget(11)==v); vp_end(); }
DRV(fill_same_char) { BUF(a,n); AT(i,n); int v=vp_int(); if (v<0||v>255) return; vp_watch_in(10,a+i,v); char* d=vp_buf(n); vp_watch(11,d+i); bool r=fill_array(d,n)((P)a,(P)a+n); VP_CHECK(1,r); VP_CHECK(2,vp_wget(11)==v); vp_end(); }
DRV(fill_less) { BUF(a,n); BUF(d,m); if (n>=m) return; AT(i,m); vp_watch(11,d+i); bool r=fill_array(d,m)((P)a,(P)a+n); VP_CHECK(1,!r); VP_CHECK(2,vp_wget(11)==-1); vp_end(); }
DRV(fill_more) { BUF(a,n); BUF(d,m); if (n<=m) return; AT(i,m); vp_watch(11,d+i); bool r=fill_array(d,m)((P)a,(P)a+n); VP_CHECK(1,!r); VP_CHECK(2,vp_wget(11)==-1); vp_end(); }
DRV(fill_set) { BUF(a,n); AT(i,n); int v=vp_int(); if (v<0||v>255) return; vp_watch_in(10,a+i,v); BUF(x,k); char* d=vp_buf(n); vp_watch(11,d+i); details::fill_array_impl q=fill_array(x,k); q.set(d,n); bool r=q((P)a,(P)a+n); VP_CHECK(1,r); VP_CHECK(2,vp_wget(11)==v); vp_end(); }
DRV(fill_set_data) { BUF(a,n); AT(i,n); int v=vp_int(); if (v<0||v>255) return; vp_watch_in(10,a+i,v); BUF(x,k); char* d=vp_buf(n); vp_watch(11,d+i); details::fill_array_impl q=fill_array(x,k); q.set_data(d).set_size(n); bool r=q((P)a,(P)a+n); VP_CHECK(1,r); VP_CHECK(2,vp_wget(11)==v); vp_end(); }
// skipping stops at the first element the test refuses
struct refuse { P at; bool operator()(const char& c) const { return &c!=at; } };
DRV(skip_stops) { BUF(a,n); AT(i,n); refuse t={a+i}; P it=a; skip_while_matching(it,(P)a+n,t); VP_CHECK(1,it==a+i); vp_end(); }
DRV(skip_all) { BUF(a,n); refuse t={0}; P it=a; skip_while_matching(it,(P)a+n,t); VP_CHECK(1,it==a+n); vp_end(); }
