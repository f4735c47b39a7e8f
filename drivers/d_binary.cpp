// binary reader and writer over an exactly sized buffer, from any reachable position
#include "vp.h"
using namespace strtk;
typedef binary::reader RD; typedef binary::writer WR;
// the position is the number of bytes consumed, never beyond the buffer
#define RPOS(r) VP_CHECK(1,r.position()<=n); VP_CHECK(2,r.position_ptr()==b+r.position()); VP_CHECK(3,r.amount_read()==r.position())
#define WPOS(w) VP_CHECK(1,w.position()<=n); VP_CHECK(2,w.position_ptr()==b+w.position()); VP_CHECK(3,w.amount_written()==w.position())
#define READER BUF(b,n); RD r(b,n); while (vp_more()) r.seek(vp_int()); std::size_t p0=r.position(); VP_CHECK(1,p0<=n); VP_CHECK(2,r.position_ptr()==b+p0)
template <typename T> static inline void wadv(WR& w) { T t=T(); w(t); }
#define WRITER BUF(b,n); WR w(b,n); while (vp_more()) { if (vp_bool()) wadv<char>(w); else if (vp_bool()) w.reset(); else { unsigned int m=(unsigned int)vp_any(); if (m<=100000) { const char* z=vp_buf(m); w(z,m,false); } } } std::size_t p0=w.position(); VP_CHECK(1,p0<=n); VP_CHECK(2,w.position_ptr()==b+p0)
// fixed-size values: succeed exactly when they fit, advance by their size, change nothing otherwise
template <typename T> static inline void rpod(RD& r,char* b,std::size_t n,std::size_t p0) { T t=T(); bool ok=r(t); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+sizeof(T)); else { VP_CHECK(5,r.position()==p0); VP_CHECK(6,n-p0<sizeof(T)); } vp_end(); }
template <typename T> static inline void wpod(WR& w,char* b,std::size_t n,std::size_t p0) { T t=T(); bool ok=w(t); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+sizeof(T)); else { VP_CHECK(5,w.position()==p0); VP_CHECK(6,n-p0<sizeof(T)); } vp_end(); }
DRV(r_char) { READER; rpod<char>(r,b,n,p0); }
DRV(r_bool) { READER; rpod<bool>(r,b,n,p0); }
DRV(r_short){ READER; rpod<unsigned short>(r,b,n,p0); }
DRV(r_int)  { READER; rpod<int>(r,b,n,p0); }
DRV(r_ll)   { READER; rpod<unsigned long long>(r,b,n,p0); }
DRV(r_dbl)  { READER; rpod<double>(r,b,n,p0); }
DRV(r_flt)  { READER; rpod<float>(r,b,n,p0); }
DRV(w_char) { WRITER; wpod<char>(w,b,n,p0); }
DRV(w_bool) { WRITER; wpod<bool>(w,b,n,p0); }
DRV(w_short){ WRITER; wpod<unsigned short>(w,b,n,p0); }
DRV(w_int)  { WRITER; wpod<int>(w,b,n,p0); }
DRV(w_ll)   { WRITER; wpod<unsigned long long>(w,b,n,p0); }
DRV(w_dbl)  { WRITER; wpod<double>(w,b,n,p0); }
DRV(w_flt)  { WRITER; wpod<float>(w,b,n,p0); }
DRV(r_pair) { READER; std::pair<int,short> q; bool ok=r(q); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+6); vp_end(); }
DRV(w_pair) { WRITER; std::pair<int,short> q; bool ok=w(q); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+6); vp_end(); }
DRV(r_arr)  { READER; int a[5]; bool ok=r(a); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+20); else { VP_CHECK(5,r.position()==p0); VP_CHECK(6,n-p0<20); } vp_end(); }
DRV(w_arr)  { WRITER; int a[5]; bool ok=w(a); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+20); else { VP_CHECK(5,w.position()==p0); VP_CHECK(6,n-p0<20); } vp_end(); }
DRV(r_str)  { READER; STR(s); bool ok=r(s); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+4+s.size()); vp_end(); }
DRV(w_str)  { WRITER; STR(s); if (s.size()>0xFFFFFFFFu) return; bool ok=w(s); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+4+s.size()); else VP_CHECK(6,n-p0<4+s.size()); vp_end(); }
DRV(r_ptr)  { READER; unsigned int len=(unsigned int)vp_any(); int* d=(int*)vp_buf((std::size_t)len*4); bool ok=r(d,len,false); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+(std::size_t)len*4); else VP_CHECK(5,r.position()==p0); vp_end(); }
DRV(r_ptr_len)  { READER; unsigned int len=0; int* d=0; bool ok=r(d,len,true); RPOS(r); if (ok) VP_CHECK(4,r.position()>=p0+4); vp_end(); }
DRV(r_ptr64)  { READER; unsigned int l=(unsigned int)vp_any(); unsigned long long len=l; int* d=(int*)vp_buf((std::size_t)l*4); bool ok=r(d,len,false); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+(std::size_t)len*4); else VP_CHECK(5,r.position()==p0); vp_end(); }
DRV(w_ptr)  { WRITER; unsigned int len=(unsigned int)vp_any(); const int* d=(const int*)vp_buf((std::size_t)len*4); bool ok=w(d,len,false); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+(std::size_t)len*4); else VP_CHECK(5,w.position()==p0); vp_end(); }
DRV(w_ptr_len) { WRITER; unsigned int len=(unsigned int)vp_any(); const int* d=(const int*)vp_buf((std::size_t)len*4); bool ok=w(d,len,true); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+4+(std::size_t)len*4); vp_end(); }
DRV(w_ptr8) { WRITER; unsigned char len=(unsigned char)vp_any(); const int* d=(const int*)vp_buf((std::size_t)len*4); bool ok=w(d,len,false); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+(std::size_t)len*4); vp_end(); }
DRV(r_vec)  { READER; std::vector<int> v; bool ok=r(v); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+4+4*v.size()); vp_end(); }
DRV(w_vec)  { WRITER; unsigned int k=(unsigned int)vp_any(); std::vector<int> v(k); bool ok=w(v); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+4+4*(std::size_t)k); else { VP_CHECK(5,w.position()==p0); VP_CHECK(6,n-p0<4+4*(std::size_t)k); } vp_end(); }
DRV(r_vecs) { READER; std::vector<std::string> v; r(v); RPOS(r); vp_end(); }
struct el { int a; short c; bool operator()(WR& w) const { return w(a) && w(c); } bool operator()(RD& r) { return r(a) && r(c); } };
DRV(w_vecs) { WRITER; std::vector<el> v((unsigned int)vp_any()); w(v); WPOS(w); vp_end(); }
DRV(r_vece) { READER; std::vector<el> v; r(v); RPOS(r); vp_end(); }
DRV(r_deque){ READER; std::deque<int> v; r(v); RPOS(r); vp_end(); }
DRV(r_list) { READER; std::list<int> v; r(v); RPOS(r); vp_end(); }
DRV(r_set)  { READER; std::set<int> v; r(v); RPOS(r); vp_end(); }
DRV(r_mset) { READER; std::multiset<int> v; r(v); RPOS(r); vp_end(); }
DRV(r_field){ READER; int t; std::size_t z=vp_any(); bool ok=r(t,z); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+z); vp_end(); }
DRV(w_field){ WRITER; STR(t); std::size_t z=(unsigned int)vp_any(); bool ok=w(t,z,WR::right_padding); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+z); else VP_CHECK(5,w.position()==p0); vp_end(); }
DRV(w_fieldl){ WRITER; STR(t); std::size_t z=(unsigned int)vp_any(); bool ok=w(t,z,WR::left_padding,'0'); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+z); else VP_CHECK(5,w.position()==p0); vp_end(); }
DRV(r_rewind){ READER; std::size_t z=vp_size(); bool ok=r.rewind(z); RPOS(r); if (ok) { VP_CHECK(4,r.position()+z==p0); } else { VP_CHECK(5,r.position()==p0); VP_CHECK(6,z>p0); } vp_end(); }
DRV(r_seek_fwd)  { READER; int z=vp_int(); if (z<0) return; bool ok=r.seek(z); RPOS(r); if (ok) { VP_CHECK(4,r.position()==p0+z); } else { VP_CHECK(5,r.position()==p0); VP_CHECK(6,(std::size_t)z>n-p0); } vp_end(); }
DRV(r_seek_back)  { READER; int z=vp_int(); if (z>=0 || z==(-2147483647-1)) return; bool ok=r.seek(z); RPOS(r); std::size_t k=-z; if (ok) { VP_CHECK(4,r.position()+k==p0); } else { VP_CHECK(5,r.position()==p0); VP_CHECK(6,k>p0); } vp_end(); }
DRV(r_reset) { READER; bool c=vp_bool(); r.reset(c); RPOS(r); VP_CHECK(4,r.position()==0); vp_end(); }
DRV(w_reset) { WRITER; bool c=vp_bool(); w.reset(c); WPOS(w); VP_CHECK(4,w.position()==0); vp_end(); }
DRV(r_be) { READER; unsigned int t; bool ok=r.be_to_native(t); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+4); else VP_CHECK(5,r.position()==p0); vp_end(); }
DRV(r_le) { READER; unsigned short t; bool ok=r.le_to_native(t); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+2); else VP_CHECK(5,r.position()==p0); vp_end(); }
DRV(w_be) { WRITER; unsigned long long t=vp_any(); bool ok=w.native_to_be(t); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+8); else VP_CHECK(5,w.position()==p0); vp_end(); }
DRV(w_le) { WRITER; unsigned int t=vp_int(); bool ok=w.native_to_le(t); WPOS(w); if (ok) VP_CHECK(4,w.position()==p0+4); else VP_CHECK(5,w.position()==p0); vp_end(); }
DRV(r_short_string) { READER; STR(s); binary::short_string x(s); bool ok=x(r); RPOS(r); if (ok) VP_CHECK(4,r.position()==p0+2+s.size()); vp_end(); }
DRV(r_pascal) { READER; STR(s); binary::pascal_string x(s); bool ok=x(r); RPOS(r); if (ok) { VP_CHECK(4,r.position()==p0+1+s.size()); VP_CHECK(7,s.size()<=255); } vp_end(); }
DRV(w_short_string) { WRITER; STR(s); if (s.size()>65535u) { binary::short_string y(s); VP_CHECK(8,!y(w)); WPOS(w); return; } binary::short_string x(s); bool ok=x(w); WPOS(w); if (ok) { VP_CHECK(4,w.position()==p0+2+s.size()); VP_CHECK(7,s.size()<=65535); } else if (s.size()<=65535) VP_CHECK(6,n-p0<2+s.size()); vp_end(); }
DRV(w_pascal) { WRITER; STR(s); if (s.size()>255u) { binary::pascal_string y(s); VP_CHECK(8,!y(w)); WPOS(w); return; } binary::pascal_string x(s); bool ok=x(w); WPOS(w); if (ok) { VP_CHECK(4,w.position()==p0+1+s.size()); VP_CHECK(7,s.size()<=255); } else if (s.size()<=255) VP_CHECK(6,n-p0<1+s.size()); vp_end(); }
DRV(rw_mark) { READER; r.mark(); r.seek(vp_int()); vp_end(); }
DRV(ctor_int) { std::size_t k=vp_size(); int* b0=(int*)vp_buf(4*k); char* b=(char*)b0; std::size_t n=4*k; RD r(b0,k); double d; bool ok=r(d); RPOS(r); if (!ok) VP_CHECK(4,n<8); WR w(b0,k); ok=w(1.0); WPOS(w); if (!ok) VP_CHECK(5,n<8); vp_end(); }
