// offset splitting, pair splitting, text encodings, case conversion
#include "mon_tok.h"
using namespace strtk;
// ---- offset splitting: token i starts where token i-1 ended and has the i-th offset's length, the last one is cut at the end
struct omon { P b,e,nx; int ask; int cutoff; long len; std::size_t n; void init(P x,P y){ b=nx=x; e=y; ask=0; cutoff=0; len=0; n=0; } };
struct opred { omon* m; opred(omon* x):m(x){} bool operator!() const { return false; } void reset() const {} std::size_t size() const { return 0; }
  int next() const { VP_CHECK(1,m->ask==0); VP_CHECK(2,m->nx!=m->e); VP_CHECK(8,m->cutoff==0); int r=vp_int(); if (r>0) { m->ask=1; m->len=r; } else m->cutoff=1; return r; } };
struct oout { omon* m; std::size_t p; oout(omon* x):m(x),p(x->n){} oout(const oout& o):m(o.m),p(o.p){} oout& operator=(const oout& o){ m=o.m; p=o.p; return *this; } typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  oout& operator*(){return *this;} oout& operator++(){ ++p; return *this;} oout operator++(int){ oout t(*this); ++p; return t;}
  void operator=(const R& r){ VP_CHECK(30,p==m->n); VP_CHECK(3,m->ask==1); m->ask=0; VP_CHECK(4,r.first==m->nx); long left=m->e-m->nx; if (m->len<left) VP_CHECK(5,r.second-r.first==m->len); else VP_CHECK(6,r.second==m->e); m->nx=r.second; m->n++; } };
DRV(offset_split) { BUF(b,n); omon m; m.init(b,b+n); std::size_t k=offset_splitter((P)b,(P)b+n,opred(&m),oout(&m)); VP_CHECK(7,k==m.n); VP_CHECK(9,m.ask==0); if (n!=0) VP_CHECK(10,m.nx==m.e || m.cutoff==1); vp_end(); }
DRV(offset_split_lib) { BUF(b,n); int a=vp_int(),c=vp_int(),d=vp_int(); std::size_t k=offset_splitter((P)b,(P)b+n,offsets(a,c,d),null_out<R>()); vp_use(k); vp_end(); }
DRV(offset_split_rot) { BUF(b,n); int a=vp_int(),c=vp_int(); std::size_t k=offset_splitter((P)b,(P)b+n,offsets(a,c,true),null_out<R>()); vp_use(k); vp_end(); }
// the library's own offset lists: entry i first, then entry i+1, ...; after the last one nothing, or from the start again
#define GIVES(k) VP_CHECK(20+k,p.next()==v##k);
DRV(offset_list_1) { int v1=vp_int(); offset_predicate<1> p=offsets(v1); VP_CHECK(11,p.size()==1); VP_CHECK(12,!!p); GIVES(1) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_1) { int v1=vp_int(); offset_predicate<1> p=offsets(v1,true); GIVES(1) GIVES(1) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_2) { int v1=vp_int(),v2=vp_int(); offset_predicate<2> p=offsets(v1,v2); VP_CHECK(11,p.size()==2); VP_CHECK(12,!!p); GIVES(1) GIVES(2) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_2) { int v1=vp_int(),v2=vp_int(); offset_predicate<2> p=offsets(v1,v2,true); GIVES(1) GIVES(2) GIVES(1) GIVES(2) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_3) { int v1=vp_int(),v2=vp_int(),v3=vp_int(); offset_predicate<3> p=offsets(v1,v2,v3); VP_CHECK(11,p.size()==3); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_3) { int v1=vp_int(),v2=vp_int(),v3=vp_int(); offset_predicate<3> p=offsets(v1,v2,v3,true); GIVES(1) GIVES(2) GIVES(3) GIVES(1) GIVES(2) GIVES(3) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_4) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(); offset_predicate<4> p=offsets(v1,v2,v3,v4); VP_CHECK(11,p.size()==4); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_4) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(); offset_predicate<4> p=offsets(v1,v2,v3,v4,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(1) GIVES(2) GIVES(3) GIVES(4) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_5) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(); offset_predicate<5> p=offsets(v1,v2,v3,v4,v5); VP_CHECK(11,p.size()==5); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_5) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(); offset_predicate<5> p=offsets(v1,v2,v3,v4,v5,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_6) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(); offset_predicate<6> p=offsets(v1,v2,v3,v4,v5,v6); VP_CHECK(11,p.size()==6); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_6) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(); offset_predicate<6> p=offsets(v1,v2,v3,v4,v5,v6,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_7) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(); offset_predicate<7> p=offsets(v1,v2,v3,v4,v5,v6,v7); VP_CHECK(11,p.size()==7); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_7) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(); offset_predicate<7> p=offsets(v1,v2,v3,v4,v5,v6,v7,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_8) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(); offset_predicate<8> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8); VP_CHECK(11,p.size()==8); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_8) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(); offset_predicate<8> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_9) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(),v9=vp_int(); offset_predicate<9> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,v9); VP_CHECK(11,p.size()==9); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_9) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(),v9=vp_int(); offset_predicate<9> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,v9,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_10) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(),v9=vp_int(),v10=vp_int(); offset_predicate<10> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,v9,v10); VP_CHECK(11,p.size()==10); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_10) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(),v9=vp_int(),v10=vp_int(); offset_predicate<10> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,v9,v10,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_11) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(),v9=vp_int(),v10=vp_int(),v11=vp_int(); offset_predicate<11> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,v9,v10,v11); VP_CHECK(11,p.size()==11); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) GIVES(11) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_11) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(),v9=vp_int(),v10=vp_int(),v11=vp_int(); offset_predicate<11> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,v9,v10,v11,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) GIVES(11) GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) GIVES(11) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_list_12) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(),v9=vp_int(),v10=vp_int(),v11=vp_int(),v12=vp_int(); offset_predicate<12> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,v9,v10,v11,v12); VP_CHECK(11,p.size()==12); VP_CHECK(12,!!p); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) GIVES(11) GIVES(12) VP_CHECK(13,p.next()<=0); VP_CHECK(13,p.next()<=0); vp_end(); }
DRV(offset_ring_12) { int v1=vp_int(),v2=vp_int(),v3=vp_int(),v4=vp_int(),v5=vp_int(),v6=vp_int(),v7=vp_int(),v8=vp_int(),v9=vp_int(),v10=vp_int(),v11=vp_int(),v12=vp_int(); offset_predicate<12> p=offsets(v1,v2,v3,v4,v5,v6,v7,v8,v9,v10,v11,v12,true); GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) GIVES(11) GIVES(12) GIVES(1) GIVES(2) GIVES(3) GIVES(4) GIVES(5) GIVES(6) GIVES(7) GIVES(8) GIVES(9) GIVES(10) GIVES(11) GIVES(12) VP_CHECK(14,p.next()==v1); p.reset(); VP_CHECK(15,p.next()==v1); vp_end(); }
DRV(offset_split_str) { STR(s_); const std::string& s=s_; omon m; m.init(s.data(),s.data()+s.size()); std::size_t k=offset_splitter(s,opred(&m),oout(&m)); VP_CHECK(7,k==m.n); VP_CHECK(9,m.ask==0); if (s.size()!=0) VP_CHECK(10,m.nx==m.e || m.cutoff==1); vp_end(); }
// ---- split_pair: cut at the first delimiter; true only if text follows it
DRV(split_pair) { BUF(b,n); mon m; minit(m,b,b+n); R x(b,b),y(b,b); bool r=split_pair((P)b,(P)b+n,mpred<DEF>(&m),x,y);
  if (n==0) { VP_CHECK(1,!r); vp_end(); return; }
  if (r) { VP_CHECK(2,m.pend==1); VP_CHECK(3,x.first==m.ps); VP_CHECK(4,x.second==m.pe); VP_CHECK(5,y.first==m.nx); VP_CHECK(6,y.second==m.e); VP_CHECK(7,y.first!=y.second); }
  else { VP_CHECK(8,m.nx==m.e); VP_CHECK(9,y.first==y.second); } vp_end(); }
DRV(split_pair_c) { STR(s); R x,y; bool r=split_pair('x',s,x,y); if (r) { VP_CHECK(1,x.first==s.data()); VP_CHECK(2,y.second==s.data()+s.size()); VP_CHECK(3,x.second+1==y.first); VP_CHECK(4,x.first<=x.second); VP_CHECK(5,y.first<y.second); } vp_end(); }
DRV(split_pair_p) { STR(s); R x,y; bool r=split_pair(any_pred(),s,x,y); if (r) { VP_CHECK(1,x.first==s.data()); VP_CHECK(2,y.second==s.data()+s.size()); VP_CHECK(3,x.second+1==y.first); VP_CHECK(4,x.first<=x.second); VP_CHECK(5,y.first<y.second); } vp_end(); }
// ---- duplicates count
DRV(count_dups) { BUF(b,n); if (n==0) return; std::size_t r=count_consecutive_duplicates(b,b+n); VP_CHECK(1,r<n); vp_end(); }
DRV(count_dups0) { BUF(b,n); std::size_t r=count_consecutive_duplicates(b,b); VP_CHECK(2,r==0); vp_end(); }
// ---- find_all: occurrences reported in order, without overlap, inside the data, with the pattern's length
struct fmon { P e; long pl; P nx; std::size_t n; };
struct fout { fmon* m; std::size_t p; fout(fmon* x):m(x),p(x->n){} fout(const fout& o):m(o.m),p(o.p){} fout& operator=(const fout& o){ m=o.m; p=o.p; return *this; } typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  fout& operator*(){return *this;} fout& operator++(){ ++p; return *this;} fout operator++(int){ fout t(*this); ++p; return t;}
  void operator=(const std::pair<char*,char*>& r){ VP_CHECK(30,p==m->n); VP_CHECK(1,r.first>=m->nx); VP_CHECK(2,r.second-r.first==m->pl); VP_CHECK(3,r.second<=m->e); m->nx=r.second; m->n++; } };
DRV(find_all)  { BUF(p,k); BUF(b,n); if (k==0) return; fmon m; m.e=b+n; m.pl=k; m.nx=b; m.n=0; std::size_t r=find_all(p,p+k,b,b+n,fout(&m)); VP_CHECK(4,r==m.n); vp_end(); }
DRV(ifind_all) { BUF(p,k); BUF(b,n); if (k==0) return; fmon m; m.e=b+n; m.pl=k; m.nx=b; m.n=0; std::size_t r=ifind_all(p,p+k,b,b+n,fout(&m)); VP_CHECK(4,r==m.n); vp_end(); }
// ---- hexadecimal
DRV(hex_enc)   { std::size_t n=vp_size(); unsigned char* b=(unsigned char*)vp_buf(n); unsigned char* o=(unsigned char*)vp_buf(2*n); convert_bin_to_hex(b,b+n,o); vp_end(); }
DRV(hex_enc_c) { std::size_t n=vp_size(); char* b=vp_buf(n); char* o=vp_buf(2*n); convert_bin_to_hex(b,b+n,o); vp_end(); }
DRV(hex_enc_s) { STR(s); STR(o); convert_bin_to_hex(s,o); VP_CHECK(1,o.size()==2*s.size()); vp_end(); }
DRV(hex_enc_v) { STR(s); std::string o=convert_bin_to_hex(s); VP_CHECK(1,o.size()==2*s.size()); vp_end(); }
DRV(hex_dec)   { std::size_t h=vp_size(); unsigned char* b=(unsigned char*)vp_buf(2*h); unsigned char* o=(unsigned char*)vp_buf(h); bool r=convert_hex_to_bin(b,b+2*h,o); if (h!=0) VP_CHECK(1,r); else VP_CHECK(2,!r); vp_end(); }
DRV(hex_dec_odd){ std::size_t h=vp_size(); unsigned char* b=(unsigned char*)vp_buf(2*h+1); unsigned char* o=(unsigned char*)vp_buf(0); bool r=convert_hex_to_bin(b,b+2*h+1,o); VP_CHECK(1,!r); vp_end(); }
DRV(hex_dec_s) { STR(s); STR(o); bool r=convert_hex_to_bin(s,o); if (r) VP_CHECK(1,2*o.size()==s.size()); vp_end(); }
// ---- base64
DRV(b64_enc)   { std::size_t n=vp_size(); std::size_t q=(n+2)/3; unsigned char* b=(unsigned char*)vp_buf(n); unsigned char* o=(unsigned char*)vp_buf(4*q); std::size_t r=convert_bin_to_base64(b,b+n,o); VP_CHECK(1,r==4*q); vp_use(q); vp_end(); }
DRV(b64_enc_s) { STR(s); STR(o); convert_bin_to_base64(s,o); VP_CHECK(1,3*o.size()>=4*s.size()); VP_CHECK(2,3*o.size()<=4*s.size()+8); vp_end(); }
DRV(b64_dec)   { std::size_t n=vp_size(); std::size_t q=n/4; unsigned char* b=(unsigned char*)vp_buf(4*q); unsigned char* o=(unsigned char*)vp_buf(3*q); std::size_t r=convert_base64_to_bin(b,b+4*q,o); VP_CHECK(1,r<=3*q); VP_CHECK(2,r+2>=3*q); vp_use(q); vp_end(); }
DRV(b64_dec_s) { STR(s); STR(o); convert_base64_to_bin(s,o); VP_CHECK(1,o.size()<=s.size()); vp_end(); }
// ---- in-place character conversions
DRV(printable)   { UBUF(b,n); convert_to_printable_chars(b,b+n); vp_end(); }
DRV(printable_c) { BUF(b,n); convert_to_printable_chars(b,b+n); vp_end(); }
DRV(printable_s) { STR(s); convert_to_printable_chars(s); vp_end(); }
DRV(upper)   { UBUF(b,n); convert_to_uppercase(b,b+n); vp_end(); }
DRV(upper_s) { STR(s); std::size_t n=s.size(); convert_to_uppercase(s); VP_CHECK(1,s.size()==n); std::string t=as_uppercase(s); VP_CHECK(2,t.size()==s.size()); vp_end(); }
DRV(lower)   { UBUF(b,n); convert_to_lowercase(b,b+n); vp_end(); }
DRV(lower_s) { STR(s); std::size_t n=s.size(); convert_to_lowercase(s); VP_CHECK(1,s.size()==n); std::string t=as_lowercase(s); VP_CHECK(2,t.size()==s.size()); vp_end(); }
