// What the binary reader and writer move: the bytes of each value in the order asked for, and back. Shapes (number of
// elements, length of texts) are fixed per entry point, contents are arbitrary. Containers are replaced by classes of fixed
// capacity so that every byte can be followed; strtk.hpp is compiled with such a class in the place of std::string.
#define BEFORE_BITS "b_rw_model.h"
#include "bits.h"
typedef binary::reader RD; typedef binary::writer WR;
#define VAL(n,T) \
DRV(rd_##n) { in<sizeof(T)+2> x; RD r(x.b,sizeof(T)+2); char c; T v=0; r(c); vp_eq(r(v),1,1); vp_eq((U8)c,x.b[0],2); vp_eq(cut((U64)v,sizeof(T)),le(x.b+1,sizeof(T)),3); vp_eq(r(c),1,6); vp_eq((U8)c,x.b[sizeof(T)+1],4); vp_eq(r(c),0,5); vp_end(); } \
DRV(rbe_##n) { in<sizeof(T)> x; RD r(x.b,sizeof(T)); T v=0; vp_eq(r.be_to_native(v),1,1); vp_eq(cut((U64)v,sizeof(T)),be(x.b,sizeof(T)),2); vp_end(); } \
DRV(rle_##n) { in<sizeof(T)> x; RD r(x.b,sizeof(T)); T v=0; vp_eq(r.le_to_native(v),1,1); vp_eq(cut((U64)v,sizeof(T)),le(x.b,sizeof(T)),2); vp_end(); } \
DRV(wr_##n) { in<sizeof(T)> x; T v=(T)le(x.b,sizeof(T)); U8 o[sizeof(T)+2]={1,2}; o[sizeof(T)+1]=7; WR w(o,sizeof(T)+2); w((char)9); vp_eq(w(v),1,1); vp_eq(o[0],9,2); vp_eq(le(o+1,sizeof(T)),le(x.b,sizeof(T)),3); vp_eq(o[sizeof(T)+1],7,4); vp_end(); } \
DRV(wbe_##n) { in<sizeof(T)> x; T v=(T)le(x.b,sizeof(T)); U8 o[sizeof(T)]; WR w(o,sizeof(T)); vp_eq(w.native_to_be(v),1,1); vp_eq(be(o,sizeof(T)),le(x.b,sizeof(T)),2); vp_end(); } \
DRV(wle_##n) { in<sizeof(T)> x; T v=(T)le(x.b,sizeof(T)); U8 o[sizeof(T)]; WR w(o,sizeof(T)); vp_eq(w.native_to_le(v),1,1); vp_eq(le(o,sizeof(T)),le(x.b,sizeof(T)),2); vp_end(); }
VAL(u16,unsigned short) VAL(u32,unsigned int) VAL(u64,unsigned long long) VAL(s16,short) VAL(s32,int) VAL(s64,long long)
static inline void fill(std::mstring& s,int n) { s.resize(n); for (int i=0;i<n;++i) s[i]=(char)vp_in(8); }
static inline void same(const std::mstring& a,const std::mstring& b,int n) { vp_eq(a.size(),n,50); for (int i=0;i<n;++i) vp_eq((U8)a[i],(U8)b[i],51); }
template <typename S> static inline void fills(S& s,int n) { for (int i=0;i<n;++i) s.push_back((typename S::value_type)vp_in(16)); }
template <typename S> static inline void sames(const S& a,const S& b,int n) { vp_eq(a.size(),n,60); for (int i=0;i<n;++i) vp_eq((unsigned short)a.d[i],(unsigned short)b.d[i],61); }
// texts: length, then characters; the next value follows immediately
#define TEXT(N) DRV(text_##N) { std::mstring s,t; fill(s,N); int k=(int)vp_in(32),j=0; U8 o[N+8]; WR w(o,N+8); vp_eq(w(s),1,1); vp_eq(w(k),1,2); vp_eq(w.amount_written(),N+8,3); vp_eq(le(o,4),N,4); RD r(o,N+8); vp_eq(r(t),1,5); vp_eq(r(j),1,6); same(t,s,N); vp_eq((unsigned)j,(unsigned)k,7); vp_eq(r.amount_read(),N+8,8); vp_end(); }
TEXT(0) TEXT(1) TEXT(3)
#define SHORT(N) DRV(short_##N) { std::mstring s,t; fill(s,N); int k=(int)vp_in(32),j=0; U8 o[N+6]; WR w(o,N+6); binary::short_string ss; vp_eq(w(ss.set(s)),1,1); vp_eq(w(k),1,2); vp_eq(le(o,2),N,4); RD r(o,N+6); binary::short_string st; st.set(t); vp_eq(r(st),1,5); vp_eq(r(j),1,6); same(t,s,N); vp_eq((unsigned)j,(unsigned)k,7); vp_end(); } \
DRV(pascal_##N) { std::mstring s,t; fill(s,N); int k=(int)vp_in(32),j=0; U8 o[N+5]; WR w(o,N+5); binary::pascal_string ss; vp_eq(w(ss.set(s)),1,1); vp_eq(w(k),1,2); vp_eq(o[0],N,4); RD r(o,N+5); binary::pascal_string st; st.set(t); vp_eq(r(st),1,5); vp_eq(r(j),1,6); same(t,s,N); vp_eq((unsigned)j,(unsigned)k,7); vp_end(); }
SHORT(0) SHORT(1) SHORT(3)
#define SEQ(n,C,N) DRV(seq_##n##_##N) { std::C<short> a,b; fills(a,N); int k=(int)vp_in(32),j=0; U8 o[2*N+8]; WR w(o,2*N+8); vp_eq(w(a),1,1); vp_eq(w(k),1,2); vp_eq(le(o,4),N,4); vp_eq(w.amount_written(),2*N+8,3); RD r(o,2*N+8); vp_eq(r(b),1,5); vp_eq(r(j),1,6); sames(b,a,N); vp_eq((unsigned)j,(unsigned)k,7); vp_end(); }
SEQ(vector,vector,0) SEQ(vector,vector,3) SEQ(deque,deque,0) SEQ(deque,deque,3) SEQ(list,list,0) SEQ(list,list,3) SEQ(set,set,0) SEQ(set,set,3) SEQ(multiset,multiset,0) SEQ(multiset,multiset,3)
DRV(pair) { std::pair<short,int> p((short)vp_in(16),(int)vp_in(32)),q(0,0); U8 o[6]; WR w(o,6); vp_eq(w(p),1,1); RD r(o,6); vp_eq(r(q),1,2); vp_eq((unsigned short)p.first,(unsigned short)q.first,3); vp_eq((unsigned)p.second,(unsigned)q.second,4); vp_end(); }
DRV(array) { short a[3],b[3]={0,0,0}; for (int i=0;i<3;++i) a[i]=(short)vp_in(16); U8 o[7]; WR w(o,7); vp_eq(w(a),1,1); vp_eq(w('x'),1,2); RD r(o,7); char c=0; vp_eq(r(b),1,3); vp_eq(r(c),1,4); vp_eq((U8)c,'x',5); for (int i=0;i<3;++i) vp_eq((unsigned short)a[i],(unsigned short)b[i],6); vp_end(); }
#define PTR(n,L) DRV(ptr_##n) { short a[3]; for (int i=0;i<3;++i) a[i]=(short)vp_in(16); U8 o[11]; WR w(o,11); vp_eq(w((const short*)a,(L)3),1,1); vp_eq(w('x'),1,2); RD r(o,11); short* p=0; unsigned int n=0; char c=0; vp_eq(r(p,n),1,3); vp_eq(n,3,4); vp_eq(r(c),1,5); vp_eq((U8)c,'x',6); for (int i=0;i<3;++i) vp_eq((unsigned short)a[i],(unsigned short)p[i],7); delete [] p; vp_end(); }
PTR(u32,unsigned int) PTR(u64,unsigned long long) PTR(u16,unsigned short) PTR(u8,unsigned char)
DRV(ptr_nolen) { short a[3],b[3]={0,0,0}; for (int i=0;i<3;++i) a[i]=(short)vp_in(16); U8 o[7]; WR w(o,7); vp_eq(w((const short*)a,3u,false),1,1); vp_eq(w('x'),1,2); RD r(o,7); short* p=b; unsigned int n=3; char c=0; vp_eq(r(p,n,false),1,3); vp_eq(n,3,4); vp_eq(r(c),1,5); vp_eq((U8)c,'x',6); for (int i=0;i<3;++i) vp_eq((unsigned short)a[i],(unsigned short)b[i],7); vp_end(); }
// going back to a mark, to the start, and by a number of bytes
DRV(marks_r) { in<6> x; RD r(x.b,6); short a=0,b=0,c=0; r(a); r.mark(); r(b); vp_eq(r.reset_to_mark(),1,1); r(c); vp_eq((unsigned short)b,le(x.b+2,2),2); vp_eq((unsigned short)c,(unsigned short)b,3); vp_eq(r.reset_to_mark(),0,4); r.reset(); r(c); vp_eq((unsigned short)c,(unsigned short)a,5); vp_eq(r.amount_read(),2,6); vp_end(); }
DRV(marks_nest) { in<6> x; RD r(x.b,6); short a=0,b=0; char c=0; r.mark(); r(a); r.mark(); r(c); vp_eq(r.reset_to_mark(),1,1); r(b); vp_eq((unsigned short)b,le(x.b+2,2),2); vp_eq(r.reset_to_mark(),1,3); r(b); vp_eq((unsigned short)b,(unsigned short)a,4); vp_end(); }
DRV(marks_w) { in<6> x; U8 o[6]={0,0,0,0,0,0}; WR w(o,6); w((short)le(x.b,2)); w.mark(); w((short)le(x.b+2,2)); vp_eq(w.reset_to_mark(),1,1); w((short)le(x.b+4,2)); vp_eq(le(o,2),le(x.b,2),2); vp_eq(le(o+2,2),le(x.b+4,2),3); vp_eq(le(o+4,2),0,4); vp_eq(w.amount_written(),4,5); w.reset(true); vp_eq(le(o,6),0,6); vp_eq(w.amount_written(),0,7); vp_end(); }
DRV(moves) { in<6> x; RD r(x.b,6); short a=0; vp_eq(r.seek(3),1,1); r(a); vp_eq((unsigned short)a,le(x.b+3,2),2); vp_eq(r.rewind(4),1,3); r(a); vp_eq((unsigned short)a,le(x.b+1,2),4); vp_eq(r.seek(-1),1,5); r(a); vp_eq((unsigned short)a,le(x.b+2,2),6); vp_eq(r.seek(3),0,7); vp_eq(r.rewind(5),0,8); vp_eq(r.seek(2),1,9); vp_eq(r.amount_read(),6,10); vp_end(); }
// user types with the library's macros
struct rec { short a; std::mstring s; int b; strtk_binary_reader_begin() strtk_binary_reader(a) strtk_binary_reader(s) strtk_binary_reader(b) strtk_binary_reader_end()
 strtk_binary_writer_begin() strtk_binary_writer(a) strtk_binary_writer(s) strtk_binary_writer(b) strtk_binary_writer_end() };
DRV(record) { rec p,q; p.a=(short)vp_in(16); fill(p.s,2); p.b=(int)vp_in(32); q.a=0; q.b=0; U8 o[12]; WR w(o,12); vp_eq(w(p),1,1); RD r(o,12); vp_eq(r(q),1,2); vp_eq((unsigned short)q.a,(unsigned short)p.a,3); vp_eq((unsigned)q.b,(unsigned)p.b,4); same(q.s,p.s,2); vp_end(); }
