// Text and stream forms of multi-value parsing: each forwards all its variables, in order, to the range form
// (decided by d_parse), which is replaced here by explicit specialisations that record how they were called.
#include "vp.h"
using namespace strtk;
template <int I> struct cap {};
struct rec { const char* b; const char* e; const std::string* d; int line; int calls; int res; int tail; };
static rec* G;
static inline bool call(const char* b,const char* e,const std::string& d,int tail) { VP_CHECK(10,G->calls==0); G->calls=1; VP_CHECK(11,&d==G->d); VP_CHECK(12,tail==G->tail);
  if (!G->line) { VP_CHECK(13,b==G->b); VP_CHECK(14,e==G->e); } else VP_CHECK(15,b!=e);
  int r=vp_bool()?1:0; G->res=r; return r!=0; }
#define STXT(t) STR(s_); const std::string& s=s_; STR(d_); const std::string& d=d_; rec g; g.b=s.data(); g.e=s.data()+s.size(); g.d=&d; g.line=0; g.calls=g.res=0; g.tail=t; G=&g;
#define LTXT(t) std::ifstream& f=*(std::ifstream*)vp_buf(sizeof(std::ifstream)); STR(d_); const std::string& d=d_; rec g; g.d=&d; g.line=1; g.calls=g.res=0; g.tail=t; G=&g;
namespace strtk { template<> inline bool parse<const char*,cap<1>>(const char* const b,const char* const e,const std::string& d,cap<1>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>>(const char* const b,const char* const e,const std::string& d,cap<1>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>>(char* const b,char* const e,const std::string& d,cap<1>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>>(char* const b,char* const e,const std::string& d,cap<1>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&,details::container_adder){ return call(b,e,d,1); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>,cap<12>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&,cap<12>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>,cap<12>>(char* const b,char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&,cap<12>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>,cap<12>,cap<13>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&,cap<12>&,cap<13>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>,cap<12>,cap<13>,cap<14>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&,cap<12>&,cap<13>&,cap<14>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>,cap<12>,cap<13>,cap<14>,cap<15>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&,cap<12>&,cap<13>&,cap<14>&,cap<15>&){ return call(b,e,d,0); } }
namespace strtk { template<> inline bool parse<const char*,cap<1>,cap<2>,cap<3>,cap<4>,cap<5>,cap<6>,cap<7>,cap<8>,cap<9>,cap<10>,cap<11>,cap<12>,cap<13>,cap<14>,cap<15>,cap<16>>(const char* const b,const char* const e,const std::string& d,cap<1>&,cap<2>&,cap<3>&,cap<4>&,cap<5>&,cap<6>&,cap<7>&,cap<8>&,cap<9>&,cap<10>&,cap<11>&,cap<12>&,cap<13>&,cap<14>&,cap<15>&,cap<16>&){ return call(b,e,d,0); } }
DRV(text_1) { cap<1> t1; STXT(0) bool r=parse(s,d,t1); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_1_tail) { cap<1> t1; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_1) { cap<1> t1; LTXT(0) int r=parse_line(f,d,t1)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_2) { cap<1> t1; cap<2> t2; STXT(0) bool r=parse(s,d,t1,t2); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_2_tail) { cap<1> t1; cap<2> t2; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_2) { cap<1> t1; cap<2> t2; LTXT(0) int r=parse_line(f,d,t1,t2)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_3) { cap<1> t1; cap<2> t2; cap<3> t3; STXT(0) bool r=parse(s,d,t1,t2,t3); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_3_tail) { cap<1> t1; cap<2> t2; cap<3> t3; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_3) { cap<1> t1; cap<2> t2; cap<3> t3; LTXT(0) int r=parse_line(f,d,t1,t2,t3)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_4) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; STXT(0) bool r=parse(s,d,t1,t2,t3,t4); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_4_tail) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,t4,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_4) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_5) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_5_tail) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,t4,t5,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_5) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4,t5)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_6) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_6_tail) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_6) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4,t5,t6)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_7) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_7_tail) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_7) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4,t5,t6,t7)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_8) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_8_tail) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_8) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4,t5,t6,t7,t8)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_9) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_9_tail) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_9) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4,t5,t6,t7,t8,t9)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_10) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_10_tail) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_10) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_11) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_11_tail) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; std::vector<int> c; STXT(1) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11,c); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_11) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_12) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; cap<12> t12; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11,t12); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(line_12) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; cap<12> t12; LTXT(0) int r=parse_line(f,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11,t12)?1:0; VP_CHECK(2,r==g.res); vp_end(); }
DRV(text_13) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; cap<12> t12; cap<13> t13; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11,t12,t13); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_14) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; cap<12> t12; cap<13> t13; cap<14> t14; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11,t12,t13,t14); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_15) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; cap<12> t12; cap<13> t13; cap<14> t14; cap<15> t15; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11,t12,t13,t14,t15); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
DRV(text_16) { cap<1> t1; cap<2> t2; cap<3> t3; cap<4> t4; cap<5> t5; cap<6> t6; cap<7> t7; cap<8> t8; cap<9> t9; cap<10> t10; cap<11> t11; cap<12> t12; cap<13> t13; cap<14> t14; cap<15> t15; cap<16> t16; STXT(0) bool r=parse(s,d,t1,t2,t3,t4,t5,t6,t7,t8,t9,t10,t11,t12,t13,t14,t15,t16); VP_CHECK(1,g.calls==1); VP_CHECK(2,r==(g.res!=0)); vp_end(); }
