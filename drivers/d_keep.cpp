// in-place removal: exactly the right elements are kept, in their original order, and the count is right
#include "mon_el.h"
using namespace strtk;
// plain removal
struct rmv { Q b,e,nx,w,la,ps; int lr,pend;
  void init(Q x,Q y){ b=x; e=y; nx=w=b; la=b-1; ps=b; lr=0; pend=0; }
  void read(Q p){ VP_CHECK(30,b<=p && p<e); VP_CHECK(31,p>=w); }
  bool same(Q,Q){ return vp_bool(); }
  bool test(Q p){ if (p==la) return lr!=0; VP_CHECK(1,p==nx); VP_CHECK(2,!pend); la=p; nx=p+1; if (vp_bool()) { lr=1; return true; } lr=0; if (p==w) w=p+1; else { pend=1; ps=p; } return false; }
  void copy(Q d,Q s){ VP_CHECK(32,b<=d && d<e); if (d==s) return; VP_CHECK(3,pend!=0); VP_CHECK(4,s==ps); VP_CHECK(5,d==w); w=w+1; pend=0; }
  void done(std::size_t r){ VP_CHECK(6,nx==e); VP_CHECK(7,!pend); VP_CHECK(8,r==(std::size_t)(e-w)); } };
DRV(keep_remove) { BUF(b,n); rmv m; m.init(b,b+n); std::size_t r=remove_inplace(epred<rmv>(&m),eit<rmv>(b,&m),eit<rmv>(b+n,&m)); m.done(r); vp_end(); }
// collapse of runs: an element goes iff it and its predecessor both match
struct rmc { Q b,e,cur,lk,w; int lka,ca,moved,gap;  // answers: 0 no, 1 yes, 2 not asked
  void init(Q x,Q y){ b=x; e=y; lk=x; lka=2; cur=x+1; ca=2; moved=0; gap=0; w=x+1; }
  void read(Q p){ VP_CHECK(30,b<=p && p<e); VP_CHECK(31,p>=w-1); }
  bool same(Q,Q){ return vp_bool(); }
  void settle(){ // fate of cur
    VP_CHECK(1,ca!=2); if (ca==1) { VP_CHECK(2,lka!=2); }
    if (ca==0 || lka==0) { if (gap==0) w=w+1; else { VP_CHECK(3,moved==1); } lk=cur; lka=ca; } else { VP_CHECK(4,moved==0); gap=1; }
    cur=cur+1; ca=2; moved=0; }
  bool test(Q p){ if (p==lk) { if (lka==2) { if (vp_bool()) lka=1; else lka=0; } return lka!=0; }
    if (p==cur) { if (ca==2) { if (vp_bool()) ca=1; else ca=0; } return ca!=0; }
    VP_CHECK(5,p==cur+1); settle(); if (vp_bool()) ca=1; else ca=0; return ca!=0; }
  void copy(Q d,Q s){ VP_CHECK(32,b<=d && d<e); if (d==s) return; VP_CHECK(6,s==cur); VP_CHECK(7,d==w); VP_CHECK(8,moved==0); w=w+1; moved=1; }
  void done(std::size_t r){ if (cur!=e) { settle(); } VP_CHECK(9,cur==e); VP_CHECK(10,r==(std::size_t)(e-w)); } };
DRV(keep_consec_pred) { BUF(b,n); if (n==0) return; rmc m; m.init(b,b+n); std::size_t r=remove_consecutives_inplace(epred<rmc>(&m),eit<rmc>(b,&m),eit<rmc>(b+n,&m)); m.done(r); vp_end(); }
// collapse of equal runs: an element goes iff it equals the element kept last
struct rme { Q b,e,cur,lk,w; int ca,moved,gap;  
  void init(Q x,Q y){ b=x; e=y; lk=x; cur=x+1; ca=2; moved=0; gap=0; w=x+1; }
  void read(Q p){ VP_CHECK(30,b<=p && p<e); VP_CHECK(31,p>=w-1); }
  bool test(Q){ return vp_bool(); }
  void settle(){ VP_CHECK(1,ca!=2); if (ca==0) { if (gap==0) w=w+1; else { VP_CHECK(3,moved==1); } lk=cur; } else { VP_CHECK(4,moved==0); gap=1; } cur=cur+1; ca=2; moved=0; }
  bool same(Q q,Q p){ 
    if (p!=cur) { VP_CHECK(5,p==cur+1); settle(); }
    if (q==lk) { if (ca==2) { if (vp_bool()) ca=1; else ca=0; } return ca!=0; }
    VP_CHECK(6,false); return vp_bool(); }
  void copy(Q d,Q s){ VP_CHECK(32,b<=d && d<e); if (d==s) return; VP_CHECK(7,s==cur); VP_CHECK(8,d==w); VP_CHECK(9,moved==0); w=w+1; moved=1; }
  void done(std::size_t r){ if (cur!=e) settle(); VP_CHECK(10,cur==e); VP_CHECK(11,r==(std::size_t)(e-w)); } };
DRV(keep_consec_eq) { BUF(b,n); if (n==0) return; rme m; m.init(b,b+n); std::size_t r=remove_consecutives_inplace(eit<rme>(b,&m),eit<rme>(b+n,&m)); m.done(r); vp_end(); }
// leading
struct rml { Q b,e,nx,w,la; int lr; 
  void init(Q x,Q y){ b=x; e=y; nx=w=b; la=b-1; lr=1; }
  void read(Q p){ VP_CHECK(30,b<=p && p<e); VP_CHECK(31,p>=w); }
  bool same(Q,Q){ return vp_bool(); }
  bool test(Q p){ if (p==la) return lr!=0; VP_CHECK(1,p==nx); VP_CHECK(2,lr!=0); la=p; if (vp_bool()) { nx=p+1; return true; } lr=0; return false; }
  void copy(Q d,Q s){ VP_CHECK(32,b<=d && d<e); VP_CHECK(3,d==w); VP_CHECK(4,s-nx==w-b); w=w+1; }
  void done(std::size_t r){ VP_CHECK(6,nx==e || lr==0); VP_CHECK(7,r==(std::size_t)(nx-b)); if (nx!=b) VP_CHECK(8,e-w==nx-b); } };
DRV(keep_leading) { BUF(b,n); rml m; m.init(b,b+n); std::size_t r=remove_leading(epred<rml>(&m),eit<rml>(b,&m),eit<rml>(b+n,&m)); m.done(r); vp_end(); }
// trailing: the count is the length of the matching tail (the very first element is never counted)
struct rmt { Q b,e,nx,la; int lr; 
  void init(Q x,Q y){ b=x; e=y; nx=e; la=e; lr=1; }
  void read(Q p){ VP_CHECK(30,b<=p && p<e); }
  bool same(Q,Q){ return vp_bool(); }
  bool test(Q p){ if (p==la) return lr!=0; VP_CHECK(1,p==nx-1); VP_CHECK(2,lr!=0); la=p; if (vp_bool()) { nx=p; return true; } lr=0; return false; }
  void copy(Q,Q){ VP_CHECK(3,false); }
  void done(std::size_t r){ VP_CHECK(7,r==(std::size_t)(e-nx)); if (b!=e) VP_CHECK(6,nx-b<=1 || lr==0); } };
DRV(keep_trailing) { BUF(b,n); rmt m; m.init(b,b+n); std::size_t r=remove_trailing(epred<rmt>(&m),eit<rmt>(b,&m),eit<rmt>(b+n,&m)); m.done(r); vp_end(); }
