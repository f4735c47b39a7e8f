// Maps from keys to variables: a key outside the table, or without a variable, is refused; key and value are only looked at
// inside their texts.
#include "vp.h"
using namespace strtk;
typedef unsigned char* U; typedef std::pair<U,U> R;
#define MAP keyvalue::uintkey_map::options o; o.pair_block_delimiter='|'; o.pair_delimiter='='; const std::size_t n=vp_size(); if (n>1000000) vp_stop(); o.key_count=n; keyvalue::uintkey_map m(o);
#define KV UBUF(k,kn); UBUF(v,vn); R kr(k,k+kn),vr(v,v+vn);
DRV(uint_none) { MAP KV bool r=m(kr,vr); vp_use(r); vp_end(); }
DRV(uint_reg) { MAP unsigned int i=(unsigned)vp_any(); int x=0; bool r=m.register_keyvalue(i,x); if (r) VP_CHECK(1,i<n); else VP_CHECK(2,i>=n); vp_end(); }
DRV(uint_used) { MAP KV unsigned int i=(unsigned)vp_any(); int x=0; m.register_keyvalue(i,x); bool r=m(kr,vr); vp_use(r); vp_end(); }
