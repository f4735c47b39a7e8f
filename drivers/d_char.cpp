// Byte-indexed tables: reads and writes stay inside the table for every character, and lookups mean the same for characters above 127
#include "vp.h"
using namespace strtk;
DRV(remove_duplicates_string) { STR(s); std::string r=remove_duplicates(s); vp_use(r.size()); vp_end(); }
DRV(imatch) { BUF(b,n); BUF(c,m); bool r=imatch(b,b+n,c,c+m); VP_CHECK(1,!r||n==m); vp_end(); }
DRV(translate_any) { STR(i); STR(o); translation_table t(i,o); char c=vp_char(); char w=t(c); vp_use((std::size_t)w); unsigned char u=(unsigned char)vp_char(); unsigned char q=t(u); vp_use(q); VP_CHECK(1,i.size()==o.size()); vp_end(); }
