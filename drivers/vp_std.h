// Reference loop forms of the std algorithms the library may call with a caller-supplied predicate. They are
// more specialised than libstdc++'s unrolled versions, so a call such as std::find_if(p,q,pred) is analysed
// through a plain loop instead of a four-fold unrolled one.
#pragma once
#include <algorithm>
#include <utility>
namespace std {
  template <typename T,typename P> inline T* find_if(T* b,T* e,P p){ while (b!=e) { if (p(*b)) break; ++b; } return b; }
  template <typename T,typename P> inline T* find_if_not(T* b,T* e,P p){ while (b!=e) { if (!p(*b)) break; ++b; } return b; }
  template <typename T,typename P> inline ptrdiff_t count_if(T* b,T* e,P p){ ptrdiff_t n=0; while (b!=e) { if (p(*b)) ++n; ++b; } return n; }
  template <typename T,typename P> inline bool all_of(T* b,T* e,P p){ while (b!=e) { if (!p(*b)) return false; ++b; } return true; }
  template <typename T,typename P> inline bool any_of(T* b,T* e,P p){ while (b!=e) { if (p(*b)) return true; ++b; } return false; }
  template <typename T,typename P> inline bool none_of(T* b,T* e,P p){ while (b!=e) { if (p(*b)) return false; ++b; } return true; }
  template <typename T,typename U,typename P> inline bool equal(T* b,T* e,U* c,P p){ while (b!=e) { if (!p(*b,*c)) return false; ++b; ++c; } return true; }
}
