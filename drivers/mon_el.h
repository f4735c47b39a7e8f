// Element-level monitors: an iterator over symbolic elements.  A value is known only by the position it came
// from; a predicate gives one (arbitrary) answer per element; reads and moves are reported to an automaton.
#pragma once
#include "vp.h"
#include <iterator>
typedef const char* Q;
template <typename M> struct el { Q s; M* m; el(){} el(const el& o):s(o.s),m(o.m){} el& operator=(const el& o){ s=o.s; return *this; } }; // the monitor of a value never changes
template <typename M> struct eref { Q p; M* m; eref(Q a,M* b):p(a),m(b){} eref(const eref& o):p(o.p),m(o.m){}
  operator el<M>() const { m->read(p); el<M> v; v.s=p; v.m=m; return v; }
  const eref& operator=(const eref& o) const { m->read(o.p); m->copy(p,o.p); return *this; }
  eref& operator=(const eref& o) { m->read(o.p); m->copy(p,o.p); return *this; }
  const eref& operator=(const el<M>& o) const { m->copy(p,o.s); return *this; } };
template <typename M> inline bool operator==(const el<M>& a,const el<M>& b){ return a.m->same(a.s,b.s); }
template <typename M> inline bool operator!=(const el<M>& a,const el<M>& b){ return !a.m->same(a.s,b.s); }
template <typename M> inline bool operator==(const el<M>& a,const eref<M>& b){ b.m->read(b.p); return a.m->same(a.s,b.p); }
template <typename M> inline bool operator!=(const el<M>& a,const eref<M>& b){ b.m->read(b.p); return !a.m->same(a.s,b.p); }
template <typename M> inline bool operator==(const eref<M>& b,const el<M>& a){ b.m->read(b.p); return a.m->same(a.s,b.p); }
template <typename M> inline bool operator!=(const eref<M>& b,const el<M>& a){ b.m->read(b.p); return !a.m->same(a.s,b.p); }
template <typename M> inline bool operator==(const eref<M>& a,const eref<M>& b){ b.m->read(b.p); b.m->read(a.p); return a.m->same(a.p,b.p); }
template <typename M> inline bool operator!=(const eref<M>& a,const eref<M>& b){ b.m->read(b.p); b.m->read(a.p); return !a.m->same(a.p,b.p); }
template <typename M> struct eit { typedef std::random_access_iterator_tag iterator_category; typedef el<M> value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef eref<M> reference;
  Q p; M* m; eit(){} eit(Q a,M* b):p(a),m(b){}
  eref<M> operator*() const { return eref<M>(p,m); } eref<M> operator[](std::ptrdiff_t i) const { return eref<M>(p+i,m); }
  eit& operator++(){ ++p; return *this; } eit operator++(int){ eit t=*this; ++p; return t; } eit& operator--(){ --p; return *this; } eit operator--(int){ eit t=*this; --p; return t; }
  eit& operator+=(std::ptrdiff_t n){ p+=n; return *this; } eit& operator-=(std::ptrdiff_t n){ p-=n; return *this; }
  eit operator+(std::ptrdiff_t n) const { return eit(p+n,m); } eit operator-(std::ptrdiff_t n) const { return eit(p-n,m); } std::ptrdiff_t operator-(const eit& o) const { return p-o.p; }
  bool operator==(const eit& o) const { return p==o.p; } bool operator!=(const eit& o) const { return p!=o.p; } bool operator<(const eit& o) const { return p<o.p; } bool operator>(const eit& o) const { return p>o.p; } bool operator<=(const eit& o) const { return p<=o.p; } bool operator>=(const eit& o) const { return p>=o.p; } };
template <typename M> struct epred { M* m; epred(M* x):m(x){} bool operator()(const el<M>& v) const { return m->test(v.s); } };
