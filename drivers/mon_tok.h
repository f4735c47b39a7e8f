// Tokenisation monitor: an automaton that is driven by the delimiter tests the code performs (each character
// has one fixed answer) and states which token ranges may be emitted, in order.
#pragma once
#include "vp.h"
typedef const char* P;
typedef std::pair<P,P> R;
enum { DEF, COMP, FIRST, FIRSTCOMP, ALL };
struct mon { P b,e; P nx,start; P la; int lr; P ps,pe; int pend; int lastd; int fin; std::size_t n; };
static inline void minit(mon& m,P b,P e){ m.b=b; m.e=e; m.nx=m.start=b; m.la=b-1; m.lr=0; m.n=0; m.ps=m.pe=b; m.pend=0; m.lastd=0; m.fin=0; }
template <int M> struct mpred { mon* m; mpred(mon* x):m(x){}
  bool operator()(const char& c) const { P a=&c; VP_CHECK(20,m->b<=a && a<m->e);
    if (a==m->la) return m->lr!=0;             // one answer per character
    VP_CHECK(21,a==m->nx);                     // characters are examined left to right
    bool r=vp_bool(); m->la=a; m->nx=a+1;
    if (r) { m->lr=1;
      if (M==DEF) { VP_CHECK(22,!m->pend); m->pend=1; m->ps=m->start; m->pe=a; m->start=a+1; }
      else if (M==FIRST) { VP_CHECK(22,!m->pend); m->pend=1; m->ps=m->start; m->pe=a+1; m->start=a+1; }
      else if (M==COMP) { if (!m->lastd) { VP_CHECK(22,!m->pend); m->pend=1; m->ps=m->start; m->pe=a; } m->start=a+1; }
      else if (M==FIRSTCOMP) { if (!m->lastd) { VP_CHECK(22,!m->pend); m->pend=1; m->ps=m->start; m->pe=a+1; } m->start=a+1; }
      m->lastd=1; return true; }
    m->lr=0; if (M==ALL && m->lastd) { VP_CHECK(22,!m->pend); m->pend=1; m->ps=m->start; m->pe=a; m->start=a; }
    m->lastd=0; return false; } };
template <int M> static inline void emit(mon* m,P f,P s) { m->n++;
  if (m->pend) { m->pend=0; VP_CHECK(1,f==m->ps); VP_CHECK(2,s==m->pe); return; }
  VP_CHECK(3,m->nx==m->e);
  if (M==ALL && m->lastd && m->fin==0) { VP_CHECK(4,f==m->start); VP_CHECK(5,s==m->e); m->start=m->e; m->fin=1; return; }
  VP_CHECK(6,f==m->start); VP_CHECK(7,s==m->e); VP_CHECK(8,m->fin!=2); m->fin=2; }
// all of a non-empty text has been turned into tokens
static inline void done(mon* m) { if (m->b!=m->e) { VP_CHECK(10,m->nx==m->e); VP_CHECK(11,!m->pend); VP_CHECK(12,m->fin==2); } else VP_CHECK(13,m->n==0); }
// every token goes to the next position of the output
template <int M> struct mout { mon* m; std::size_t p; mout(mon* x):m(x),p(x->n){} mout(const mout& o):m(o.m),p(o.p){} mout& operator=(const mout& o){ m=o.m; p=o.p; return *this; } typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  mout& operator*(){return *this;} mout& operator++(){ ++p; return *this;} mout operator++(int){ mout t(*this); ++p; return t;}
  void operator=(const R& r){ VP_CHECK(30,p==m->n); emit<M>(m,r.first,r.second); } };
