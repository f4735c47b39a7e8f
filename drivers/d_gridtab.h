// Stand-ins for the two tables of a token grid. The token table is a position only: element k is the k-th tagged
// token. The row table hands out the pair of the row asked for last, any pair of token positions for another row.
#pragma once
#include <deque>
#include <vector>
#include <list>
#include <set>
#include <queue>
#include <stack>
#include <string>
#include <utility>
#include <iterator>
#include <cstddef>
typedef const unsigned char* U_; typedef std::pair<U_,U_> R_; typedef std::pair<unsigned,unsigned> X_;
struct obs { const unsigned char* src; };
static void took(const obs&);
struct cont { std::size_t n; typedef obs value_type; typedef obs& reference; typedef const obs& const_reference; typedef std::size_t size_type; typedef obs* iterator; cont():n(0){}
  void push_back(const obs& v){ took(v); ++n; } void insert(const obs& v){ took(v); ++n; } void push(const obs& v){ took(v); ++n; } std::size_t size() const { return n; } obs* end(){ return 0; } obs* begin(){ return 0; } obs* insert(obs*,const obs& v){ took(v); ++n; return 0; } };
extern "C" { void vp_fail(int) throw(); std::size_t vp_size() throw(); void vp_stop() throw() __attribute__((noreturn)); }
#define GCHECK(id,c) do { if (!(c)) vp_fail(id); } while (0)
struct grid { R_ cell; std::size_t ck; int ch; std::size_t rows,toks; const unsigned char* tag; long cur,lk; std::size_t len; X_ x; };
static grid* T;
#ifdef GRID_LEN
static inline void newtok(std::size_t k);
static inline R_ tok(std::size_t k) { GCHECK(20,k<T->toks); if (T->lk!=(long)k) newtok(k); return R_(T->tag+k,T->tag+k+T->len); }
#else
static inline R_ tok(std::size_t k) { GCHECK(20,k<T->toks); return R_(T->tag+2*k,T->tag+2*k+1); }
#endif
static inline void fetch(std::size_t i);
static inline void cell(std::size_t k) { if (T->ch && T->ck==k) return; T->cell=tok(k); T->ck=k; T->ch=1; }
struct arrow_ { R_ r; const R_* operator->() const { return &r; } };
struct tit { typedef std::random_access_iterator_tag iterator_category; typedef R_ value_type; typedef std::ptrdiff_t difference_type; typedef const R_* pointer; typedef const R_& reference;
  std::size_t k; tit():k(0){} explicit tit(std::size_t j):k(j){}
  R_ operator*() const { return tok(k); } arrow_ operator->() const { arrow_ a={tok(k)}; return a; } R_ operator[](std::size_t j) const { return tok(k+j); }
  tit& operator++(){ ++k; return *this; } tit operator++(int){ tit t(k); ++k; return t; } tit& operator--(){ --k; return *this; } tit operator--(int){ tit t(k); --k; return t; }
  tit& operator+=(std::size_t j){ k+=j; return *this; } tit& operator-=(std::size_t j){ k-=j; return *this; } tit operator+(std::size_t j) const { return tit(k+j); } tit operator-(std::size_t j) const { return tit(k-j); }
  std::ptrdiff_t operator-(const tit& o) const { return (std::ptrdiff_t)(k-o.k); } bool operator==(const tit& o) const { return k==o.k; } bool operator!=(const tit& o) const { return k!=o.k; } bool operator<(const tit& o) const { return k<o.k; } bool operator<=(const tit& o) const { return k<=o.k; } bool operator>(const tit& o) const { return k>o.k; } bool operator>=(const tit& o) const { return k>=o.k; } };
struct xit { typedef std::random_access_iterator_tag iterator_category; typedef X_ value_type; typedef std::ptrdiff_t difference_type; typedef X_* pointer; typedef X_& reference;
  std::size_t i; xit():i(0){} explicit xit(std::size_t j):i(j){}
  X_& operator*() const { fetch(i); return T->x; } X_* operator->() const { fetch(i); return &T->x; } X_& operator[](std::size_t j) const { fetch(i+j); return T->x; }
  xit& operator++(){ ++i; return *this; } xit operator++(int){ xit t(i); ++i; return t; } xit& operator+=(std::size_t j){ i+=j; return *this; } xit operator+(std::size_t j) const { return xit(i+j); } xit operator-(std::size_t j) const { return xit(i-j); }
  std::ptrdiff_t operator-(const xit& o) const { return (std::ptrdiff_t)(i-o.i); } bool operator==(const xit& o) const { return i==o.i; } bool operator!=(const xit& o) const { return i!=o.i; } bool operator<(const xit& o) const { return i<o.i; } };
#ifndef GRID_OWN
namespace std {
  template<> class deque<R_,std::allocator<R_> > { public: typedef R_ value_type; typedef tit iterator; typedef tit const_iterator; typedef R_ reference; typedef R_ const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    tit begin() const { return tit(0); } tit end() const { return tit(T->toks); } std::size_t size() const { return T->toks; } bool empty() const { return T->toks==0; } R_& operator[](std::size_t k) { cell(k); return T->cell; } R_ operator[](std::size_t k) const { return tok(k); } R_ at(std::size_t k) const { return tok(k); }
    void clear(){} void push_back(const R_&){} void resize(std::size_t){} tit erase(tit b,tit){ return b; } tit erase(tit b){ return b; } };
  template<> class deque<X_,std::allocator<X_> > { public: typedef X_ value_type; typedef xit iterator; typedef xit const_iterator; typedef X_& reference; typedef const X_& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    xit begin() const { return xit(0); } xit end() const { return xit(T->rows); } std::size_t size() const { return T->rows; } bool empty() const { return T->rows==0; } X_& operator[](std::size_t i) const { fetch(i); return T->x; } X_& at(std::size_t i) const { fetch(i); return T->x; }
    void clear(){} void push_back(const X_&){} void resize(std::size_t){} xit erase(xit b,xit){ return b; } xit erase(xit b){ return b; } };
  template<> class vector<obs,std::allocator<obs> > : public cont {}; template<> class deque<obs,std::allocator<obs> > : public cont {}; template<> class list<obs,std::allocator<obs> > : public cont {};
  template<> class set<obs,std::less<obs>,std::allocator<obs> > : public cont {}; template<> class multiset<obs,std::less<obs>,std::allocator<obs> > : public cont {};
  template<> class queue<obs,std::deque<obs> > : public cont {}; template<> class stack<obs,std::deque<obs> > : public cont {}; template<> class priority_queue<obs,std::vector<obs>,std::less<obs> > : public cont {};
}
#endif
#include "vp.h"
