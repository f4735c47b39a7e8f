// A string that is known only as a piece of the text expected: the expected text is a row of blocks of M elements each
// (for joins: an item and a delimiter), and a string holds the elements [a,b) of it. Appending checks that what is
// appended comes next. strtk.hpp is compiled with this class in the place of std::string.
#pragma once
#include "vp_std.h"
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <stdint.h>
#include <limits.h>
#include <boost/lexical_cast.hpp>
#include <boost/random.hpp>
#include <boost/regex.hpp>
extern "C" { void vp_fail(int) throw(); std::size_t vp_size() throw(); void vp_stop() throw() __attribute__((noreturn)); }
#define SCHECK(id,c) do { if (!(c)) vp_fail(id); } while (0)
#ifndef MOD
#define MOD 2
#endif
namespace std {
class mstring : public string { public:
  // lit: -1 elements [a,b), of which the last item is number last; 0..MOD-1: the fixed text at this place of every block
  long a,b,last; int lit;
  mstring():a(0),b(0),last(-1),lit(-1){}
  mstring(const mstring& o):string(),a(o.a),b(o.b),last(o.last),lit(o.lit){}
  mstring(const string& o):string(o),a(0),b(0),last(-1),lit(-1){}
  mstring(const char* p):string(p),a(0),b(0),last(-1),lit(-1){ SCHECK(90,*p==0); }
  mstring(const char* p,size_t n):string(p,n),a(0),b(0),last(-1),lit(-1){ SCHECK(91,n==0); }
  mstring(size_t n,char c):string(n,c),a(0),b(0),last(-1),lit(-1){ SCHECK(92,n==0); }
  template <typename It> mstring(It f,It l):string(f,l),a(0),b(0),last(-1),lit(-1){ SCHECK(93,f==l); }
  void take(const mstring& o){ a=o.a; b=o.b; last=o.last; lit=o.lit; }
  mstring& operator=(const mstring& o){ take(o); return *this; }
  mstring& assign(const mstring& o){ take(o); return *this; }
  template <typename A,typename B> mstring& assign(A x,B y){ string::assign(x,y); SCHECK(94,false); return *this; }
  void swap(mstring& o){ mstring t(o); o.take(*this); take(t); }
  mstring& append(const mstring& y){
    if (y.lit<0) {
      if (y.a==y.b) return *this;
      if (lit<0) { if (a==b) { take(y); return *this; } SCHECK(1,b==y.a); b=y.b; last=y.last; return *this; }
      SCHECK(2,y.a==MOD*y.last+lit+1); SCHECK(3,y.b==y.a+1); a=y.a-1; b=y.b; last=y.last; lit=-1; return *this; }
    if (lit>=0) { SCHECK(4,false); return *this; }
    if (a==b) { take(y); return *this; }
    if (y.lit==0) SCHECK(5,b==MOD*(last+1)); else SCHECK(6,b==MOD*last+y.lit);
    b=b+1; return *this; }
  mstring& operator+=(const mstring& y){ return append(y); }
  mstring& append(const char* p){ string::append(p); SCHECK(95,false); return *this; }
  mstring& operator+=(const char* p){ string::append(p); SCHECK(95,false); return *this; }
  mstring& operator+=(char c){ string::push_back(c); SCHECK(95,false); return *this; }
  void push_back(char c){ string::push_back(c); SCHECK(95,false); }
  template <typename A,typename B> mstring& append(A x,B y){ string::append(x,y); SCHECK(95,false); return *this; }
  void clear(){ a=b=0; last=-1; lit=-1; }
  void reserve(size_t=0){}
  bool empty() const { return lit<0 && a==b; }
  size_t size() const { return vp_size(); }
  size_t length() const { return vp_size(); }
  mstring substr(size_t i=0,size_t n=npos) const { SCHECK(96,false); return mstring(string::substr(i,n)); }
};
inline mstring operator+(const mstring& x,const mstring& y){ mstring r(x); r.append(y); return r; }
inline mstring operator+(const mstring& x,const char* y){ mstring r(x); r.append(y); return r; }
inline mstring operator+(const char* x,const mstring& y){ mstring r; r.append(x); r.append(y); return r; }
inline mstring operator+(const mstring& x,const string& y){ mstring r(x); r.append(mstring(y)); return r; }
}
#ifdef BEFORE_STRTK
#include BEFORE_STRTK
#endif
#define string mstring
#include "strtk.hpp"
#undef string
#include "vp.h"
