#pragma once
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <cstddef>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <stdint.h>
#include <limits.h>
#include <boost/lexical_cast.hpp>
#include <boost/random.hpp>
#include <boost/regex.hpp>
namespace std {
class mstring : public string { public: char d[8]; size_t n;
  mstring():n(0){} mstring(const mstring& o):string(),n(o.n){ for (size_t i=0;i<8;++i) d[i]=o.d[i]; } mstring(const string& o):string(o),n(0){} mstring(const char* p):string(p),n(0){} mstring(const char* p,size_t k):string(p,k),n(0){} mstring(size_t k,char c):string(k,c),n(0){} template <typename It> mstring(It f,It l):string(f,l),n(0){}
  mstring& operator=(const mstring& o){ n=o.n; for (size_t i=0;i<8;++i) d[i]=o.d[i]; return *this; }
  void resize(size_t k,char c=0){ for (size_t i=n;i<k&&i<8;++i) d[i]=c; n=k; } size_t size() const { return n; } const char* data() const { return d; } const char* c_str() const { return d; } char& operator[](size_t i) { return d[i]; } const char& operator[](size_t i) const { return d[i]; } bool empty() const { return n==0; } };
inline mstring operator+(const mstring& x,const mstring& y){ return mstring((const string&)x+(const string&)y); }
inline mstring operator+(const mstring& x,const char* y){ return mstring((const string&)x+y); }
inline mstring operator+(const char* x,const mstring& y){ return mstring(x+(const string&)y); }
template <> class stack<pair<size_t,char*> > { public: typedef pair<size_t,char*> T; size_t v[4]; char* p[4]; size_t n; T t; stack():n(0){} bool empty() const { return n==0; } T& top() { t.first=v[n-1]; t.second=p[n-1]; return t; } void pop() { --n; } void push(const T& x) { v[n]=x.first; p[n]=x.second; ++n; } };
struct arr4 { typedef short value_type; typedef const short* const_iterator; typedef short* iterator; short d[4]; size_t n; arr4():n(0){} void push_back(short v) { d[n]=v; ++n; } void insert(short v) { push_back(v); } size_t size() const { return n; } void resize(size_t k) { n=k; } short& operator[](size_t i) { return d[i]; } const short& operator[](size_t i) const { return d[i]; } const short* begin() const { return d; } const short* end() const { return d+n; } void clear() { n=0; } };
template <> class vector<short> : public arr4 {}; template <> class deque<short> : public arr4 {}; template <> class list<short> : public arr4 {}; template <> class set<short> : public arr4 {}; template <> class multiset<short> : public arr4 {};
}
