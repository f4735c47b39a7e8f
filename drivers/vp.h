// Intrinsics understood by the analysers. None of these is ever executed: the drivers are compiled to
// LLVM IR only, so that the strtk templates are instantiated and can be analysed.
#pragma once
#include "vp_std.h"
#include "strtk.hpp"
#include <cstddef>
extern "C" {
  char* vp_buf(std::size_t) throw();            // fresh memory block of exactly n bytes
  char* vp_cstr(std::size_t) throw();           // fresh zero-terminated string of length n
  std::size_t vp_size() throw();                // any object size
  unsigned long vp_any() throw();               // any 64-bit value
  int vp_int() throw();
  bool vp_bool() throw();
  bool vp_more() throw();                       // decides whether the driver goes round again (the loop needs no ranking function)
  void vp_stop() throw() __attribute__((noreturn)); // the driver does not look at this case
  char vp_char() throw();
  std::string* vp_str() throw();                // some valid std::string
  void vp_use(std::size_t) throw();             // keeps a value alive
  void vp_fail(int) throw();                    // must be unreachable
  void vp_end() throw();                        // must be reachable (non-vacuity)
  void vp_unroll(int) throw();                  // analyse the first n iterations of every loop of this driver separately
  void vp_watch(int id,const void*) throw();    // follow the byte at this address: nothing stored yet
  void vp_watch_in(int id,const void*,int) throw(); // follow the byte at this address: it holds this value (0..255)
  void vp_watch_locals(int id,std::size_t size,long at) throw(); // follow the byte at this offset of every local object of this size
  int vp_wget(int id) throw();                  // value of the followed byte, -1 while nothing was stored
  void vp_fill(const void*,std::size_t,long lo,long hi) throw(); // the n bytes at this address hold characters from lo to hi (as signed values)
  void vp_dump() throw();
}
#define VP_CHECK(id,c) do { if (!(c)) vp_fail(id); } while (0)
#define DRV(name) extern "C" void drv_##name()
#define BUF(b,n) std::size_t n = vp_size(); char* b = vp_buf(n)
#define UBUF(b,n) std::size_t n = vp_size(); unsigned char* b = (unsigned char*)vp_buf(n)
#define STR(s) std::string& s = *vp_str()
struct any_pred { template <typename T> bool operator()(const T&) const { return vp_bool(); } };
struct any_pred2 { template <typename T> bool operator()(const T&, const T&) const { return vp_bool(); } };
// output iterator that only accepts what it is given
template <typename T> struct null_out { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
  null_out& operator*(){return *this;} null_out& operator++(){return *this;} null_out operator++(int){return *this;} void operator=(const T&){} };
