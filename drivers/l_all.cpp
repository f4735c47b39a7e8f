// Translation unit for the rules over the type-checked program: instantiates the templates that index by character.
#include <deque>
#include "vp.h"
using namespace strtk;
template bool strtk::imatch<const char*>(const char*,const char*,const char*,const char*);
template bool strtk::imatch<std::string::const_iterator>(std::string::const_iterator,std::string::const_iterator,std::string::const_iterator,std::string::const_iterator);
void use_sinks(int& i,std::string& s,std::deque<std::string>& d,const char* b,const char* e,const util::value& v0,const bloom::filter& f0) {
  hex_to_number_sink<int> h(i); hex_to_number_sink<int> h2(h); h2=h; base64_to_number_sink<int> q(i); base64_to_number_sink<int> q2(q); q2=q;
  sink_type<std::deque<std::string> > k(d,",|"); k(d); util::value v(v0); v=v0; bloom::filter f(f0); f=f0;
  convert_to_lowercase(s); convert_to_uppercase(s); vp_use(imatch(s,s)); vp_use((std::size_t)first_non_repeated_char(b,e)); }
