// items known by their place, and the containers holding the items 0..n-1
struct X { long k; X(long i):k(i){} X(const X& o):k(o.k){} bool operator<(const X& o) const { return k<o.k; } };
struct xit { typedef std::forward_iterator_tag iterator_category; typedef X value_type; typedef std::ptrdiff_t difference_type; typedef const X* pointer; typedef X reference; long k; xit():k(0){} explicit xit(long i):k(i){} xit(const xit& o):k(o.k){} xit& operator=(const xit& o){ k=o.k; return *this; }
  X operator*() const { return X(k); } xit& operator++(){ ++k; return *this; } xit operator++(int){ xit t(*this); ++k; return t; } bool operator==(const xit& o) const { return k==o.k; } bool operator!=(const xit& o) const { return k!=o.k; } };
struct xc { long n; typedef X value_type; typedef xit iterator; typedef xit const_iterator; explicit xc(long i):n(i){} xit begin() const { return xit(0); } xit end() const { return xit(n); } bool empty() const { return n==0; } std::size_t size() const { return (std::size_t)n; } };
namespace std { template<> class vector<X> : public xc { public: explicit vector(long n):xc(n){} }; template<> class deque<X> : public xc { public: explicit deque(long n):xc(n){} }; template<> class list<X> : public xc { public: explicit list(long n):xc(n){} };
 template<> class set<X> : public xc { public: explicit set(long n):xc(n){} }; template<> class multiset<X> : public xc { public: explicit multiset(long n):xc(n){} }; }
