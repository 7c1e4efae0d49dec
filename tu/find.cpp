// Instantiates find_last and starts_with for the deductive engine. Nothing here is code under test.
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <iterator>
#include <string_view>
#include <utility>
#include "uri/find_last.hpp"
#include "uri/starts_with.hpp"

namespace verif {
struct Proj {  // no body: an arbitrary function of the element
  int operator() (char const& c) const;
};
struct Proj2 {
  int operator() (char const& c) const;
};
struct Pred {  // no body: an arbitrary relation
  bool operator() (int a, int b) const;
};
template <bool Bidirectional> struct Iter {  // nothing but the operations its concept asks for
  using value_type = char;
  using difference_type = std::ptrdiff_t;
  using reference = char const&;
  using pointer = char const*;
  using iterator_category = std::conditional_t<Bidirectional, std::bidirectional_iterator_tag, std::forward_iterator_tag>;
  char const* p;
  char const& operator* () const { return *p; }
  Iter& operator++ () { ++p; return *this; }
  Iter operator++ (int) { Iter r = *this; ++p; return r; }
  Iter& operator-- () requires Bidirectional { --p; return *this; }
  Iter operator-- (int) requires Bidirectional { Iter r = *this; --p; return r; }
  friend bool operator== (Iter a, Iter b) { return a.p == b.p; }
};
struct End {  // a sentinel that is not an iterator
  char const* p;
  template <bool B> friend bool operator== (Iter<B> a, End b) { return a.p == b.p; }
  friend bool operator== (char const* a, End b) { return a == b.p; }
};
using Fwd = Iter<false>;
using Bi = Iter<true>;
template <typename I> using R = std::ranges::subrange<I>;

// the bounds of the result, so that every instantiation has the same interface
template <typename I> struct Out { I b; I e; };
template <typename I> void put (Out<I>& o, R<I> r) { o.b = r.begin (); o.e = r.end (); }

void x_last_ptr (Out<char const*>& o, char const* f, char const* l, char const& v) { put (o, uri::find_last (f, l, v)); }
void x_last_ptr_proj (Out<char const*>& o, char const* f, char const* l, int const& v, Proj p) { put (o, uri::find_last (f, l, v, p)); }
void x_last_ptr_end (Out<char const*>& o, char const* f, End const& l, int const& v, Proj p) { put (o, uri::find_last (f, l, v, p)); }
void x_last_fwd (Out<Fwd>& o, Fwd const& f, Fwd const& l, int const& v, Proj p) { put (o, uri::find_last (f, l, v, p)); }
void x_last_fwd_end (Out<Fwd>& o, Fwd const& f, End const& l, int const& v, Proj p) { put (o, uri::find_last (f, l, v, p)); }
void x_last_bi (Out<Bi>& o, Bi const& f, Bi const& l, int const& v, Proj p) { put (o, uri::find_last (f, l, v, p)); }
void x_last_bi_end (Out<Bi>& o, Bi const& f, End const& l, int const& v, Proj p) { put (o, uri::find_last (f, l, v, p)); }
void x_last_sv (Out<char const*>& o, std::string_view const& s, int const& v, Proj p) { put (o, uri::find_last (s, v, p)); }

bool x_sw_sv (std::string_view a, std::string_view b) { return uri::starts_with (a, b); }
bool x_sw_sv_pred (std::string_view a, std::string_view b, Pred r, Proj p, Proj2 q) { return uri::starts_with (a, b, r, p, q); }
bool x_sw_fwd (Fwd const& a, Fwd const& ae, Bi const& b, Bi const& be, Pred r, Proj p, Proj2 q) { return uri::starts_with (a, ae, b, be, r, p, q); }
bool x_sw_end (Fwd const& a, End const& ae, char const* b, End const& be, Pred r, Proj p, Proj2 q) { return uri::starts_with (a, ae, b, be, r, p, q); }
}  // namespace verif
