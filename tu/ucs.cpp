// Instantiates the icubaby transcoders for the deductive engine. Nothing here is code under test.
#include <cassert>
#include <cstddef>
#include <iterator>
#include <new>
#include "uri/icubaby.hpp"

namespace verif {
template <typename T> struct Sink {  // push_back has no body: its contract records the code unit
  using value_type = T;
  void push_back (T c);
};
template <typename F, typename T> struct X {
  using TC = icubaby::transcoder<F, T>;
  static void create (TC* t) { new (t) TC (); }
  static void step (TC& t, F c) {
    Sink<T> s;
    t (c, std::back_inserter (s));
  }
  static void stepi (TC& t, F c) {
    Sink<T> s;
    icubaby::iterator it{&t, std::back_inserter (s)};
    *it++ = c;
  }
  static T* stepa (TC& t, F c, T* out) { return t (c, out); }
  static T* stependa (TC& t, F c, T* out) { return t.end_cp (t (c, out)); }
  static T* enda (TC& t, T* out) { return t.end_cp (out); }
  static void endi (TC& t) {
    Sink<T> s;
    icubaby::iterator it{&t, std::back_inserter (s)};
    t.end_cp (it);
  }
  static std::size_t capacity () { return icubaby::ranges::max_output_bytes<F, T>; }
  static void end (TC& t) {
    Sink<T> s;
    t.end_cp (std::back_inserter (s));
  }
  static bool wf (TC const& t) { return t.well_formed (); }
  static bool part (TC const& t) { return t.partial (); }
  static std::size_t size () { return sizeof (TC); }
};
template struct X<char8_t, char8_t>;
template struct X<char8_t, char16_t>;
template struct X<char8_t, char32_t>;
template struct X<char16_t, char8_t>;
template struct X<char16_t, char16_t>;
template struct X<char16_t, char32_t>;
template struct X<char32_t, char8_t>;
template struct X<char32_t, char16_t>;
template struct X<char32_t, char32_t>;
}  // namespace verif

#include <ranges>
namespace verif {
// transcode_view over a plain array of code units
template <typename F, typename T> struct W {
  using R = std::ranges::subrange<F const*>;
  using V = icubaby::ranges::transcode_view<F, T, R>;
  using I = typename V::iterator;
  static void make (V* v, F const* a, F const* b) { new (v) V (R (a, b)); }
  static void begin (V const& v, I* out) { new (out) I (v.begin ()); }
  static void end (V const& v, I* out) { new (out) I (v.end ()); }
  static T deref (I const& i) { return *i; }
  static void inc (I& i) { ++i; }
  static void post (I& i, I* old) { new (old) I (i++); }
  static bool eq (I const& a, I const& b) { return a == b; }
  static bool wf (V const& v) { return v.well_formed (); }
  static std::size_t vsize () { return sizeof (V); }
  static std::size_t isize () { return sizeof (I); }
  static std::size_t tsize () { return sizeof (icubaby::transcoder<F, T>); }
  static std::size_t capacity () { return icubaby::ranges::max_output_bytes<F, T>; }
};
template struct W<char8_t, char8_t>;
template struct W<char8_t, char16_t>;
template struct W<char8_t, char32_t>;
template struct W<char16_t, char8_t>;
template struct W<char16_t, char16_t>;
template struct W<char16_t, char32_t>;
template struct W<char32_t, char8_t>;
template struct W<char32_t, char16_t>;
template struct W<char32_t, char32_t>;
}  // namespace verif
