// Uses of the combinators with match and accept functions of every kind, none with a body: their contracts are assumed (opaque).
#include <functional>
#include <string_view>
#include "uri/rule.hpp"
using uri::rule;
using SV = std::string_view;
namespace verif {
struct match0 { rule::matched_result operator() (rule const& r) const; };
struct match1 { void* a; rule::matched_result operator() (rule const& r) const; };
struct match2 { void *a, *b; rule::matched_result operator() (rule const& r) const; };
struct match3 { void *a, *b, *c; rule::matched_result operator() (rule const& r) const; };
struct accept0 { void operator() (SV s) const; };
struct accept1 { void* a; void operator() (SV s) const; };
struct accept3 { void *a, *b, *c; void operator() (SV s); };
struct pred0 { bool operator() (char c) const; };
struct pred1 { void* a; bool operator() (char c) const; };
using MF = rule::matched_result (*) (rule const&);
using AF = void (*) (SV);
rule::matched_result mfn (rule const&);

rule u1 (rule const& r, match0 m) { return r.concat (m); }
rule u2 (rule const& r, match1 m, accept1 a) { return r.concat (m, a); }
rule u3 (rule const& r, match3 m, accept3 a) { return r.concat (m, a); }
rule u4 (rule const& r, MF m, AF a) { return r.concat (m, a); }
rule u5 (rule const& r, MF m) { return r.concat (m); }
rule u6 (rule const& r, match2 m, accept1 a) { return r.concat (m, a); }
rule o1 (rule const& r, match0 m) { return r.optional (m); }
rule o2 (rule const& r, match1 m, accept1 a) { return r.optional (m, a); }
rule o3 (rule const& r, match3 m, accept3 a) { return r.optional (m, a); }
rule o4 (rule const& r, MF m, AF a) { return r.optional (m, a); }
rule o5 (rule const& r, MF m) { return r.optional (m); }
rule s1 (rule const& r, match0 m, unsigned a, unsigned b) { return r.star (m, a, b); }
rule s2 (rule const& r, match1 m, unsigned a, unsigned b) { return r.star (m, a, b); }
rule s3 (rule const& r, match3 m, unsigned a, unsigned b) { return r.star (m, a, b); }
rule s4 (rule const& r, MF m, unsigned a, unsigned b) { return r.star (m, a, b); }
rule a1 (rule const& r, match0 m) { return r.alternative (m); }
rule a2 (rule const& r, match1 m, match2 n) { return r.alternative (m, n); }
rule a3 (rule const& r, match3 m, MF n, match0 o) { return r.alternative (m, n, o); }
rule a4 (rule const& r, MF m) { return r.alternative (m, mfn, mfn); }
rule a0 () { return rule::alternative (); }
rule::matched_result c1 (rule const& r, pred0 p) { return r.single_char (p); }
rule::matched_result c2 (rule const& r, pred1 p) { return r.single_char (p); }
rule::matched_result c3 (rule const& r, bool (*p) (char)) { return r.single_char (p); }
rule::matched_result c4 (rule const& r, char c) { return r.single_char (c); }
rule::matched_result c5 (rule const& r) { return uri::alpha (r); }
rule::matched_result c6 (rule const& r) { return uri::digit (r); }
rule::matched_result c7 (rule const& r) { return uri::hexdig (r); }
rule::matched_result c8 (rule const& r, char c) { return uri::single_char (c) (r); }
rule::matched_result c9 (rule const& r, char c, char d) { return uri::char_range (c, d) (r); }
rule n1 (SV s) { return rule{s}; }
rule n2 (rule const& r) { return r; }
rule n3 (rule& r) { return std::move (r); }
void n4 (rule& r, rule const& s) { r = s; }
void n5 (rule& r, rule& s) { r = std::move (s); }
std::optional<SV> t1 (rule const& r) { return r.tail (); }
}
