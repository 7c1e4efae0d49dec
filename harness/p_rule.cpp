// C16: grammars built from the combinators, against an interpreter of their documentation.
#include "common.hpp"
#include <memory>
#include "uri/rule.hpp"

using namespace vf;
namespace {
// A grammar is a tree; the case holds its prefix form:
//   . c      single_char(c)            ; p  k    single_char(predicate k)
//   C n ...  concat of n elements      ; c likewise with an acceptor on each element
//   A n ...  alternative of 1..4       ; O / o  optional (o: with acceptor)
//   S a b    star(min a, max b)        ; T starN default arguments
//   E        a match function that accepts the empty string
//   N        a match function that never matches
//   X k      a match function that consumes up to k characters (a prefix of its input)
struct Node {
  char kind = 'E';
  unsigned a = 0, b = 0;
  int id = 0;
  std::vector<Node> kids;
};
struct Ev {
  int id;
  std::string text;
  std::size_t pos;
  bool operator== (Ev const&) const = default;
};
bool pred (unsigned k, char c) {
  switch (k % 4) {
  case 0: return c >= 'a' && c <= 'c';
  case 1: return c == 'b' || c == '\xff';
  case 2: return c >= '0' && c <= '9';
  default: return true;
  }
}
Node gen_node (Rng& r, unsigned depth, int& id) {
  Node n;
  n.id = id++;
  static char const leafs[] = "..ppENX";
  static char const inner[] = "CcCcAAOoSST";
  if (depth == 0 || r.chance (1, 4)) {
    n.kind = leafs[r.upto (sizeof leafs - 1)];
    n.a = n.kind == '.' ? "aAbB01-\xff"[r.upto (8)] & 0xFFU : r.upto (4);
    return n;
  }
  n.kind = inner[r.upto (sizeof inner - 1)];
  unsigned kids = n.kind == 'C' || n.kind == 'c' ? r.upto (4) : n.kind == 'A' ? 1 + r.upto (4) : 1;
  if (n.kind == 'S') {
    n.a = r.upto (4);
    n.b = r.chance (1, 4) ? 0xFFFFFFFFU : n.a + r.upto (4);  // a <= b
  }
  for (unsigned i = 0; i < kids; ++i) n.kids.push_back (gen_node (r, depth - 1, id));
  return n;
}
void ser (Node const& n, std::string& s) {
  s += n.kind;
  s += std::to_string (n.a) + "," + std::to_string (n.b) + "," + std::to_string (n.id) + "," + std::to_string (n.kids.size ()) + ";";
  for (auto const& k : n.kids) ser (k, s);
}
Node des (std::string const& s, std::size_t& p) {
  Node n;
  if (p >= s.size ()) return n;
  n.kind = s[p++];
  auto num = [&] () -> unsigned {
    unsigned v = 0;
    while (p < s.size () && s[p] >= '0' && s[p] <= '9') v = v * 10 + static_cast<unsigned> (s[p++] - '0');
    ++p;
    return v;
  };
  n.a = num ();
  n.b = num ();
  n.id = static_cast<int> (num ());
  auto k = num ();
  for (unsigned i = 0; i < k && p < s.size (); ++i) n.kids.push_back (des (s, p));
  return n;
}
std::string pretty (Node const& n) {
  std::string k;
  for (auto const& x : n.kids) k += (k.empty () ? "" : ", ") + pretty (x);
  switch (n.kind) {
  case '.': return "char(" + show (std::string (1, static_cast<char> (n.a))) + ")";
  case 'p': return "pred" + std::to_string (n.a);
  case 'E': return "empty";
  case 'N': return "never";
  case 'X': return "upto" + std::to_string (n.a);
  case 'C': return "concat(" + k + ")";
  case 'c': return "concat+acceptor(" + k + ")";
  case 'A': return "alternative(" + k + ")";
  case 'O': return "optional(" + k + ")";
  case 'o': return "optional+acceptor(" + k + ")";
  case 'S': return "star(" + k + "," + std::to_string (n.a) + "," + std::to_string (n.b) + ")";
  default: return "star(" + k + ")";
  }
}
// ---- the real combinators ----
struct Ctx { std::vector<Ev>* log; char const* base; };
using MR = uri::rule::matched_result;
MR match (Node const& n, uri::rule const& r, Ctx const& x);
uri::rule build (Node const& n, uri::rule const& r, Ctx const& x) {
  auto acc = [&x] (int id) { return [log = x.log, base = x.base, id] (std::string_view s) { log->push_back ({id, std::string (s), static_cast<std::size_t> (s.data () - base)}); }; };
  auto m = [&x] (Node const& k) { return [&k, x] (uri::rule const& q) { return match (k, q, x); }; };
  switch (n.kind) {
  case 'C': case 'c': {
    uri::rule q = r;
    for (auto const& k : n.kids) q = n.kind == 'c' ? q.concat (m (k), acc (k.id)) : q.concat (m (k));
    return q;
  }
  case 'A': {
    auto const& k = n.kids;
    switch (k.size ()) {
    case 1: return r.alternative (m (k[0]));
    case 2: return r.alternative (m (k[0]), m (k[1]));
    case 3: return r.alternative (m (k[0]), m (k[1]), m (k[2]));
    default: return r.alternative (m (k[0]), m (k[1]), m (k[2]), m (k[3]));
    }
  }
  case 'O': return r.optional (m (n.kids[0]));
  case 'o': return r.optional (m (n.kids[0]), acc (n.kids[0].id));
  case 'S': return r.star (m (n.kids[0]), n.a, n.b);
  default: return r.star (m (n.kids[0]));
  }
}
MR match (Node const& n, uri::rule const& r, Ctx const& x) {
  switch (n.kind) {
  case '.': return r.single_char (static_cast<char> (n.a));
  case 'p': return r.single_char ([k = n.a] (char c) { return pred (k, c); });
  case 'N': return {};
  case 'E': case 'X': {
    auto const t = r.tail ();
    if (!t) return {};
    return std::make_tuple (t->substr (0, n.kind == 'E' ? 0 : std::min<std::size_t> (n.a, t->size ())), uri::rule::acceptor_container{});
  }
  default: return build (n, r, x).matched ("node", r);
  }
}
// ---- oracle ----
char lower (char c) { return c >= 'A' && c <= 'Z' ? static_cast<char> (c - 'A' + 'a') : c; }
std::optional<std::size_t> o_match (Node const& n, std::string const& s, std::size_t p, std::vector<Ev>& ev) {
  switch (n.kind) {
  case '.': return p < s.size () && lower (s[p]) == lower (static_cast<char> (n.a)) ? std::optional<std::size_t>{p + 1} : std::nullopt;
  case 'p': return p < s.size () && pred (n.a, s[p]) ? std::optional<std::size_t>{p + 1} : std::nullopt;
  case 'N': return std::nullopt;
  case 'E': return p;
  case 'X': return std::min<std::size_t> (s.size (), p + n.a);
  case 'C': case 'c': {
    auto q = p;
    std::vector<Ev> e;
    for (auto const& k : n.kids) {
      auto t = o_match (k, s, q, e);
      if (!t) return std::nullopt;
      if (n.kind == 'c') e.push_back ({k.id, s.substr (q, *t - q), q});
      q = *t;
    }
    ev.insert (ev.end (), e.begin (), e.end ());
    return q;
  }
  case 'A':
    for (auto const& k : n.kids) {
      std::vector<Ev> e;
      if (auto t = o_match (k, s, p, e)) { ev.insert (ev.end (), e.begin (), e.end ()); return t; }
    }
    return std::nullopt;
  case 'O': case 'o': {
    std::vector<Ev> e;
    auto t = o_match (n.kids[0], s, p, e);
    if (!t) return p;
    if (n.kind == 'o') e.push_back ({n.kids[0].id, s.substr (p, *t - p), p});
    ev.insert (ev.end (), e.begin (), e.end ());
    return t;
  }
  default: {
    unsigned const lo = n.kind == 'S' ? n.a : 0, hi = n.kind == 'S' ? n.b : 0xFFFFFFFFU;
    auto q = p;
    std::vector<Ev> e;
    unsigned cnt = 0;
    while (cnt < hi) {
      std::vector<Ev> f;
      auto t = o_match (n.kids[0], s, q, f);
      if (!t) break;
      e.insert (e.end (), f.begin (), f.end ());
      ++cnt;
      q = *t;
    }
    // the documentation asks for at least lo matches
    if (cnt < lo) return std::nullopt;
    ev.insert (ev.end (), e.begin (), e.end ());
    return q;
  }
  }
}
bool nullable (Node const& n) {
  switch (n.kind) {
  case 'E': case 'X': case 'O': case 'o': case 'T': return true;
  case 'S': return n.a == 0 || n.b == 0 || nullable (n.kids[0]);
  case 'C': case 'c': for (auto const& k : n.kids) if (!nullable (k)) return false; return true;
  case 'A': for (auto const& k : n.kids) if (nullable (k)) return true; return false;
  default: return false;
  }
}
bool infinite (Node const& n) {  // star without a bound over something that may match nothing
  if ((n.kind == 'T' || (n.kind == 'S' && n.b > 100)) && nullable (n.kids[0])) return true;
  for (auto const& k : n.kids) if (infinite (k)) return true;
  return false;
}
Case gen (Rng& r, unsigned long) {
  Node n;
  do {
    int id = 0;
    n = gen_node (r, 1 + r.upto (4), id);
  } while (infinite (n));
  std::string g;
  ser (n, g);
  std::string t = rndstr (r, "aabbcAB01-\xff", r.len (6));
  return {g, t};
}
Result c16 (Case const& c) {
  if (c.size () < 2) return ok (false);
  std::size_t p = 0;
  Node const n = des (c[0], p);
  if (infinite (n)) return ok (false);
  std::vector<char> text (c[1].begin (), c[1].end ());
  text.shrink_to_fit ();
  std::string_view const in (text.data (), text.size ());
  std::vector<Ev> got;
  Ctx const x{&got, in.data ()};
  auto tag = [&] { return "; grammar " + pretty (n) + " on \"" + show (c[1]) + "\""; };
  auto desc = [] (std::vector<Ev> const& v) {
    std::string r;
    for (auto const& e : v) r += "#" + std::to_string (e.id) + "=\"" + show (e.text) + "\"@" + std::to_string (e.pos) + " ";
    return r;
  };
  std::vector<Ev> want;
  auto const w = o_match (n, c[1], 0, want);
  want.push_back ({-1, c[1].substr (0, w.value_or (0)), 0});
  uri::rule const top = uri::rule{in}.concat ([&] (uri::rule const& q) { return match (n, q, x); }, [&] (std::string_view s) { got.push_back ({-1, std::string (s), static_cast<std::size_t> (s.data () - in.data ())}); });
  auto const tail = top.tail ();
  if (tail.has_value () != w.has_value ()) return bad (std::string ("match ") + (tail ? "succeeds" : "fails") + tag ());
  if (tail && tail->size () != c[1].size () - *w) return bad ("match leaves " + std::to_string (tail->size ()) + " characters, want " + std::to_string (c[1].size () - *w) + tag ());
  if (!got.empty ()) return bad ("acceptors ran before done()" + tag ());
  bool const d = top.done ();
  bool const wd = w && *w == c[1].size ();
  if (d != wd) return bad (std::string ("done() is ") + (d ? "true" : "false") + tag ());
  if (!wd && !got.empty ()) return bad ("acceptors ran although done() is false: " + desc (got) + tag ());
  if (wd && got != want) {
    // an empty match has no place of its own; compare texts and order
    return bad ("acceptors ran as " + desc (got) + " want " + desc (want) + tag ());
  }
  return ok (n.kids.size () > 0);
}
Reg r16 ("C16", gen, c16);
}  // namespace
