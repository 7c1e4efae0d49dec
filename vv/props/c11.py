"""C11: Punycode encoding. encode() under contract against RFC 3492 section 6.3 for every sequence of code points, and the
round trip as a lemma over the specifications of C11 and C12 (both of which the code is proved to meet)."""
import os, re, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir, arith
from ..arith import MUL, DIV, REM
from . import c12
from .c12 import ADAPT, THR, BIAS, TOP, NS, isint, isseq

I, B = z3.IntSort(), z3.BoolSort()
K = 2**31                     # lengths stay below
LAST = 0x10FFFF
TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "std::u32string and std::string are sequences; std::sort and std::unique as assumed in vv/props/c11.py",
           "encode is instantiated with std::u32string_view and a back inserter (tu/penc.cpp)", "the transcription of RFC 3492 in vv/props/c11.py and c12.py"]
ASSUMPTIONS = ["fewer than 2^31 code points, each at most U+10FFFF", "memory is not exhausted"]
ED = z3.Function("rfc_encode_digit", I, I)
E0 = z3.Empty(SeqI)


def letter(d):
    return z3.If(d < 26, d + 97, d + 22)


# ---- RFC 3492 section 6.3 ---------------------------------------------------------
EV = z3.Function("rfc_vli", I, I, I, SeqI)      # q, k, bias


def ev_unfold(q, k, bias):
    t = THR(k, bias)
    x, s = q - t, 36 - t
    return [EV(q, k, bias) == z3.If(q < t, z3.Unit(ED(q)), seqcat(z3.Unit(ED(t + REM(x, s))), EV(DIV(x, s), k + 36, bias))), t >= 1, t <= 26] + arith.div_small(x, s) + arith.div_facts(x, s)


class Spec:
    """the encoder for the input c[0], ..., c[N - 1]"""
    stop = None      # the unit behind the input, which the input does not contain

    def __init__(self, ex, c, N):
        u = ex.uniq("")
        self.c, self.N = c, N
        f = lambda name, *s: z3.Function(name + u, *s)
        self.BASIC, self.OTHER = f("basic", I, SeqI), f("other", I, SeqI)           # of the first j
        self.CNT, self.EQ = f("below", I, I, I), f("equal", I, I, I)                # how many of the first j are below n, equal to n
        self.F, self.G = f("inner", I, I, I, I, I, SeqI, SeqI), f("outer", I, I, I, I, SeqI, SeqI)
        self.MIN, self.MW = f("least_from", I, I), f("least_from_at", I, I)
        self.SK = f("not_below_at", I, I)

    def at(self, j):
        return z3.Select(self.c, j)

    def start(self, j):
        """the split into basic and other code points, one step"""
        x = self.at(j)
        z = z3.IntVal(0)
        return [self.BASIC(z) == E0, self.OTHER(z) == E0, self.CNT(128, z) == 0,
                z3.Implies(j >= 0, z3.And(self.BASIC(j + 1) == z3.If(x < 128, seqcat(self.BASIC(j), z3.Unit(x)), self.BASIC(j)),
                                          self.OTHER(j + 1) == z3.If(x < 128, self.OTHER(j), seqcat(self.OTHER(j), z3.Unit(x))),
                                          self.CNT(128, j + 1) == self.CNT(128, j) + z3.If(x < 128, 1, 0),
                                          z3.Length(self.OTHER(j)) == j - self.CNT(128, j), z3.Length(self.BASIC(j)) == self.CNT(128, j)))]    # lemma.split

    def eq_step(self, n, j):
        return [self.EQ(n, 0) == 0, z3.Implies(j >= 0, self.EQ(n, j + 1) == self.EQ(n, j) + z3.If(self.at(j) == n, 1, 0))]

    def counted(self, n):
        """lemma.count: the code points below n are all of them unless one is not below; those up to n"""
        N, sk = self.N, self.SK(n)
        return [self.CNT(n, N) >= 0, self.CNT(n, N) <= N, z3.Implies(self.CNT(n, N) < N, z3.And(sk >= 0, sk < N, self.at(sk) >= n))]

    def not_below(self, n, j):
        """lemma.count: one that is not below"""
        return [z3.Implies(z3.And(j >= 0, j < self.N, self.at(j) >= n), self.CNT(n, self.N) < self.N)]

    def up_to(self, n):
        return [self.CNT(n + 1, self.N) == self.CNT(n, self.N) + self.EQ(n, self.N)]

    def same_below(self, n, m):
        """lemma.count: no code point from n on below m"""
        return [z3.Implies(z3.And(n <= m, m == self.MIN(n), self.CNT(n, self.N) < self.N), self.CNT(m, self.N) == self.CNT(n, self.N))]

    def least(self, n, j):
        """the definition of MIN, at j"""
        m, w = self.MIN(n), self.MW(n)
        return [z3.Implies(self.CNT(n, self.N) < self.N, z3.And(m >= n, w >= 0, w < self.N, self.at(w) == m, z3.Implies(z3.And(j >= 0, j < self.N, self.at(j) >= n), m <= self.at(j))))]

    def outer(self, n, delta, bias, h, out):
        m = self.MIN(n)
        d = MUL(m - n, h + 1)
        return [self.G(n, delta, bias, h, out) == z3.If(h < self.N, self.F(z3.IntVal(0), m, delta + d, bias, h, out), out),
                z3.Implies(z3.And(m >= n, h >= 0, h + 1 <= K), z3.And(d >= 0, d <= K * (m - n)))]

    def inner(self, j, n, delta, bias, h, out):
        x = self.at(j)
        F = self.F
        return [F(j, n, delta, bias, h, out) == z3.If(j < self.N,
                                                      z3.If(x < n, F(j + 1, n, delta + 1, bias, h, out),
                                                            z3.If(x == n, F(j + 1, n, z3.IntVal(0), ADAPT(delta, h + 1, h == self.CNT(128, self.N)), h + 1, seqcat(out, EV(delta, z3.IntVal(36), bias))),
                                                                  F(j + 1, n, delta, bias, h, out))),
                                                      self.G(n + 1, delta + 1, bias, h, out))]


# ---- contracts ------------------------------------------------------------------------
def ed_c(ex, st, a, w, n):
    d = zi(a[0])
    ex.oblige(st, w + ".digit-below-36", z3.And(d >= 0, d < 36))
    r = ED(d)
    st.assume(r >= 0, r < 128)
    return [(st, r)]


def index(p, elem=4):
    o = Lin.of(p.o)
    if o.c % elem or any(c % elem for c, _ in o.t):
        raise Unsupported("pointer between elements")
    return Lin(o.c // elem, [(c // elem, e) for c, e in o.t]).z()


class VliLoop(LoopSpec):
    def roles(self, ex, st, view):
        ints = view.modified(isint)
        ks = [k for k in ints if isinstance(view.cell(k), int) and view.cell(k) == 36]
        biases = []
        for _, key in view.locals(lambda v, s: s == 8 and isint(v, s)):
            if key not in ints and not any(zi(view.cell(key)).eq(zi(b)) for b in biases):
                biases.append(view.cell(key))
        for o in view.modified(isseq):
            for k in ks:
                for q in ints:
                    for b in reversed(biases):
                        if q != k:
                            yield {"q": q, "k": k, "o": o, "bias": zi(b), "q0": zi(view.cell(q)), "o0": view.cell(o)}

    def cur(self, view, ro):
        return zi(view.cell(ro["q"])), zi(view.cell(ro["k"])), ro["bias"]

    def inv(self, ex, st, view, ro):
        q, k, b = self.cur(view, ro)
        return [("rfc", seqcat(view.cell(ro["o"]), EV(q, k, b)) == seqcat(ro["o0"], EV(ro["q0"], z3.IntVal(36), b))),
                ("steps", z3.And(q >= 0, z3.Or(*[z3.And(k == 36 * (j + 1), q * 10**j <= ro["q0"]) for j in range(21)])))]

    def facts(self, ex, st, view, ro):
        return ev_unfold(*self.cur(view, ro))

    def variant(self, ex, st, view, ro):
        return zi(view.cell(ro["q"]))


class Loops(LoopSpec):
    """the three loops of encode()"""

    def __init__(self):
        self.S = self.D = None
        self.keys = None

    def roles(self, ex, st, view):

        ptrs = view.modified(lambda v, s: isinstance(v, Ptr) and v.r in st.mem and st.mem[v.r].kind == "array")
        ints, seqs = [k for k in view.modified(isint) if k[1] is not None], view.modified(isseq)
        val = lambda k, x: isinstance(view.cell(k), int) and view.cell(k) == x
        for p in ptrs:
            if self.D and view.cell(p).r == self.D[0]:
                for o in seqs:
                    for n in ints:
                        for d in ints:
                            for b in ints:
                                for h in ints:
                                    if val(n, 128) and val(d, 0) and val(b, 72) and h not in (n, d, b) and not isinstance(view.cell(h), int):
                                        yield {"kind": "outer", "p": p, "o": o, "n": n, "d": d, "b": b, "h": h, "out0": view.cell(o)}
            elif self.D is None:
                for x in seqs:
                    for y in seqs:
                        for k in ints:
                            if x != y and val(k, 0):
                                yield {"kind": "split", "p": p, "o": x, "other": y, "k": k, "out0": view.cell(x)}
            elif ex.discovering:
                yield {"kind": "blind", "p": p}
            elif self.keys:
                ro = dict(self.keys, kind="inner", p=p)
                n = zi(view.cell(ro["n"]))
                ro.update(start=[n] + [zi(view.cell(ro[x])) for x in "dbh"] + [view.cell(ro["o"])])
                yield ro

    def inv(self, ex, st, view, ro):
        S, i = self.S, index(view.cell(ro["p"]))
        if ro["kind"] == "blind":
            return []
        get = lambda x: zi(view.cell(ro[x]))
        if ro["kind"] == "split":
            return [("range", z3.And(i >= 0, i <= S.N)), ("basic", view.cell(ro["o"]) == seqcat(ro["out0"], S.BASIC(i))), ("other", view.cell(ro["other"]) == S.OTHER(i)),
                    ("count", z3.And(get("k") == S.CNT(128, i), get("k") >= 0, get("k") <= i))]
        n, d, b, h, o = get("n"), get("d"), get("b"), get("h"), view.cell(ro["o"])
        if ro["kind"] == "inner":
            n0, d0, b0, h0, o0 = ro["start"]
            return [("range", z3.And(i >= 0, i <= S.N)), ("rfc", S.F(i, n, d, b, h, o) == S.F(z3.IntVal(0), n0, d0, b0, h0, o0)), ("n", n == n0),
                    ("handled", z3.And(h == h0 + S.EQ(n0, i), h >= h0, h <= h0 + i)), ("delta", z3.And(d >= 0, d <= d0 + i)), ("bias", z3.And(b >= 0, b <= BIAS))]
        self.keys = {x: ro[x] for x in "ondbh"}
        r, k, D = i, self.D[1], self.D[2]
        init = S.G(z3.IntVal(128), z3.IntVal(0), z3.IntVal(72), S.CNT(128, S.N), ro["out0"])
        return [("range", z3.And(r >= 0, r <= k)), ("rfc", S.G(n, d, b, h, o) == init), ("n", n == z3.If(r == 0, 128, z3.Select(D, r - 1) + 1)),
                ("handled", h == S.CNT(n, S.N)), ("delta", z3.And(d >= 0, d <= n * K)), ("bias", z3.And(b >= 0, b <= BIAS))]

    def facts(self, ex, st, view, ro):
        S, i = self.S, index(view.cell(ro["p"]))
        if ro["kind"] == "blind":
            return []
        get = lambda x: zi(view.cell(ro[x]))
        inside = [] if S.stop is None or ro["kind"] == "outer" else [z3.Implies(z3.And(i >= 0, i < S.N), S.at(i) != S.stop)]
        if ro["kind"] == "split":
            return inside + S.start(i) + [z3.Implies(z3.And(i >= 0, i < S.N), z3.And(S.at(i) >= 0, S.at(i) <= LAST))]
        n, d, b, h, o = get("n"), get("d"), get("b"), get("h"), view.cell(ro["o"])
        if ro["kind"] == "inner":
            return inside + S.inner(i, n, d, b, h, o) + S.eq_step(ro["start"][0], i) + S.up_to(ro["start"][0]) + S.counted(ro["start"][0] + 1)
        rid, k, D, pos, wit = self.D
        out = S.outer(n, d, b, h, o) + S.counted(n)
        el = z3.Select(D, i)
        w = wit(i)
        out += [z3.Implies(z3.And(i >= 0, i < k), z3.And(el >= 128, el <= LAST, w >= 0, w < S.N, S.at(w) == el))]
        out += S.least(n, w) + S.not_below(n, w) + S.same_below(n, el)
        for j in (S.MW(n), S.SK(n)):      # a code point that is not basic is in D
            p = pos(j)
            out += [z3.Implies(z3.And(j >= 0, j < S.N, S.at(j) >= 128), z3.And(p >= 0, p < k, z3.Select(D, p) == S.at(j)))]
            out += self.strict(p, i - 1) + self.strict(i, p)
        out += self.strict(i - 1, i)
        out += [z3.Implies(z3.And(i >= 1, i <= k), z3.And(z3.Select(D, i - 1) >= 128, z3.Select(D, i - 1) <= LAST))]
        return out

    def strict(self, i, j):
        k, D = self.D[1], self.D[2]
        return [z3.Implies(z3.And(i >= 0, i < j, j < k), z3.Select(D, i) < z3.Select(D, j))]

    def variant(self, ex, st, view, ro):
        i = index(view.cell(ro["p"]))
        return (self.D[1] if ro["kind"] == "outer" else self.S.N) - i


def vli_c(ex, st, a, w, n):
    """encode_vli (prove_vli): the digits of section 6.3's inner loop are appended"""
    q, bias, out = zi(a[0]), zi(a[1]), a[2][0] if isinstance(a[2], list) else a[2]
    ex.oblige(st, w + ".bias", z3.And(bias >= 0, bias <= BIAS))
    ex.oblige(st, w + ".q", z3.And(q >= 0, q <= VLI_MAX))
    setstr(st, out, seqcat(strval(st, out), EV(q, z3.IntVal(36), bias)))
    return [(st, out)]


VLI_MAX = 2**60


def prove_vli(rep, mod):
    ex = Exec(mod, rep, prefix="C11.")
    ex.nl = arith.NL()
    string_contracts(ex)
    c12.modular(ex)
    ex.contract(r"^" + NS + r"encode_digit\(", ed_c)
    ex.loop(r"encode_vli", None, VliLoop())
    q, b = z3.Ints("q bias")

    def setup(st):
        st.assume(q >= 0, q <= VLI_MAX, b >= 0, b <= BIAS)
        out = ex.alloc(st, 32, "out")
        o0 = z3.Const(ex.uniq("out0"), SeqI)
        setstr(st, out, o0)
        return [q, b, out], (out, o0)

    def post(ex, st, rv, c):
        ex.oblige(st, "vli.rfc3492-section6.3", strval(st, c[0]) == seqcat(c[1], EV(q, z3.IntVal(36), b)))
    verify(ex, one(mod, r"^(void )?verif::vli\("), setup, post, title="uri::punycode::details::encode_vli", name="vli")


def prove_encode(rep, mod, rx=r"^verif::encode\(", prefix="C11.", title="uri::punycode::encode", label=None):
    """label: the unit that ends the range (a take_while view over a longer text)"""
    ex = Exec(mod, rep, prefix=prefix)
    ex.nl = arith.NL()
    string_contracts(ex, U32)
    string_contracts(ex)
    c12.modular(ex)
    ex.contract(r"^" + NS + r"encode_digit\(", ed_c)
    ex.contract(r"uri::punycode::details::encode_vli<std::back_insert_iterator<std::__cxx11::basic_string<char,", vli_c)
    lp, vl = Loops(), VliLoop()

    def distinct(ex, st, a, w, n):
        """sort_and_remove_duplicates (proved below): strictly increasing, with the same elements"""
        s = strval(st, a[0])
        S = lp.S
        ex.oblige(st, w + ".of-the-other-code-points", s == S.OTHER(S.N))
        u = ex.uniq("")
        k = z3.Int("kinds" + u)
        st.assume(k >= 0, k <= z3.Length(s), (k == 0) == (z3.Length(s) == 0))
        arr = ex.array(st, 4, {0: (4, "i")}, k, "kinds")
        lp.D = (arr.r, k, st.mem[arr.r].fields[0][2], z3.Function("kind_of" + u, I, I), z3.Function("of_kind" + u, I, I))
        sq = z3.Const("kinds_seq" + u, SeqI)
        st.assume(z3.Length(sq) == k)
        setstr(st, a[0], sq)
        st.g("kinds", sq)
    ex.contract(r"sort_and_remove_duplicates<", distinct)

    def edge(last):
        def h(ex, st, a, w, n):
            s = strval(st, a[0])
            if lp.D is None or not s.eq(st.ghost.get("kinds", E0)):
                raise Unsupported("iterator of a string")
            return [(st, Ptr(lp.D[0], Lin(0, ((4, lp.D[1]),)) if last else 0))]
        return h
    ex.contract(U32 + r"c?begin\(\)( const)?$", edge(False))
    ex.contract(U32 + r"c?end\(\)( const)?$", edge(True))
    ex.loop(r"encode_vli", None, vl)
    ex.loop(r"__for_each_fn|uri::punycode::encode", None, lp)

    def setup(st):
        N = z3.Int("N")
        st.assume(N >= 0, N < K)
        whole = N
        if label is not None:
            whole = z3.Int("whole")
            st.assume(whole >= N, whole < K)
        arr = ex.array(st, 4, {0: (4, "i")}, whole, "input")
        lp.S = S = Spec(ex, st.mem[arr.r].fields[0][2], N)
        if label is not None:
            S.stop = label
            st.assume(z3.Implies(N < whole, S.at(N) == label))
        lp.D = None
        view = ex.alloc(st, 16, "text")
        st.mem[view.r].cells[0], st.mem[view.r].cells[8] = (8, whole), (8, arr)
        out = ex.alloc(st, 32, "out")
        o0 = z3.Const(ex.uniq("out0"), SeqI)
        setstr(st, out, o0)
        nx = ex.alloc(st, 8, "in")
        st.mem[nx.r].cells[0] = (8, Ptr(NULL, 0))
        plain = z3.Bool(ex.uniq("plain"))

        def hint(m):
            ev = lambda e: m.eval(e, model_completion=True).as_long()
            n = ev(N)
            if n > 40:
                return None
            if label is not None:
                return [b"e", "".join(chr(x) if x < 0xD800 or 0xE000 <= x <= LAST else "\u20ac" for x in [ev(S.at(z3.IntVal(j))) for j in range(n)]).encode()]
            return [b"p" if z3.is_true(m.eval(plain, model_completion=True)) else b"n", b"".join((ev(S.at(z3.IntVal(j))) % 2**32).to_bytes(4, "little") for j in range(n))]
        ex.hint = hint
        return [view, plain, out, nx], (S, o0, out, nx, arr, plain)

    def post(ex, st, rv, c):
        S, o0, out, nx, arr, plain = c
        for phi in S.start(S.N - 1) + S.counted(128) + S.start(S.N):
            st.assume(phi)
        o1 = seqcat(o0, S.BASIC(S.N))
        b = S.CNT(128, S.N)
        o2 = z3.If(b > 0, seqcat(o1, z3.Unit(z3.IntVal(45))), o1)
        others = b < S.N
        any_ = rv if z3.is_bool(rv) else zi(rv) != 0
        full = S.G(z3.IntVal(128), z3.IntVal(0), z3.IntVal(72), b, o2)
        got = strval(st, out)
        ex.oblige(st, "encode.plain", z3.Implies(z3.And(plain, z3.Not(others)), got == o1))
        ex.oblige(st, "encode.rfc3492-section6.3", z3.Implies(z3.Or(z3.Not(plain), others), got == full))
        ex.oblige(st, "encode.reports-other-code-points", any_ == others)
        at = st.mem[nx.r].cells[0][1]
        ex.oblige(st, "encode.end", index(at) == S.N if isinstance(at, Ptr) and at.r == arr.r else z3.BoolVal(False))
    verify(ex, one(mod, rx), setup, post, title=title, name="encode")


# ---- sort_and_remove_duplicates --------------------------------------------------------
def iterator_contracts(ex):
    """u32string as an array while iterators into it are alive; std::sort and std::unique (assumed)"""
    a_, i_, j_ = z3.Int("a_"), z3.Int("i_"), z3.Int("j_")

    def current(st, p):
        s = strval(st, p)
        link = st.ghost.get("link")
        if not link or not link[1].eq(s):
            n = z3.Length(s)
            arr = ex.array(st, 4, {0: (4, "i")}, n, "chars")
            st.g("link", (arr.r, s, p))
        return st.ghost["link"][0]

    def edge(last):
        def h(ex, st, a, w, n):
            r = current(st, a[0])
            return [(st, Ptr(r, Lin(0, ((4, z3.Length(strval(st, a[0]))),)) if last else 0))]
        return h
    ex.contract(U32 + r"c?begin\(\)( const)?$", edge(False))
    ex.contract(U32 + r"c?end\(\)( const)?$", edge(True))

    def whole(st, p, q, w):
        link = st.ghost.get("link")
        if not link or p.r != link[0] or q.r != link[0]:
            raise Unsupported("iterators at " + w)
        n = z3.Length(link[1])
        ex.oblige(st, w + ".whole-range", z3.And(index(p) == 0, index(q) == n))
        return link, n

    def renew(st, link, n):
        """the string's characters are rearranged"""
        reg = st.wr(link[0])
        old = reg.fields[0][2]
        new = z3.Array(ex.uniq("chars"), I, I)
        reg.fields[0] = (4, "i", new)
        s = z3.Const(ex.uniq("chars_seq"), SeqI)
        st.assume(z3.Length(s) == n)
        setstr(st, link[2], s)
        st.g("link", (link[0], s, link[2]))
        return old, new

    def plain(ex, n, algo, count):
        if len(template_args(ex.mod.dem(n), algo)) != count:
            raise Unsupported(algo + " with a comparison of its own")

    def sort(ex, st, a, w, n):
        plain(ex, n, "std::sort", 1)
        link, n = whole(st, a[0], a[1], w)
        old, new = renew(st, link, n)
        u = ex.uniq("")
        P, Q = z3.Function("sorted_from" + u, I, I), z3.Function("sorted_to" + u, I, I)
        inr = lambda x: z3.And(x >= 0, x < n)
        st.assume(z3.ForAll([i_, j_], z3.Implies(z3.And(i_ >= 0, i_ <= j_, j_ < n), new[i_] <= new[j_]), patterns=[z3.MultiPattern(new[i_], new[j_])]))
        st.assume(z3.ForAll([i_], z3.Implies(inr(i_), z3.And(inr(P(i_)), new[i_] == old[P(i_)])), patterns=[new[i_]]))
        st.assume(z3.ForAll([i_], z3.Implies(inr(i_), z3.And(inr(Q(i_)), old[i_] == new[Q(i_)])), patterns=[old[i_]]))
    ex.contract(r"^void std::sort<__gnu_cxx::__normal_iterator<char32_t\*[^()]*>\(", sort)

    def unique(ex, st, a, w, n):
        plain(ex, n, "std::unique", 1)
        link, n = whole(st, a[0], a[1], w)
        old, new = renew(st, link, n)
        u = z3.Int(ex.uniq("unique"))
        P, Q = z3.Function(ex.uniq("unique_from"), I, I), z3.Function(ex.uniq("unique_to"), I, I)
        inu = lambda x: z3.And(x >= 0, x < u)
        st.assume(u >= 0, u <= n, (u == 0) == (n == 0))
        st.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ + 1 < u), new[i_] != new[i_ + 1]), patterns=[new[i_]]))
        st.assume(z3.ForAll([i_], z3.Implies(inu(i_), z3.And(P(i_) >= 0, P(i_) < n, new[i_] == old[P(i_)])), patterns=[new[i_]]))
        st.assume(z3.ForAll([i_, j_], z3.Implies(z3.And(inu(i_), inu(j_), i_ < j_), P(i_) < P(j_)), patterns=[z3.MultiPattern(P(i_), P(j_))]))
        st.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(inu(Q(i_)), old[i_] == new[Q(i_)])), patterns=[old[i_]]))
        return [(st, Ptr(link[0], Lin(0, ((4, u),))))]
    ex.contract(r"std::unique<__gnu_cxx::__normal_iterator<char32_t\*", unique)

    def erase(ex, st, a, w, n):
        link = st.ghost.get("link")
        p, q = a[1], a[2]
        if not link or p.r != link[0] or q.r != link[0]:
            raise Unsupported("iterators at " + w)
        n = z3.Length(link[1])
        ex.oblige(st, w + ".range", z3.And(index(p) >= 0, index(p) <= index(q)))
        ex.oblige(st, w + ".to-the-end", index(q) == n)
        s = z3.Const(ex.uniq("chars_seq"), SeqI)
        st.assume(z3.Length(s) == index(p))
        setstr(st, a[0], s)
        st.g("link", (link[0], s, link[2]))
        return [(st, p)]
    ex.contract(U32 + r"erase\(__gnu_cxx::__normal_iterator<char32_t const\*[^()]*, __gnu_cxx::__normal_iterator<char32_t const\*[^()]*\)$", erase)


def prove_distinct(rep, mod):
    ex = Exec(mod, rep, prefix="C11.")
    string_contracts(ex, U32)
    iterator_contracts(ex)

    def setup(st):
        s = ex.alloc(st, 32, "string")
        s0 = z3.Const(ex.uniq("s0"), SeqI)
        setstr(st, s, s0)
        arr = ex.array(st, 4, {0: (4, "i")}, z3.Length(s0), "chars")
        st.g("link", (arr.r, s0, s))
        return [s], (s, s0, st.mem[arr.r].fields[0][2])

    def post(ex, st, rv, c):
        s, s0, A0 = c
        t = strval(st, s)
        link = st.ghost["link"]
        if not link[1].eq(t):
            raise Unsupported("content of the string")
        A, k, n = st.mem[link[0]].fields[0][2], z3.Length(t), z3.Length(s0)
        i, j, x = z3.Ints("i j x")
        ex.oblige(st, "distinct.size", z3.And(k <= n, (k == 0) == (n == 0)))
        ex.oblige(st, "distinct.strictly-increasing", z3.Implies(z3.And(i >= 0, i < j, j < k), A[i] < A[j]))
        ex.oblige(st, "distinct.nothing-new", z3.Implies(z3.And(i >= 0, i < k), z3.Exists([x], z3.And(x >= 0, x < n, A0[x] == A[i]))))
        ex.oblige(st, "distinct.nothing-lost", z3.Implies(z3.And(i >= 0, i < n), z3.Exists([x], z3.And(x >= 0, x < k, A[x] == A0[i]))))
    verify(ex, one(mod, r"sort_and_remove_duplicates<"), setup, post, title="uri::punycode::details::sort_and_remove_duplicates", name="distinct")


def prove_small(rep, mod):
    ex = Exec(mod, rep, dom=BVD, prefix="C11.")
    d = z3.BitVec("d", 32)

    def setup(st):
        st.assume(z3.ULT(d, 36))
        return [d], None

    def post(ex, st, rv, _):
        for v in range(36):
            ex.oblige(st, "digit.rfc3492-section5", z3.Implies(d == v, ex.D.z(rv, 8) == (v + 97 if v < 26 else v + 22)))
    verify(ex, one(mod, r"^verif::digit\("), setup, post, title="uri::punycode::details::encode_digit", name="digit")
    ex = Exec(mod, rep, prefix="C11.")
    k, b = z3.Ints("k bias")

    def setup2(st):
        st.assume(k >= 0, k < 2**40, b >= 0, b <= BIAS)
        return [k, b], None
    verify(ex, one(mod, r"^verif::clamp\("), setup2, lambda ex, st, rv, _: ex.oblige(st, "clamp.rfc3492-section6.3", zi(rv) == c12.thr(k, b)), title="uri::punycode::details::clamp", name="clamp")
    c12.prove_adapt(rep, mod, "C11.")


# ---- lemmas -----------------------------------------------------------------------------
def lemmas(rep, mod):
    ex = Exec(mod, rep, prefix="C11.")
    ex.fnstack = ["lemma"]
    arith.lemmas(ex)
    rep.functions["lemma: counts, filters and the least code point"] = "lemma"
    i, j, n, x, N = z3.Ints("i j n x N")
    c = z3.Array("c", I, I)
    S = Spec(ex, c, N)
    C, Q = S.CNT, S.EQ
    z = z3.IntVal(0)

    def prove(name, phi, *given):
        st = State()
        st.assume(*given)
        if given and ex.check(st, z3.BoolVal(True), 3000)[0] == z3.unsat:
            raise Unsupported("contradictory premises of lemma " + name)
        ex.oblige(st, "lemma." + name, phi)

    def induction(name, P, step, *given):
        prove(name + ".base", P(z), *given, *step(z))
        prove(name + ".step", P(j + 1), j >= 0, P(j), *given, *step(j))
    # the recursions of the counts
    cstep = lambda n: lambda j: [C(n, z) == 0, C(n, j + 1) == C(n, j) + z3.If(c[j] < n, 1, 0)]
    induction("count.bounds", lambda j: z3.And(C(n, j) >= 0, C(n, j) <= j), cstep(n))
    # one that is not below: fewer than j; all below otherwise
    induction("count.not-below", lambda j: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j, c[i] >= n), C(n, j) < j)), cstep(n), z3.ForAll([j], z3.Implies(j >= 0, C(n, j) <= j)))
    induction("count.all-below", lambda j: z3.Implies(C(n, j) < j, z3.Exists([i], z3.And(i >= 0, i < j, c[i] >= n))), cstep(n), z3.ForAll([j], z3.Implies(j >= 0, C(n, j) <= j)))
    induction("count.up-to", lambda j: C(n + 1, j) == C(n, j) + Q(n, j), lambda j: cstep(n)(j) + cstep(n + 1)(j) + [Q(n, z) == 0, Q(n, j + 1) == Q(n, j) + z3.If(c[j] == n, 1, 0)])
    m = z3.Int("m")
    # when no code point is in [n, m)
    induction("count.same-below", lambda j: z3.Implies(j <= N, C(n, j) == C(m, j)), lambda j: cstep(n)(j) + cstep(m)(j) + [z3.Implies(z3.And(j >= 0, j < N, c[j] >= n), c[j] >= m)], n <= m)
    induction("count.monotone", lambda j: C(n, j) <= C(m, j), lambda j: cstep(n)(j) + cstep(m)(j), n <= m)
    estep = lambda j: [Q(n, z) == 0, Q(n, j + 1) == Q(n, j) + z3.If(c[j] == n, 1, 0)]
    induction("count.equal-grows", lambda j: z3.And(Q(n, j) >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= j), Q(n, i) <= Q(n, j)))), estep)
    split = lambda j: [S.BASIC(z) == E0, S.OTHER(z) == E0, S.BASIC(j + 1) == z3.If(c[j] < 128, seqcat(S.BASIC(j), z3.Unit(c[j])), S.BASIC(j)),
                       S.OTHER(j + 1) == z3.If(c[j] < 128, S.OTHER(j), seqcat(S.OTHER(j), z3.Unit(c[j])))] + cstep(128)(j)
    induction("split.lengths", lambda j: z3.And(z3.Length(S.OTHER(j)) == j - C(128, j), z3.Length(S.BASIC(j)) == C(128, j)), split)
    # the elements of OTHER are the code points from 128 on
    at, frm = z3.Function("at", I, I), z3.Function("from", I, I)
    O, O1 = S.OTHER(j), S.OTHER(j + 1)
    prove("split.none-lost", z3.And(z3.Implies(z3.And(i < j), O1[at(i)] == c[i]), z3.Implies(i == j, O1[z3.Length(O)] == c[i])), j >= 0, i >= 0, i <= j, c[i] >= 128,
          z3.Implies(i < j, z3.And(at(i) >= 0, at(i) < z3.Length(O), O[at(i)] == c[i])), *split(j))
    prove("split.none-new", z3.Exists([i], z3.And(i >= 0, i <= j, c[i] == O1[x], c[i] >= 128)), j >= 0, x >= 0, x < z3.Length(O1),
          z3.Implies(x < z3.Length(O), z3.And(frm(x) >= 0, frm(x) < j, c[frm(x)] == O[x], c[frm(x)] >= 128)), *split(j))
    # if some code point is from n on there is a least one
    have, k = z3.Function("have", I, I), z3.Int("k")
    least = lambda j, v, k: z3.And(k >= 0, k < j, c[k] == v, v >= n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j, c[i] >= n), v <= c[i])))
    v = z3.Int("v")
    prove("least.exists", z3.Exists([v, k], least(j + 1, v, k)), j >= 0, z3.Or(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < j), c[i] < n)), least(j, x, m)), z3.Or(c[j] >= n, least(j, x, m)))
    ex.flush()


def round_trip(rep, mod):
    """Decoding (the specification of C12) the encoding (the specification above) gives the input back. By induction over
    the encoder's steps, with the decoder's state after the integers written so far:
    delta = (n - n_d)(h + 1) + p - i_d, where p code points among the first j are at most n, and the decoder's output is
    those in order followed by those after j that are below n."""
    ex = Exec(mod, rep, prefix="C11.")
    ex.fnstack = ["lemma"]
    rep.functions["lemma: decoding inverts encoding"] = "lemma"
    j, n, N, A, x = z3.Ints("j n N A x")
    c = z3.Array("c", I, I)
    S = Spec(ex, c, N)
    z = z3.IntVal(0)
    Ln = z3.Length

    def prove(name, phi, *given):
        st = State()
        st.assume(*given)
        if given and ex.check(st, z3.BoolVal(True), 3000)[0] == z3.unsat:
            raise Unsupported("contradictory premises of lemma " + name)
        ex.oblige(st, "lemma.round-trip." + name, phi)
    # digits
    d = z3.Int("d")
    digits = lambda d: [z3.Implies(z3.And(d >= 0, d < 36), z3.And(c12.DIG(ED(d)) == d, ED(d) != 45, ED(d) >= 0, ED(d) < 128))]
    for v in range(36):
        e = v + 97 if v < 26 else v + 22
        prove("digit", z3.And(c12.digit(z3.IntVal(e)) == v, z3.BoolVal(e != 45 and 0 <= e < 128)))
    # arithmetic
    r, q1, s_, t, w, e = z3.Ints("r q1 s t w e")
    prove("arith.digit", (t + r) * w + q1 * (s_ * w) == (t + (s_ * q1 + r)) * w)
    prove("arith.weight", z3.Implies(z3.And(d >= 1, w >= 1), d * w >= w))
    prove("arith.position", z3.Implies(z3.And(e >= 0, s_ > r, r >= 0), z3.And((e * s_ + r) / s_ == e, (e * s_ + r) % s_ == r)))
    a1, a2 = z3.Ints("a1 a2")
    prove("arith.distance", a1 * s_ + s_ + a2 * s_ == (a1 + a2 + 1) * s_)
    # one variable-length integer: W = P EV(q) R in memory from A on
    W, P, R = z3.Consts("W P R", SeqI)
    end = A + Ln(W)
    vli = c12.Vli(ex, end)
    held = lambda p: [z3.Implies(z3.And(p >= 0, p < Ln(W)), z3.Select(M, A + p) == W[p])]
    q, k, b, i, w = z3.Ints("q k bias i w")

    def says(P, q, k, i, w, R):
        """the claim for P, q, k, i, w, R"""
        pre = z3.And(W == seqcat(P, EV(q, k, b), R), q >= 0, i >= 0, w >= 1, MUL(q, w) >= 0, MUL(q, w) <= 2**57, i + MUL(q, w) <= 2**61)
        a = A + Ln(P)
        res, val, nxt = vli.of(a, i, w, k, b)
        return pre, z3.And(res == 0, val == i + MUL(q, w), nxt == a + Ln(EV(q, k, b)), Ln(EV(q, k, b)) >= 1)
    pre, post = says(P, q, k, i, w, R)
    T = THR(k, b)
    sx, s36 = q - T, 36 - T
    dg = T + REM(sx, s36)
    q2, w2 = DIV(sx, s36), MUL(s36, w)
    i2 = i + MUL(dg, w)
    pre2, post2 = says(seqcat(P, z3.Unit(ED(dg))), q2, k + 36, i2, w2, R)
    common = [pre, T >= 1, T <= 26] + ev_unfold(q, k, b) + held(Ln(P)) + vli.unfold(A + Ln(P), i, w, k, b)
    prove("integer.last", z3.Implies(q < T, post), *common, *digits(q))
    more = common + digits(dg) + [q >= T,
                                  MUL(dg, w) + MUL(q2, w2) == MUL(q, w),                              # arith.digit
                                  z3.Implies(z3.And(dg >= 1, w >= 1), MUL(dg, w) >= w), MUL(q2, w2) >= 0, MUL(dg, w) >= 0]   # arith.weight
    prove("integer.smaller", z3.And(q2 < q, q2 >= 0, dg < 36, dg >= T), *more)
    prove("integer.applies", pre2, *more, dg < 36, dg >= T, q2 >= 0)
    prove("integer.more", post, *more, dg < 36, dg >= T, q2 >= 0, pre2, post2)
    # no digit is a hyphen
    nohy = lambda X, x=x: z3.Implies(z3.And(x >= 0, x < Ln(X)), X[x] != 45)      # for every x
    prove("integer.no-hyphen.last", nohy(EV(q, k, b)), q >= 0, q < T, *ev_unfold(q, k, b), *digits(q), T <= 26)
    prove("integer.no-hyphen.more", nohy(EV(q, k, b)), q >= T, nohy(EV(q2, k + 36, b), x - 1), *ev_unfold(q, k, b), *digits(dg), dg >= 0, dg < 36)
    # filters: of the first j those that are at most n, of the others those below n
    PRE, POST, IN = z3.Function("upto", I, I, SeqI), z3.Function("rest", I, I, SeqI), z3.Function("input", I, SeqI)

    def filt(n, j):
        y = c[j]
        return [PRE(n, z) == E0, POST(n, N) == E0,
                z3.Implies(z3.And(j >= 0, j < N), z3.And(PRE(n, j + 1) == z3.If(y <= n, seqcat(PRE(n, j), z3.Unit(y)), PRE(n, j)), POST(n, j) == z3.If(y < n, seqcat(z3.Unit(y), POST(n, j + 1)), POST(n, j + 1))))]
    m = z3.Int("m")
    f1 = lambda j: seqcat(PRE(n, j), POST(m, j)) == POST(m, z)
    between = z3.Implies(z3.And(j >= 0, j < N), z3.Or(c[j] <= n, c[j] >= m))
    prove("filter.base", f1(z), *filt(n, z), *filt(m, z))
    prove("filter.step", f1(j + 1), f1(j), j >= 0, j < N, n < m, between, *filt(n, j), *filt(m, j))
    f2 = lambda j: seqcat(S.BASIC(j), POST(m, j)) == POST(m, z)
    prove("filter.basic.base", f2(z), *filt(m, z), *S.start(z))
    prove("filter.basic.step", f2(j + 1), f2(j), j >= 0, j < N, m >= 128, z3.Implies(z3.And(j >= 0, j < N), z3.Or(c[j] < 128, c[j] >= m)), *filt(m, j), *S.start(j))
    inp = [IN(z) == E0, IN(j + 1) == seqcat(IN(j), z3.Unit(c[j]))]
    prove("filter.all.base", PRE(n, z) == IN(z), *inp, *filt(n, z))
    prove("filter.all.step", PRE(n, j + 1) == IN(j + 1), PRE(n, j) == IN(j), j >= 0, j < N, c[j] <= n, *inp, *filt(n, j))
    prove("filter.all-basic.step", S.BASIC(j + 1) == IN(j + 1), S.BASIC(j) == IN(j), j >= 0, j < N, c[j] < 128, *inp, *S.start(j))
    prove("filter.all-basic.base", S.BASIC(z) == IN(z), *inp, *S.start(z))
    # the main induction
    dec = c12.Dec(ex, vli)
    delta, bias, h, nd, idx = z3.Ints("delta bias h nd idx")
    out, od, R0 = z3.Consts("out od R0", SeqI)
    whole = IN(N)
    b0 = S.CNT(128, N)

    def related(j, n, delta, bias, h, out, nd, idx, od):
        return [j >= 0, j <= N, N < K, n >= 128, n <= LAST, h == S.CNT(n, N) + S.EQ(n, j), h <= N, h >= 0, bias >= 0, bias <= BIAS,
                delta == MUL(n - nd, h + 1) + Ln(PRE(n, j)) - idx, delta >= 0, delta <= n * K + j, nd >= 128, nd <= n,
                od == seqcat(PRE(n, j), POST(n, j)), Ln(od) == h, idx >= 0, idx <= h, (idx == 0) == (h == b0)]

    def good(out, nd, idx, bias, od):
        """decoding the rest gives the input"""
        err, res = dec.of(A + Ln(out), nd, idx, bias, od)
        return z3.And(err == 0, res == whole)

    def tail(F_, out, rest):
        """the result begins with what is written, and no hyphen follows"""
        return z3.And(F_ == seqcat(out, rest), nohy(rest))
    st0 = (j, n, delta, bias, h, out)
    rel = related(*st0, nd, idx, od)
    F0 = S.F(*st0)
    step = S.inner(*st0) + filt(n, j) + S.eq_step(n, j)
    y = c[j]
    # a code point below n
    nxt = (j + 1, n, delta + 1, bias, h, out)
    for what, cond, nxt in (("below", y < n, (j + 1, n, delta + 1, bias, h, out)), ("above", y > n, (j + 1, n, delta, bias, h, out))):
        given = rel + step + [j < N, cond]
        prove(what + ".related", z3.And(*related(*nxt, nd, idx, od)), *given)
        prove(what + ".result", z3.Implies(tail(S.F(*nxt), out, R0), tail(F0, out, R0)), *given)
    # the code point itself: the decoder reads delta and inserts n
    ev = EV(delta, z3.IntVal(36), bias)
    out2 = seqcat(out, ev)
    nxt = (j + 1, n, z3.IntVal(0), ADAPT(delta, h + 1, h == b0), h + 1, out2)
    pos = Ln(PRE(n, j))
    od2 = c12.inserted(od, pos, n)
    given = rel + step + [j < N, y == n]
    adr = [z3.Implies(h >= 0, z3.And(ADAPT(delta, h + 1, h == b0) >= 0, ADAPT(delta, h + 1, h == b0) <= BIAS))]
    counts = [S.CNT(n, N) + S.EQ(n, N) == S.CNT(n + 1, N), S.CNT(n + 1, N) <= N, z3.Implies(j + 1 <= N, S.EQ(n, j + 1) <= S.EQ(n, N)), MUL(z, h + 2) == 0, MUL(n - n, h + 2) == 0]
    prove("equal.output", od2 == seqcat(PRE(n, j + 1), POST(n, j + 1)), *given)
    prove("equal.related", z3.And(*related(*nxt, n, pos + 1, od2)), *given, *adr, *counts, od2 == seqcat(PRE(n, j + 1), POST(n, j + 1)), Ln(od2) == h + 1, S.CNT(128, N) <= S.CNT(n, N), S.EQ(n, j) >= 0, z3.Not(h + 1 == b0))
    prove("equal.handled-more", z3.Not(h + 1 == b0), *given, S.CNT(128, N) <= S.CNT(n, N), S.EQ(n, j) >= 0)
    prove("equal.length", Ln(od2) == h + 1, *given)
    R2 = z3.Const("R2", SeqI)
    prove("equal.result", tail(F0, out, seqcat(ev, R2)), *given, S.F(*nxt) == seqcat(out2, R2), nohy(R2, x - Ln(ev)), nohy(ev))
    # the integer lemma at A + |out| gives: no error, idx + delta, after the digits
    v = idx + delta
    res, val, nx = vli.of(A + Ln(out), idx, z3.IntVal(1), z3.IntVal(36), bias)
    read = z3.And(res == 0, val == v, nx == A + Ln(out) + Ln(ev), Ln(ev) >= 1)
    pre3, post3 = says(out, delta, z3.IntVal(36), idx, z3.IntVal(1), R2)
    prove("equal.integer", z3.And(z3.substitute(pre3, (b, bias)), z3.substitute(post3, (b, bias)) == read), *given, W == F0, F0 == seqcat(out, ev, R2), MUL(delta, z3.IntVal(1)) == delta)
    where = [v == MUL(n - nd, h + 1) + pos, pos <= h, DIV(v, h + 1) == n - nd, REM(v, h + 1) == pos]      # arith.position
    prove("equal.where", z3.And(v == MUL(n - nd, h + 1) + pos, pos <= h, pos >= 0), *given)
    prove("equal.decoded", good(out, nd, idx, bias, od), *given, W == seqcat(out, ev, R2), read, *where, *dec.unfold(A + Ln(out), nd, idx, bias, od), good(out2, n, pos + 1, ADAPT(delta, h + 1, h == b0), od2))
    # the end of a round, and of all
    m = S.MIN(n + 1)
    given = rel + [j == N, z3.Length(PRE(n, N)) == h, POST(n, N) == E0] + S.inner(*st0) + S.outer(n + 1, delta + 1, bias, h, out) + S.up_to(n)
    prove("round.all", z3.Length(PRE(n, N)) == h, *rel, j == N, POST(n, N) == E0)
    nxt = (z, m, delta + 1 + MUL(m - (n + 1), h + 1), bias, h, out)
    least = [m >= n + 1, m <= LAST]       # least.exists, and the code points are at most LAST
    same = [S.CNT(m, N) == S.CNT(n + 1, N), S.EQ(m, z) == 0, PRE(m, z) == E0, PRE(n, N) == POST(m, z)]      # count.same-below, filter
    prove("round.related", z3.And(*related(*nxt, nd, idx, od)), *given, h < N, *least, *same, MUL(n - nd, h + 1) + (h + 1) + MUL(m - (n + 1), h + 1) == MUL(m - nd, h + 1))
    prove("round.result", z3.Implies(tail(S.F(*nxt), out, R0), tail(F0, out, R0)), *given, h < N)
    prove("end.result", tail(F0, out, E0), *given, h >= N)
    prove("end.decoded", good(out, nd, idx, bias, od), *given, h >= N, W == F0, PRE(n, N) == whole, *dec.unfold(A + Ln(out), nd, idx, bias, od))
    # the beginning
    o2 = z3.If(b0 > 0, seqcat(S.BASIC(N), z3.Unit(z3.IntVal(45))), E0)
    o2 = z3.If(b0 > 0, seqcat(S.BASIC(N), z3.Unit(z3.IntVal(45))), S.BASIC(N))
    full = S.G(z3.IntVal(128), z, z3.IntVal(72), b0, o2)
    m = S.MIN(z3.IntVal(128))
    nxt = (z, m, MUL(m - 128, b0 + 1), z3.IntVal(72), b0, o2)
    st1 = (z, m, z + MUL(m - 128, b0 + 1), z3.IntVal(72), b0, o2)
    lit = S.BASIC(N)
    lens = [z3.Length(lit) == b0, b0 >= 0, b0 <= N, N >= 0, N < K]
    begin = lens + S.outer(z3.IntVal(128), z, z3.IntVal(72), b0, o2)
    prove("begin.related", z3.And(*related(*st1, z3.IntVal(128), z, lit)), *begin, b0 < N, m >= 128, m <= LAST, S.CNT(m, N) == b0, S.EQ(m, z) == 0, PRE(m, z) == E0, lit == POST(m, z))
    prove("begin.result", z3.Implies(tail(S.F(*st1), o2, R0), tail(full, o2, R0)), *begin, b0 < N)
    prove("begin.nothing-else", tail(full, o2, E0), *begin, b0 >= N)
    # the decoder splits the text where the encoder joined it
    p, kk = z3.Ints("p kk")
    L = c12.LASTD(A, Ln(W), z3.IntVal(45))
    lastd = lambda p: [L >= -1, L < Ln(W), z3.Implies(L >= 0, z3.Select(M, A + L) == 45), z3.Implies(z3.And(p > L, p >= 0, p < Ln(W)), z3.Select(M, A + p) != 45)]
    text = [W == seqcat(o2, R0), nohy(R0, L - Ln(o2))] + lens + held(L) + held(b0)
    prove("split.rest-at", z3.Select(M, A + L) != 45, L >= Ln(o2), L < Ln(W), *text)
    prove("split.at-the-delimiter", L == z3.If(b0 > 0, b0, -1), *text, z3.Implies(z3.And(L >= Ln(o2), L < Ln(W)), z3.Select(M, A + L) != 45), *lastd(b0))
    # its literal part is the basic code points
    Lt = c12.Literal(ex, A)
    B_, k_ = S.BASIC, z3.Int("k_")
    prove("split.basic.base", z3.Implies(z3.And(x >= 0, x < Ln(B_(z))), B_(z)[x] < 128), *S.start(z))
    prove("split.basic.step", z3.Implies(z3.And(x >= 0, x < Ln(B_(j + 1))), B_(j + 1)[x] < 128), j >= 0, z3.Implies(z3.And(x >= 0, x < Ln(B_(j))), B_(j)[x] < 128), *S.start(j))
    lp = lambda k: z3.And(Lt.ALL(k), Lt.LIT(k) == z3.Extract(lit, z, k))
    prove("split.literal.base", lp(z), *Lt.unfold(z))
    prove("split.literal.step", lp(k_ + 1), lp(k_), k_ >= 0, k_ < Ln(lit), W == seqcat(o2, R0), *lens, *held(k_), lit[k_] < 128, *Lt.unfold(k_))
    prove("split.literal", Lt.LIT(b0) == lit, lp(b0), *lens)
    # together
    start, out0 = z3.If(L >= 0, A + L + 1, A), z3.If(L >= 0, Lt.LIT(L), E0)
    err, res = dec.of(start, z3.IntVal(128), z, z3.IntVal(72), out0)
    fin = [L == z3.If(b0 > 0, b0, -1), Lt.LIT(b0) == lit, W == seqcat(o2, R0)] + lens
    prove("decode-of-encode", z3.And(err == 0, res == whole), *fin, good(o2, z3.IntVal(128), z, z3.IntVal(72), lit))
    prove("decode-of-encode.basic", good(o2, z3.IntVal(128), z, z3.IntVal(72), lit), *lens, b0 >= N, W == o2, lit == whole, *dec.unfold(A + Ln(o2), z3.IntVal(128), z, z3.IntVal(72), lit))
    ex.flush()


def prove(rep, work):
    mod = ir.Module(ir.emit(os.path.join(VERIF, "tu/penc.cpp"), work))
    prove_small(rep, mod)
    prove_distinct(rep, mod)
    lemmas(rep, mod)
    round_trip(rep, mod)
    prove_vli(rep, mod)
    prove_encode(rep, mod)
