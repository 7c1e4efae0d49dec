"""C12: Punycode decoding. decode() under contract against RFC 3492 section 6.2, for every byte string: the functions of the
specification are given by their defining equations, one step of which is unfolded where a loop contract needs it."""
import os, re, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir, arith
from ..arith import MUL, DIV, REM

I, B = z3.IntSort(), z3.BoolSort()
TOP = 2**64 - 1
TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "std::u32string is a sequence of code points (assumed contracts of vv/lib.py and insert)",
           "decode is instantiated with char const* and std::string_view (tu/puny.cpp)", "the transcription of RFC 3492 sections 5 and 6 in vv/props/c12.py"]
ASSUMPTIONS = ["inputs shorter than 2^32 bytes", "memory is not exhausted"]
NS = r"uri::punycode::details::"


# ---- RFC 3492 ------------------------------------------------------------------
DIG = z3.Function("rfc_digit", I, I)
THR = z3.Function("rfc_threshold", I, I, I)
ADAPT = z3.Function("rfc_adapt", I, I, B, I)
AD = z3.Function("rfc_adapt_loop", I, I, I)      # section 6.1, the loop and the result


def digit(c):
    """section 5: letters in either case are 0 to 25, digits 26 to 35; 36: not a digit"""
    return z3.If(z3.And(c >= 48, c <= 57), c - 22, z3.If(z3.And(c >= 65, c <= 90), c - 65, z3.If(z3.And(c >= 97, c <= 122), c - 97, z3.IntVal(36))))


def thr(k, bias):
    return z3.If(k <= bias, z3.IntVal(1), z3.If(k >= bias + 26, z3.IntVal(26), k - bias))


def ad_step(d, k):
    q = 36 * d
    return [AD(d, k) == z3.If(d > 455, AD(d / 35, k + 36), k + DIV(q, d + 38))] + arith.div_facts(q, d + 38)


def adapt(delta, np, first):
    """section 6.1"""
    d = z3.If(first, delta / 700, delta / 2)
    return AD(d + DIV(d, np), z3.IntVal(0)), arith.div_facts(d, np)


# contracts of the functions that are proved on their own
def digit_c(ex, st, a, w, n):
    r = DIG(zi(a[0]))
    st.assume(r >= 0, r <= 36)
    return [(st, r)]


def thr_c(ex, st, a, w, n):
    k, bias = zi(a[0]), zi(a[1])
    ex.oblige(st, w + ".bias", z3.And(bias >= 0, bias <= BIAS))
    r = THR(k, bias)
    st.assume(r >= 1, r <= 26)
    return [(st, r)]


def adapt_c(ex, st, a, w, n):
    np = zi(a[1])
    ex.oblige(st, w + ".points", np >= 1)
    r = ADAPT(zi(a[0]), np, a[2] if z3.is_bool(a[2]) else z3.BoolVal(bool(a[2])) if isinstance(a[2], (bool, int)) else a[2] != 0)
    st.assume(r >= 0, r <= BIAS)
    return [(st, r)]


BIAS = 16848     # a bound of the bias (adapt)


class Vli:
    """section 6.2, the inner loop: (error, value, next) from position a with i, w, k so far"""

    def __init__(self, ex, text_end):
        u = ex.uniq("")
        self.b = text_end
        self.RES, self.VAL, self.NXT = [z3.Function(n + u, I, I, I, I, I, I) for n in ("vli_error", "vli_value", "vli_next")]

    def of(self, a, i, w, k, bias):
        xs = [zi(x) for x in (a, i, w, k, bias)]
        return self.RES(*xs), self.VAL(*xs), self.NXT(*xs)

    def unfold(self, a, i, w, k, bias):
        a, i, w, k, bias = [zi(x) for x in (a, i, w, k, bias)]
        r, v, x = self.of(a, i, w, k, bias)
        dg = DIG(z3.Select(M, a))
        t = THR(k, bias)
        i2, w2 = i + MUL(dg, w), MUL(36 - t, w)
        r2, v2, x2 = self.of(a + 1, i2, w2, k + 36, bias)
        go = z3.And(a < self.b, dg < 36, i2 <= TOP)
        stop = dg < t
        return [r == z3.If(a >= self.b, 1, z3.If(dg >= 36, 1, z3.If(i2 > TOP, 2, z3.If(stop, 0, z3.If(w2 > TOP, 2, r2))))),
                v == z3.If(z3.And(go, z3.Not(stop)), v2, i2), x == z3.If(z3.And(go, z3.Not(stop)), x2, a + 1),
                z3.Or(r == 0, r == 1, r == 2)] + arith.mul_facts(dg, w) + arith.mul_facts(36 - t, w) + [dg >= 0, dg <= 36, t >= 1, t <= 26]


def inserted(out, i, c):
    return z3.Concat(z3.Extract(out, 0, i), z3.Unit(c), z3.Extract(out, i, z3.Length(out) - i))


class Dec:
    """section 6.2, the main loop: (error, output) from position a in state n, i, bias, output"""

    def __init__(self, ex, vli):
        u = ex.uniq("")
        self.vli = vli
        self.ERR = z3.Function("decode_error" + u, I, I, I, I, SeqI, I)
        self.OUT = z3.Function("decode_output" + u, I, I, I, I, SeqI, SeqI)

    def of(self, a, n, i, bias, out):
        xs = [zi(x) for x in (a, n, i, bias)] + [out]
        return self.ERR(*xs), self.OUT(*xs)

    def unfold(self, a, n, i, bias, out):
        a, n, i, bias = [zi(x) for x in (a, n, i, bias)]
        e, o = self.of(a, n, i, bias, out)
        r, v, x = self.vli.of(a, i, z3.IntVal(1), z3.IntVal(36), bias)
        ln = z3.Length(out) + 1
        q, at = DIV(v, ln), REM(v, ln)
        bias2 = ADAPT(v - i, ln, i == 0)
        out2 = inserted(out, at, n + q)
        e2, o2 = self.of(x, n + q, at + 1, bias2, out2)
        end, over = a >= self.vli.b, n + q > 2**32 - 1
        return [e == z3.If(end, 0, z3.If(r != 0, r, z3.If(over, 2, e2))), o == z3.If(end, out, o2), z3.Implies(r == 0, z3.Length(out2) == ln)] + arith.div_facts(v, ln) + self.vli.unfold(a, i, 1, 36, bias)


# ---- loop contracts --------------------------------------------------------------
isint = lambda v, s: s in (4, 8) and not isinstance(v, (Ptr, Undef, PtrInt, Bundle, tuple)) and not (z3.is_expr(v) and v.sort() != I)
isptr = lambda v, s: isinstance(v, Ptr) and v.r == TEXT


def inside(ex, a):
    """no unit of the range at address a ends it"""
    t, n, unit = ex.label or (a, None, None)
    return [] if n is None else [z3.Implies(z3.And(a >= t, a < t + n), z3.Select(M, a) != unit)]


isseq = lambda v, s: z3.is_expr(v) and v.sort() == SeqI


class VliLoop(LoopSpec):
    def __init__(self):
        self.spec = None

    def roles(self, ex, st, view):
        ints, ptrs = view.modified(isint), view.modified(isptr)
        ks = [k for k in ints if view.cell(k) == 36 and isinstance(view.cell(k), int)]
        ws = [k for k in ints if view.cell(k) == 1 and isinstance(view.cell(k), int)]
        biases = []
        for _, key in view.locals(lambda v, s: s == 8 and isint(v, s)):
            if key not in ints and not any(view.cell(key) is b or (z3.is_expr(b) and z3.is_expr(view.cell(key)) and b.eq(view.cell(key))) for b in biases):
                biases.append(view.cell(key))
        for p in ptrs:
            for k in ks:
                for w in ws:
                    for v in ints:
                        if v in (k, w):
                            continue
                        for bias in reversed(biases):
                            yield {"p": p, "k": k, "w": w, "v": v, "bias": zi(bias), "start": (view.cell(p).addr(), zi(view.cell(v)))}

    def cur(self, view, ro):
        return view.cell(ro["p"]).addr(), zi(view.cell(ro["v"])), zi(view.cell(ro["w"])), zi(view.cell(ro["k"])), ro["bias"]

    def inv(self, ex, st, view, ro):
        a, v, w, k, bias = self.cur(view, ro)
        a0, v0 = ro["start"]
        now, then = self.spec.of(a, v, w, k, bias), self.spec.of(a0, v0, 1, 36, bias)
        return [("range", z3.And(a0 <= a, a <= self.spec.b)), ("rfc", z3.And(*[x == y for x, y in zip(now, then)])),
                ("value", z3.And(v >= v0, v <= TOP)), ("weight", z3.Or(*[z3.And(k == 36 * (j + 1), w >= 10**j) for j in range(20)])), ("weight-fits", z3.And(w >= 1, w <= TOP))]

    def facts(self, ex, st, view, ro):
        a, v, w, k, bias = self.cur(view, ro)
        return inside(ex, a) + self.spec.unfold(a, v, w, k, bias) + self.spec.unfold(ro["start"][0], ro["start"][1], 1, 36, bias)

    def variant(self, ex, st, view, ro):
        return self.spec.b - view.cell(ro["p"]).addr()


class AdaptLoop(LoopSpec):
    def roles(self, ex, st, view):
        ints = view.modified(isint)
        for d in ints:
            for k in ints:
                if k != d and isinstance(view.cell(k), int) and view.cell(k) == 0:
                    yield {"d": d, "k": k, "d0": zi(view.cell(d))}

    def inv(self, ex, st, view, ro):
        d, k = zi(view.cell(ro["d"])), zi(view.cell(ro["k"]))
        return [("rfc", AD(d, k) == AD(ro["d0"], z3.IntVal(0))), ("steps", z3.Or(*[z3.And(k == 36 * j, d * 35**j <= ro["d0"]) for j in range(14)])), ("range", z3.And(d >= 0, d <= TOP))]

    def facts(self, ex, st, view, ro):
        return ad_step(zi(view.cell(ro["d"])), zi(view.cell(ro["k"])))

    def variant(self, ex, st, view, ro):
        return zi(view.cell(ro["d"]))


class Literal:
    """the part before the last delimiter: its code points, and whether all are basic"""

    def __init__(self, ex, a):
        u = ex.uniq("")
        self.a = a
        self.LIT, self.ALL = z3.Function("literal" + u, I, SeqI), z3.Function("all_basic" + u, I, B)

    def unfold(self, k):
        c = z3.Select(M, self.a + k)
        return [self.ALL(z3.IntVal(0)), self.LIT(z3.IntVal(0)) == z3.Empty(SeqI),
                z3.Implies(k >= 0, z3.And(self.ALL(k + 1) == z3.And(self.ALL(k), c < 128), self.LIT(k + 1) == seqcat(self.LIT(k), z3.Unit(c)), z3.Length(self.LIT(k)) == k))]


class CopyLoop(LoopSpec):
    def __init__(self):
        self.lit = self.n = None

    def roles(self, ex, st, view):
        for p in view.modified(isptr):
            for o in view.modified(isseq):
                yield {"p": p, "o": o}

    def inv(self, ex, st, view, ro):
        i = view.cell(ro["p"]).addr() - self.lit.a
        return [("range", z3.And(i >= 0, i <= self.n)), ("basic", self.lit.ALL(i)), ("copied", view.cell(ro["o"]) == self.lit.LIT(i))]

    def facts(self, ex, st, view, ro):
        return inside(ex, view.cell(ro["p"]).addr()) + self.lit.unfold(view.cell(ro["p"]).addr() - self.lit.a)

    def variant(self, ex, st, view, ro):
        return self.n - (view.cell(ro["p"]).addr() - self.lit.a)


class MainLoop(LoopSpec):
    def __init__(self):
        self.spec = None

    def roles(self, ex, st, view):
        ints, ptrs = [k for k in view.modified(isint)], view.modified(isptr)
        val = lambda k, x: isinstance(view.cell(k), int) and view.cell(k) == x
        for p in ptrs:
            for o in view.modified(isseq):
                for n in ints:
                    for i in ints:
                        for b in ints:
                            if val(n, 128) and val(i, 0) and val(b, 72):
                                yield {"p": p, "o": o, "n": n, "i": i, "b": b, "start": (view.cell(p).addr(), view.cell(o))}

    def cur(self, view, ro):
        return view.cell(ro["p"]).addr(), zi(view.cell(ro["n"])), zi(view.cell(ro["i"])), zi(view.cell(ro["b"])), view.cell(ro["o"])

    def inv(self, ex, st, view, ro):
        a, n, i, b, o = self.cur(view, ro)
        a0, o0 = ro["start"]
        now, then = self.spec.of(a, n, i, b, o), self.spec.of(a0, 128, 0, 72, o0)
        end = self.spec.vli.b
        return [("range", z3.And(a0 <= a, a <= end)), ("rfc-error", now[0] == then[0]), ("rfc-output", now[1] == then[1]),
                ("n", z3.And(n >= 128, n < 2**32)), ("i", z3.And(i >= 0, i <= z3.Length(o))), ("bias", z3.And(b >= 0, b <= BIAS)),
                ("length", z3.Length(o) + (end - a) <= z3.Length(o0) + (end - a0))]

    def facts(self, ex, st, view, ro):
        return inside(ex, self.cur(view, ro)[0]) + self.spec.unfold(*self.cur(view, ro))

    def variant(self, ex, st, view, ro):
        return self.spec.vli.b - view.cell(ro["p"]).addr()


# ---- contracts at calls -----------------------------------------------------------
def insert(ex, st, a, w, n):
    s, at, k = strval(st, a[0]), zi(a[1]), ex.concretize(st, zi(a[2]))
    ex.oblige(st, w + ".insert-position", z3.And(at >= 0, at <= z3.Length(s)))
    if k != 1:
        raise Unsupported("insert of more than one")
    setstr(st, a[0], inserted(s, at, zi(a[3])))
    return [(st, a[0])]


def make_error(ex, st, a, w, n):
    return [(st, [a[0], ex.category])]


LASTD = z3.Function("last_occurrence", I, I, I, I)      # C17: of a byte in n bytes from a, or -1


def find_last(ex, st, a, w, n):
    """proved in C17"""
    first, last, v = a[1], a[2], zi(ex.load(st, a[-1], ("i", 8), w))
    if ex.label and len(a) == 5:       # up to the sentinel, which is at the end of the label
        t, n, _ = ex.label
        ex.oblige(st, w + ".sentinel", z3.And(first.addr() >= t, first.addr() <= t + n, last.addr() >= t + n))
        last = Ptr(TEXT, Lin.of(t + n))
    b, n = first.addr(), last.addr() - first.addr()
    readable_range(ex, st, first, n, w)
    L = LASTD(b, n, v)
    st.assume(L >= -1, z3.Implies(L >= 0, z3.And(L < n, z3.Select(M, b + L) == v)))
    st.g("split", (b, n, v))
    return [(st, [Ptr(TEXT, Lin.of(z3.simplify(z3.If(L >= 0, b + L, b + n)))), last])]


def contracts(ex):
    string_contracts(ex, U32)
    ex.contract(U32 + r"insert\(unsigned long, unsigned long, char32_t\)$", insert)
    ex.contract(U32 + r"operator=\(std::__cxx11::basic_string<char.*&&\)$", move_assign)
    ex.contract(r"^uri::punycode::make_error_code\(", make_error)
    for f in ex.mod.funcs:
        if f.startswith("_ZNK3uri7details12find_last_fncl"):
            ex._hc[f] = find_last


def modular(ex):
    ex.contract(r"^" + NS + r"decode_digit\(", digit_c)
    ex.contract(r"^" + NS + r"clampk?\(", thr_c)
    ex.contract(r"^" + NS + r"adapt\(", adapt_c)


def move_assign(ex, st, a, w, n):
    mv(ex, st, a, w, n)
    return [(st, a[0])]


def text_hint(a, n):
    def h(m):
        t = textbytes(m, a, n)
        return None if t is None else [t]
    return h


def prove_decode(rep, mod, rx, view, prefix="C12.", title=None, label=None):
    """label: the byte that ends the range (a take_while view over a longer text)"""
    ex = Exec(mod, rep, prefix=prefix)
    ex.nl = arith.NL()
    contracts(ex)
    modular(ex)
    vl, cl, ml = VliLoop(), CopyLoop(), MainLoop()
    ex.loop(NS + "decode_vli", None, vl)
    ex.loop(NS + "copy_plain_ascii_part", None, cl)
    ex.loop(NS + "decode_loop", None, ml)

    def setup(st):
        p, n = ex.text(st, "input")
        st.assume(n < 2**32)
        whole = n
        if label is not None:
            n = z3.Int("label_n")
            st.assume(n >= 0, n <= whole, z3.Implies(n < whole, z3.Select(M, p.addr() + n) == label))
        a, b = p.addr(), p.addr() + zi(n)
        ex.label = (a, n, label) if label is not None else None
        cat = ex.alloc(st, 8, "category")
        ex.category = cat
        lit = cl.lit = Literal(ex, a)
        cl.n = LASTD(a, zi(n), 45)
        v = Vli(ex, b)
        vl.spec = v
        ml.spec = d = Dec(ex, v)
        out = ex.alloc(st, 32, "out")
        o0 = z3.Const(ex.uniq("out0"), SeqI)
        setstr(st, out, o0)
        nx = ex.alloc(st, 8, "in")
        st.mem[nx.r].cells[0] = (8, Ptr(NULL, 0))
        ex.hint = text_hint(a, zi(n))
        if label is not None:
            plain = ex.hint
            ex.hint = lambda m: (lambda t: t and [b"d", b"xn--" + t[0]])(plain(m))
        q = Ptr(TEXT, ladd(p.o, n))
        if view:
            s = ex.alloc(st, 16, "text")
            st.mem[s.r].cells[0], st.mem[s.r].cells[8] = (8, whole), (8, p)
            return [s, out, nx], (a, zi(n), b, lit, d, out, o0, nx)
        return [p, q, out, nx], (a, zi(n), b, lit, d, out, o0, nx)

    def post(ex, st, rv, c):
        a, n, b, lit, d, out, o0, nx = c
        L = LASTD(a, n, 45)
        k = z3.Int("k")
        st.assume(L >= -1, L < n, lit.ALL(0), lit.LIT(0) == z3.Empty(SeqI))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= L, lit.ALL(L)), lit.ALL(k)), patterns=[lit.ALL(k)]))    # lemma.literal
        start, out0 = z3.If(L >= 0, a + L + 1, a), z3.If(L >= 0, lit.LIT(L), z3.Empty(SeqI))
        err, res = d.of(start, 128, 0, 72, out0)
        bad = z3.And(L >= 0, z3.Not(lit.ALL(L)))
        rv = zi(rv)
        ex.oblige(st, "decode.literal-not-basic", z3.Implies(bad, rv == 1))
        ex.oblige(st, "decode.error", z3.Implies(z3.Not(bad), rv == err))
        ex.oblige(st, "decode.output", z3.Implies(rv == 0, strval(st, out) == res))
        at = st.mem[nx.r].cells[0][1]
        ex.oblige(st, "decode.end", z3.Implies(rv == 0, at.addr() == b if isinstance(at, Ptr) and at.r == TEXT else z3.BoolVal(False)))
        ex.oblige(st, "decode.no-partial-result", z3.Implies(rv != 0, strval(st, out) == o0))
    verify(ex, one(mod, rx), setup, post, title=title or "uri::punycode::decode " + ("of a range" if view else "of two iterators"), name="decode")


def prove_small(rep, mod):
    c = z3.Int("c")
    # decode_digit: all bytes
    ex = Exec(mod, rep, dom=BVD, prefix="C12.")
    u = z3.BitVec("c", 8)

    def post(ex, st, rv, _):
        for b in range(256):
            want = b - 22 if 48 <= b <= 57 else b - 65 if 65 <= b <= 90 else b - 97 if 97 <= b <= 122 else 36
            ex.oblige(st, "digit.rfc3492-section5", z3.Implies(u == b, ex.D.z(rv, 32) == want))
    ex.hint = lambda m: [bytes([m.eval(u, model_completion=True).as_long()])]
    verify(ex, one(mod, r"^verif::digit\("), lambda st: ([u], None), post, title="uri::punycode::details::decode_digit", name="digit")
    # clampk
    ex = Exec(mod, rep, prefix="C12.")
    k, b = z3.Ints("k bias")

    def setup(st):
        st.assume(k >= 0, k < 2**40, b >= 0, b <= BIAS)
        return [k, b], None
    verify(ex, one(mod, r"^verif::clampk\("), setup, lambda ex, st, rv, _: ex.oblige(st, "clampk.rfc3492-section6.2", zi(rv) == thr(k, b)), title="uri::punycode::details::clampk", name="clampk")
    ex.oblige(State(), "clampk.range", z3.And(thr(k, b) >= 1, thr(k, b) <= 26))
    ex.flush()
    prove_adapt(rep, mod, "C12.")


def prove_adapt(rep, mod, prefix):
    ex = Exec(mod, rep, prefix=prefix)
    ex.nl = arith.NL()
    al = AdaptLoop()
    ex.loop(NS + "adapt", None, al)
    d, np, f = z3.Int("delta"), z3.Int("points"), z3.Bool("first")

    def setup(st):
        st.assume(d >= 0, d <= TOP, np >= 1, np <= TOP)
        return [d, np, f], None

    def post(ex, st, rv, _):
        want, facts = adapt(d, np, f)
        st.assume(*facts)
        ex.oblige(st, "adapt.rfc3492-section6.1", zi(rv) == want)
        ex.oblige(st, "adapt.range", z3.And(zi(rv) >= 0, zi(rv) <= BIAS))
    verify(ex, one(mod, r"^verif::adapt\("), setup, post, title="uri::punycode::details::adapt", name="adapt")


def prove_make_error(rep, work):
    mod = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/punycode.cpp"), work))
    ex = Exec(mod, rep, prefix="C12.")

    def guard(ex, st, a, w, n):
        r = z3.Int(ex.uniq("first_time"))
        st.assume(r >= 0, r <= 1)
        return [(st, r)]
    ex._hc["__cxa_guard_acquire"] = guard
    ex._hc["__cxa_guard_release"] = lambda ex, st, a, w, n: None
    ex._hc["__cxa_atexit"] = lambda ex, st, a, w, n: [(st, 0)]
    e = z3.Int("e")

    def setup(st):
        st.assume(e >= 0, e <= 2)
        for g in mod.globals:
            if g.startswith("_ZGV"):
                b = z3.Int(ex.uniq("guard"))
                st.assume(b >= 0, b <= 255)
                st.mem[ex.global_ptr(st, g).r].cells[0] = (1, b)
        return [e], None
    verify(ex, one(mod, r"^uri::punycode::make_error_code\("), setup, lambda ex, st, rv, _: ex.oblige(st, "make_error_code.value", zi(rv[0]) == e), title="uri::punycode::make_error_code", name="make_error_code")


def lemmas(rep, mod, prefix):
    ex = Exec(mod, rep, prefix=prefix)
    ex.fnstack = ["lemma"]
    rep.functions["lemma: facts of products and quotients"] = "lemma"
    arith.lemmas(ex)
    rep.functions["lemma: the literal part"] = "lemma"
    lit = Literal(ex, z3.Int("a"))
    i, j = z3.Ints("i j")
    st = State()
    st.assume(i >= 0, *lit.unfold(i))
    mono = lambda n: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n, lit.ALL(n)), lit.ALL(j)))
    ex.oblige(st, "lemma.literal.base", mono(z3.IntVal(0)))
    ex.oblige(st, "lemma.literal.step", z3.Implies(mono(i), mono(i + 1)))
    ex.flush()


def prove(rep, work):
    mod = ir.Module(ir.emit(os.path.join(VERIF, "tu/puny.cpp"), work))
    lemmas(rep, mod, "C12.")
    prove_small(rep, mod)
    prove_make_error(rep, work)
    prove_decode(rep, mod, r"^verif::decode\(", False)
    prove_decode(rep, mod, r"^verif::decode_view\(", True)
