"""C13: host names to and from ACE form. puny_encoded and puny_decoded under contract for every host, label by label:
the Punycode functions and starts_with enter by their contracts (C11, C12, C17), the label conversions they are used with
are proved again for the ranges used here."""
import os, re, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir
from . import c11, c12

I, B = z3.IntSort(), z3.BoolSort()
E0 = z3.Empty(SeqI)
DOT = 46
XN = z3.Const("ace_prefix", SeqI)
TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "std::string and std::u32string are sequences; std::ranges::copy appends the elements of its range in order, one push_back each",
           "std::views::take_while and std::ranges::subrange are executed as libstdc++ writes them",
           "puny_encoded is instantiated with std::u32string_view, puny_decoded with std::string_view (tu/host.cpp)"]
ASSUMPTIONS = ["hosts shorter than 2^31 code points or 2^32 bytes", "memory is not exhausted", "other forward ranges (the transcoding view of encode) behave as their concept says: C15"]
K = 2**31
seqtext = lambda s: seqcat(*[z3.Unit(z3.IntVal(ord(ch))) for ch in s])


class Labels:
    """a text at positions [0, n) (at(i) is its i-th unit): where the label that begins at i ends"""

    def __init__(self, ex, at, n):
        self.u = ex.uniq("")
        self.at, self.n = at, n
        self.LE = z3.Function("label_end" + self.u, I, I)

    def end(self, i, *probes):
        """the definition of the label end at i; none of the probes before it is a dot"""
        e = self.LE(i)
        return [z3.Implies(z3.And(i >= 0, i <= self.n), z3.And(e >= i, e <= self.n, z3.Implies(e < self.n, self.at(e) == DOT),
                                                               *[z3.Implies(z3.And(p >= i, p < e), self.at(p) != DOT) for p in (i,) + probes]))]

    def same(self, i, j):
        """lemma.label-end: from a position inside the label"""
        return [z3.Implies(z3.And(i >= 0, i <= j, j <= self.LE(i), i <= self.n), self.LE(j) == self.LE(i))]


class Encoded(Labels):
    """the ACE form of the host from position i, where a label begins"""

    def __init__(self, ex, at, n):
        super().__init__(ex, at, n)
        f = lambda name, *s: z3.Function(name + self.u, *s)
        self.BASIC, self.PUNY, self.OTHERS = f("basic", I, I, SeqI), f("punycode", I, I, SeqI), f("others", I, I, B)
        self.ENC, self.ANY = f("ace", I, SeqI), f("converted", I, B)

    def label(self, i):
        e = self.LE(i)
        return z3.If(self.OTHERS(i, e), seqcat(XN, self.PUNY(i, e)), self.BASIC(i, e))

    def unfold(self, i):
        e = self.LE(i)
        last = e >= self.n
        return self.end(i) + [self.ENC(i) == z3.If(last, self.label(i), seqcat(self.label(i), z3.Unit(z3.IntVal(DOT)), self.ENC(e + 1))),
                              self.ANY(i) == z3.Or(self.OTHERS(i, e), z3.And(z3.Not(last), self.ANY(e + 1)))]


class Decoded(Labels):
    """the UTF-8 form of the host from position i, where a label begins"""

    def __init__(self, ex, at, n):
        super().__init__(ex, at, n)
        f = lambda name, *s: z3.Function(name + self.u, *s)
        self.DOK, self.DERR, self.DSTR, self.TEXT = f("decodes", I, I, B), f("decode_error", I, I, I), f("decoded", I, I, SeqI), f("label_text", I, I, SeqI)
        self.UTF8 = f("utf8", SeqI, SeqI)
        self.DEC, self.ANY, self.OK, self.ERR = f("host", I, SeqI), f("converted", I, B), f("host_ok", I, B), f("host_error", I, I)

    def ace(self, i):
        return z3.And(self.LE(i) - i >= 4, *[self.at(i + k) == ord(ch) for k, ch in enumerate("xn--")])

    def unfold(self, i):
        e = self.LE(i)
        last = e >= self.n
        x, ok = self.ace(i), self.DOK(i + 4, e)
        here = z3.If(x, self.UTF8(self.DSTR(i + 4, e)), self.TEXT(i, e))
        fails = z3.And(x, z3.Not(ok))
        return self.end(i) + [self.OK(i) == z3.And(z3.Not(fails), z3.Or(last, self.OK(e + 1))),
                              self.ERR(i) == z3.If(fails, self.DERR(i + 4, e), self.ERR(e + 1)),
                              self.DEC(i) == z3.If(last, here, seqcat(here, z3.Unit(z3.IntVal(DOT)), self.DEC(e + 1))),
                              self.ANY(i) == z3.Or(x, z3.And(z3.Not(last), self.ANY(e + 1)))]


def boolean(v):
    return v if z3.is_bool(v) else zi(v) != 0


class Walk(LoopSpec):
    """labels one after the other"""

    def __init__(self, spec, pos, sink, typ):
        self.S, self.pos, self.sink, self.typ = spec, pos, sink, typ
        self.at = []

    def roles(self, ex, st, view):
        isb = lambda v, s: s == 1 and not isinstance(v, (Ptr, Undef))
        ptrs = view.modified(lambda v, s: isinstance(v, Ptr) and v.r == self.typ)
        starts = [k for k in ptrs if zi(self.pos(view.cell(k))).eq(z3.IntVal(0)) or ex.entails(st, self.pos(view.cell(k)) == 0)]
        ends = [k for k in ptrs if k not in starts and ex.entails(st, self.pos(view.cell(k)) == self.S.n)]
        outs = view.modified((lambda v, s: z3.is_expr(v) and v.sort() == SeqI) if not self.sink else (lambda v, s: s == 8 and not isinstance(v, (Ptr, Undef, PtrInt, Bundle, tuple)) and not (z3.is_expr(v) and v.sort() != I)))
        for k in range(len(starts), 0, -1):
            for o in outs:
                for f in view.modified(isb):
                    yield {"p": starts[:k], "o": o, "f": f, "out0": view.cell(o), "ends": ends}

    def out(self, view, ro):
        return view.cell(ro["o"])

    def total(self, S, out, i, f):
        return (zi(out) + z3.Length(f(i))) if self.sink else seqcat(out, f(i))

    def inv(self, ex, st, view, ro):
        S, z = self.S, z3.IntVal(0)
        i = self.pos(view.cell(ro["p"][0]))
        f = S.ENC if isinstance(S, Encoded) else S.DEC
        out = [("range", z3.And(i >= 0, i <= S.n)), ("text", self.total(S, view.cell(ro["o"]), i, f) == self.total(S, ro["out0"], z, f)),
               ("converted", z3.Or(boolean(view.cell(ro["f"])), S.ANY(i)) == S.ANY(z))]
        if self.sink:
            out.append(("size", zi(view.cell(ro["o"])) >= 0))
        for k in ro["p"][1:]:
            out.append(("same-position", self.pos(view.cell(k)) == i))
        for k in ro["ends"]:
            out.append(("end", self.pos(view.cell(k)) == S.n))
        if isinstance(S, Decoded):
            out += [("decodes", S.OK(i) == S.OK(z)), ("error", S.ERR(i) == S.ERR(z))]
        return out

    def facts(self, ex, st, view, ro):
        i = self.pos(view.cell(ro["p"][0]))
        self.at.append(i)
        f = self.S.ENC if isinstance(self.S, Encoded) else self.S.DEC
        return self.S.unfold(i) + [z3.Length(f(z3.IntVal(0))) < 2**60]

    def variant(self, ex, st, view, ro):
        return self.S.n - self.pos(view.cell(ro["p"][0]))


# ---- contracts at calls -----------------------------------------------------------
def not_dot(ex, st, p, w):
    """the predicate of a take_while view is "not a dot": executed on an arbitrary unit"""
    if not isinstance(p, Ptr) or not isinstance(p.r, tuple) or p.r[0] != "fn":
        raise Unsupported(f"predicate of a view {p} {type(p)}")
    x = z3.Int(ex.uniq("unit"))
    s = st.copy()
    s.assume(x >= 0, x < 2**32)
    for s2, v in ex.run(ex.mod.func(p.r[1]), s, [x]):
        ex.oblige(s2, w + ".stops-at-a-dot", boolean(v) == (x != DOT))


def cells(ex, st, p, n, w):
    return [ex.load(st, Ptr(p.r, ladd(p.o, 8 * k)), ("ptr",), w) for k in range(n)]


class Calls:
    def __init__(self, ex, spec, pos, ptr, walk, typ):
        self.ex, self.S, self.pos, self.ptr, self.walk, self.typ = ex, spec, pos, ptr, walk, typ

    def position(self, p, w):
        if not isinstance(p, Ptr) or p.r != self.typ:
            raise Unsupported("position in the host at " + w)
        return self.pos(p)

    def view(self, st, v, w):
        """[begin, end of the label) of a take_while view over the rest of the host"""
        ex, S = self.ex, self.S
        first, last, pred = cells(ex, st, v, 3, w)
        i = self.position(first, w)
        ex.oblige(st, w + ".to-the-end", self.position(last, w) == S.n)
        ex.oblige(st, w + ".in-range", z3.And(i >= 0, i <= S.n))
        not_dot(ex, st, pred, w)
        return self.label(st, i)

    def label(self, st, i):
        S = self.S
        st.assume(*S.end(i))
        for j in self.walk.at[-1:]:
            st.assume(*S.same(j, i))
        return i, S.LE(i)

    def append(self, st, out, v):
        out = out[0] if isinstance(out, list) else out
        if self.walk.sink:
            n = self.ex.load(st, out, ("i", 64), "sink")
            st.wr(out.r).cells[out.o] = (8, zi(n) + z3.Length(v))
            st.dirty.add((out.r, out.o, 8))
        else:
            setstr(st, out, seqcat(strval(st, out), v))
        return out

    def install(self):
        ex, S = self.ex, self.S
        string_contracts(ex)
        string_contracts(ex, U32)

        def copy_text(ex, st, a, w, n):
            rng, out = a[-2], a[-1]
            c = st.mem[rng.r].cells.get(rng.o)
            if c is not None and z3.is_expr(c[1]) and c[1].sort() == SeqI:
                v = c[1]
            else:
                ln, d = sv_at(ex, st, rng, w)
                k = ex.concretize(st, zi(ln))
                if k is None or k > 32 or not isinstance(d, Ptr) or d.r != TEXT:
                    raise Unsupported("copy of an unknown text")
                b = d.addr()
                readable_range(ex, st, d, ln, w)
                same = z3.And(k == 4, *[z3.Select(M, b + j) == ord(ch) for j, ch in enumerate("xn--")])
                if ex.entails(st, same):
                    v = XN
                else:
                    v = seqcat(*[z3.Unit(z3.Select(M, b + j)) for j in range(k)])
            out2 = self.append(st, out, v)
            return [(st, [Ptr(NULL, 0), out2])]
        ex.contract(r"std::ranges::__copy_fn::operator\(\)<(std::basic_string_view<char, std::char_traits<char>>|std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>)( const)?&, ", copy_text)

        def encode(ex, st, a, w, n):
            ret, v, plain, out = a
            i, e = self.view(st, v, w)
            out = out[0] if isinstance(out, list) else out
            p = boolean(plain)
            other = S.OTHERS(i, e)
            setstr(st, out, seqcat(strval(st, out), z3.If(z3.And(p, z3.Not(other)), S.BASIC(i, e), S.PUNY(i, e))))
            reg = st.wr(ret.r)
            for o, s, x in ((0, 1, z3.If(other, 1, 0)), (8, 8, out), (16, 8, self.ptr(e))):
                reg.cells[ret.o + o] = (s, x)
                st.dirty.add((ret.r, ret.o + o, s))
        ex.contract(r"uri::punycode::encode<std::ranges::take_while_view<", encode)

        def starts(ex, st, a, w, n):
            if [x.replace(" const&", "").replace("&", "") for x in template_args(ex.mod.dem(n), "starts_with_fn::operator()")[2:]] != ["std::ranges::equal_to", "std::identity", "std::identity"]:
                raise Unsupported("starts_with with a comparison of its own")
            v, t = a[-2], a[-1]
            i, e = self.view(st, v, w)
            ln, d = sv_at(ex, st, t, w)
            k = ex.concretize(st, zi(ln))
            if k is None or k > 32 or d.r != TEXT:
                raise Unsupported("unknown prefix")
            readable_range(ex, st, d, ln, w)
            r = z3.And(e - i >= k, *[S.at(i + j) == z3.Select(M, d.addr() + j) for j in range(k)])
            return [(st, r)]
        ex.contract(r"^bool uri::starts_with_fn::operator\(\)<std::ranges::take_while_view<", starts)

        def decode(ex, st, a, w, n):
            ret, v = a
            first, last, box = cells(ex, st, v, 3, w)
            i = self.position(first, w)
            ex.oblige(st, w + ".to-the-end", self.position(last, w) == S.n)
            ex.oblige(st, w + ".in-range", z3.And(i >= 0, i <= S.n))
            not_dot(ex, st, ex.load(st, box, ("ptr",), w), w)
            i, e = self.label(st, i)
            st.assume(S.DERR(i, e) > 0, S.DERR(i, e) < 2**31 - 1)
            out = []
            for ok in (True, False):
                s = st.copy()
                s.assume(S.DOK(i, e) if ok else z3.Not(S.DOK(i, e)))
                if not ex.feasible(s):
                    continue
                reg = s.wr(ret.r)
                if ok:
                    setstr(s, ret, S.DSTR(i, e))
                    put = ((32, 8, self.ptr(e)), (40, 1, 1))
                else:
                    put = ((0, 4, S.DERR(i, e)), (8, 8, Ptr(("fn", "category"), 0)), (40, 1, 0))
                for o, z, x in put:
                    s.wr(ret.r).cells[ret.o + o] = (z, x)
                    s.dirty.add((ret.r, ret.o + o, z))
                out.append((s, None))
            return out
        ex.contract(r"uri::punycode::decode<std::ranges::subrange<", decode)
        ex.contract(r"^std::variant<std::error_code, uri::punycode::decode_success_result<.*>>::~variant\(\)$", lambda ex, st, a, w, n: None)

        def copy_utf8(ex, st, a, w, n):
            s = ex.load(st, a[-2], ("ptr",), w)
            out = self.append(st, a[-1], S.UTF8(strval(st, s)))
            return [(st, out)]
        ex.contract(r"std::ranges::__copy_fn::operator\(\)<icubaby::ranges::transcode_view<char32_t, char8_t, ", copy_utf8)

        def copy_label(ex, st, a, w, n):
            i, e = self.view(st, a[-2], w)
            out = self.append(st, a[-1], S.TEXT(i, e))
            return [(st, [self.ptr(e), out])]
        ex.contract(r"std::ranges::__copy_fn::operator\(\)<std::ranges::take_while_view<std::ranges::subrange<char const\*", copy_label)
        ex.contract(r"^std::(_V2::)?(generic|system)_category\(\)$", lambda ex, st, a, w, n: [(st, Ptr(("fn", "category"), 0))])


def host_hint(S, special, kind):
    """a host with the labels of a counterexample: their lengths, and which are converted"""
    def h(m):
        ev = lambda e: m.eval(e, model_completion=True).as_long()
        n = ev(S.n)
        if n > 200:
            return None
        at = [ev(S.at(z3.IntVal(k))) for k in range(n)]
        out, i = [], 0
        for _ in range(12):
            e = next((k for k in range(i, n) if at[k] == DOT), n)
            t = special(m, z3.IntVal(i), z3.IntVal(e))
            out.append(t + ("" if t.startswith("xn") else "a" * max(0, min(e - i, 40) - len(t))))
            if e == n:
                break
            i = e + 1
        return [kind, ".".join(out).encode()]
    return h


def prove_encoded(rep, mod, sink):
    ex = Exec(mod, rep, prefix="C13.")
    N = z3.Int("N")
    st0 = {}

    def setup(st):
        st.assume(N >= 0, N < K, XN == seqtext("xn--"))
        arr = ex.array(st, 4, {0: (4, "i")}, N, "host")
        c = st.mem[arr.r].fields[0][2]
        at = lambda j: z3.Select(c, j)
        S = Encoded(ex, at, N)

        def pos(p):
            o = Lin.of(p.o)
            if o.c % 4 or any(k % 4 for k, _ in o.t):
                raise Unsupported("pointer between elements")
            return z3.simplify(Lin(o.c // 4, [(k // 4, e) for k, e in o.t]).z())
        walk = Walk(S, pos, sink, arr.r)
        ex.loop(r"puny_encoded", None, walk)
        Calls(ex, S, pos, lambda e: Ptr(arr.r, Lin(0, ((4, e),))), walk, arr.r).install()
        ex.hint = host_hint(S, lambda m, i, e: "\u00fc" if z3.is_true(m.eval(S.OTHERS(i, e), model_completion=True)) else "", b"e")
        view = ex.alloc(st, 16, "host_view")
        st.mem[view.r].cells[0], st.mem[view.r].cells[8] = (8, N), (8, arr)
        out = ex.alloc(st, 32, "out")
        o0 = z3.Const(ex.uniq("out0"), SeqI)
        setstr(st, out, o0)
        return ([view] if sink else [view, out]), (S, out, o0)

    def post(ex, st, rv, ctx):
        S, out, o0 = ctx
        z = z3.IntVal(0)
        if sink:
            ex.oblige(st, "encoded-size.length-or-zero", zi(rv) == z3.If(S.ANY(z), z3.Length(S.ENC(z)), 0))
            return
        ex.oblige(st, "encoded.label-by-label", strval(st, out) == seqcat(o0, S.ENC(z)))
        ex.oblige(st, "encoded.reports-conversion", boolean(rv) == S.ANY(z))
    name = "encoded_size" if sink else "encoded"
    verify(ex, one(mod, rf"^(bool|unsigned long) verif::{name}\(|^verif::{name}\("), setup, post, title="uri::details::puny_" + name, name=name)


def prove_decoded(rep, mod, sink):
    ex = Exec(mod, rep, prefix="C13.")

    def setup(st):
        p, n = ex.text(st, "host")
        st.assume(n < 2**32, XN == seqtext("xn--"))
        a = p.addr()
        S = Decoded(ex, lambda j: z3.Select(M, a + j), n)
        pos = lambda q: z3.simplify(q.addr() - a)
        walk = Walk(S, pos, sink, TEXT)
        ex.loop(r"puny_decoded", None, walk)
        Calls(ex, S, pos, lambda e: Ptr(TEXT, ladd(Lin.of(a), e)), walk, TEXT).install()
        view = ex.alloc(st, 16, "host_view")
        st.mem[view.r].cells[0], st.mem[view.r].cells[8] = (8, n), (8, p)
        out = ex.alloc(st, 32, "out")
        o0 = z3.Const(ex.uniq("out0"), SeqI)
        setstr(st, out, o0)
        extra = ex.alloc(st, 32, "result")

        ace = lambda m, i: z3.is_true(m.eval(S.ace(i), model_completion=True))
        fine = lambda m, i, e: z3.is_true(m.eval(S.DOK(i + 4, e), model_completion=True))
        ex.hint = host_hint(S, lambda m, i, e: ("xn--bcher-kva" if fine(m, i, e) else "xn--!") if ace(m, i) else "", b"d")
        return ([extra, view] if sink else [view, out, extra]), (S, out, o0, extra)

    def post(ex, st, rv, ctx):
        S, out, o0, extra = ctx
        z = z3.IntVal(0)
        cell = lambda o: st.mem[extra.r].cells[extra.o + o][1]
        if sink:
            ok = zi(cell(16)) == 1
            ex.oblige(st, "decoded-size.fails-when-a-label-does", ok == S.OK(z))
            if ex.feasible(st, ok):
                ex.oblige(st, "decoded-size.length-or-zero", z3.Implies(ok, zi(cell(0)) == z3.If(S.ANY(z), z3.Length(S.DEC(z)), 0)))
            else:
                ex.oblige(st, "decoded-size.error", zi(cell(0)) == S.ERR(z))
            return
        code = zi(rv)
        ex.oblige(st, "decoded.fails-when-a-label-does", (code <= 1) == S.OK(z))
        ex.oblige(st, "decoded.label-by-label", z3.Implies(S.OK(z), strval(st, out) == seqcat(o0, S.DEC(z))))
        ex.oblige(st, "decoded.reports-conversion", z3.Implies(S.OK(z), (code == 1) == S.ANY(z)))
        ex.oblige(st, "decoded.error", z3.Implies(z3.Not(S.OK(z)), code == S.ERR(z) + 1))
    name = "decoded_size" if sink else "decoded"
    verify(ex, one(mod, rf"^(int|std::variant<.*>) verif::{name}\(|^verif::{name}\("), setup, post, title="uri::details::puny_" + name, name=name)


def prove_small(rep, mod):
    """the container that counts: one more after each push_back"""
    fs = mod.find(r"^(void )?uri::details::ro_sink_container<char>::push_back\(")
    if not fs:
        raise Unsupported("no push_back of ro_sink_container")
    for f in fs:
        ex = Exec(mod, rep, prefix="C13.")
        n = z3.Int("n")

        def setup(st):
            st.assume(n >= 0, n < 2**62)
            sink, ch = ex.alloc(st, 8, "sink"), ex.alloc(st, 1, "char")
            st.mem[sink.r].cells[0] = (8, n)
            c = z3.Int(ex.uniq("c"))
            st.assume(c >= 0, c < 256)
            st.mem[ch.r].cells[0] = (1, c)
            return [sink, ch], sink
        verify(ex, mod.func(f), setup, lambda ex, st, rv, sink: ex.oblige(st, "sink.counts", zi(st.mem[sink.r].cells[0][1]) == n + 1), title="uri::details::ro_sink_container::push_back", name="push_back")


def lemmas(rep, mod):
    ex = Exec(mod, rep, prefix="C13.")
    ex.fnstack = ["lemma"]
    rep.functions["lemma: label ends; decoding inverts encoding label by label"] = "lemma"
    i, j, n, x, p = z3.Ints("i j n x p")
    Ln = z3.Length
    z = z3.IntVal(0)

    def prove(name, phi, *given):
        st = State()
        st.assume(*given)
        if given and ex.check(st, z3.BoolVal(True), 3000)[0] == z3.unsat:
            raise Unsupported("contradictory premises of lemma " + name)
        ex.oblige(st, "lemma." + name, phi)
    c = z3.Array("c", I, I)
    S = Encoded(ex, lambda k: z3.Select(c, k), n)
    # the end of a label, from inside it
    prove("label-end", S.LE(j) == S.LE(i), i >= 0, i <= j, j <= S.LE(i), i <= n, *S.end(i, S.LE(j)), *S.end(j, S.LE(i)))

    # no dot in what the encoder of C11 writes
    nodot = lambda X: z3.Implies(z3.And(x >= 0, x < Ln(X)), X[x] != DOT)      # for every x
    q, k, b, delta, h = z3.Ints("q k b delta h")
    out = z3.Const("out", SeqI)
    EV, ED = c11.EV, c11.ED
    for v in range(36):
        prove("no-dot.digit", z3.BoolVal((v + 97 if v < 26 else v + 22) != DOT))
    digit = lambda d: [z3.Implies(z3.And(d >= 0, d < 36), ED(d) != DOT)]
    T = c12.THR(k, b)
    dg = T + c11.REM(q - T, 36 - T)
    q2 = c11.DIV(q - T, 36 - T)
    prove("no-dot.integer.last", nodot(EV(q, k, b)), q >= 0, q < T, *c11.ev_unfold(q, k, b), *digit(q))
    prove("no-dot.integer.more", nodot(EV(q, k, b)), q >= T, z3.Implies(z3.And(x - 1 >= 0, x - 1 < Ln(EV(q2, k + 36, b))), EV(q2, k + 36, b)[x - 1] != DOT), *c11.ev_unfold(q, k, b), *digit(dg), dg >= 0, dg < 36)
    E = c11.Spec(ex, c, n)
    prove("no-dot.basic.base", nodot(E.BASIC(z)), *E.start(z))
    prove("no-dot.basic.step", nodot(E.BASIC(j + 1)), j >= 0, j < n, nodot(E.BASIC(j)), c[j] != DOT, *E.start(j))
    m = z3.Int("m")
    keeps = lambda F, out: z3.Implies(nodot(out), nodot(F))
    F0, G0 = E.F(j, m, delta, b, h, out), E.G(m, delta, b, h, out)
    ev = EV(delta, z3.IntVal(36), b)
    inner = E.inner(j, m, delta, b, h, out)
    prove("no-dot.below", keeps(F0, out), j < n, c[j] < m, *inner, keeps(E.F(j + 1, m, delta + 1, b, h, out), out))
    prove("no-dot.above", keeps(F0, out), j < n, c[j] > m, *inner, keeps(E.F(j + 1, m, delta, b, h, out), out))
    out2 = seqcat(out, ev)
    prove("no-dot.appended", keeps(out2, out), z3.Implies(z3.And(x - Ln(out) >= 0, x - Ln(out) < Ln(ev)), ev[x - Ln(out)] != DOT))
    X, Y, Z = z3.Consts("X Y Z", SeqI)
    prove("no-dot.equal", keeps(F0, out), j < n, c[j] == m, *inner, keeps(out2, out), keeps(E.F(j + 1, m, z, c12.ADAPT(delta, h + 1, h == E.CNT(128, n)), h + 1, out2), out2))
    prove("no-dot.round", keeps(F0, out), j >= n, *inner, keeps(E.G(m + 1, delta + 1, b, h, out), out))
    mn = E.MIN(m)
    prove("no-dot.next", keeps(G0, out), h < n, *E.outer(m, delta, b, h, out), keeps(E.F(z, mn, delta + c11.MUL(mn - m, h + 1), b, h, out), out))
    prove("no-dot.end", keeps(G0, out), h >= n, *E.outer(m, delta, b, h, out))
    o2 = z3.If(E.CNT(128, n) > 0, seqcat(E.BASIC(n), z3.Unit(z3.IntVal(45))), E.BASIC(n))
    prove("no-dot.delimiter", keeps(o2, E.BASIC(n)))

    # decoding W = ENC(0), at the label that begins at i in the host and after P in W
    W, P, R, O, U = z3.Consts("W P R O U", SeqI)
    D = Decoded(ex, lambda k: W[k], Ln(W))
    H8, U8, SRC = z3.Function("host_utf8", I, SeqI), z3.Function("label_utf8", I, I, SeqI), z3.Function("label_points", I, I, SeqI)
    e = S.LE(i)
    last = e >= n
    L = S.label(i)
    dot = z3.Unit(z3.IntVal(DOT))
    a = Ln(P)
    b_ = a + Ln(L)
    other = S.OTHERS(i, e)
    given = [i >= 0, i <= n, XN == seqtext("xn--"), z3.Implies(last, W == seqcat(P, L)), z3.Implies(z3.Not(last), W == seqcat(P, L, dot, S.ENC(e + 1)))]
    # the label as it is written has no dot (above): instances at the position where the decoder stops
    at = lambda X, k: z3.Implies(z3.And(k >= 0, k < Ln(X)), X[k] != DOT)
    at_b = z3.Implies(z3.And(Ln(P) <= D.LE(a), D.LE(a) < a + Ln(X)), W[D.LE(a)] == X[D.LE(a) - a])
    for what, rest in (("last", E0), ("more", seqcat(dot, Z))):      # X: the label as written
        prove("round-trip.label-at." + what, at_b, W == seqcat(P, X, rest))
        prove("round-trip.label-end." + what, D.LE(a) == a + Ln(X), at_b, Ln(W) == a + Ln(X) + Ln(rest), z3.Implies(Ln(rest) > 0, W[a + Ln(X)] == DOT), *D.end(a, a + Ln(X)), at(X, D.LE(a) - a))
    prove("round-trip.dot-at", W[a + Ln(X)] == DOT, W == seqcat(P, X, dot, Z))
    prove("round-trip.no-dot", nodot(L), XN == seqtext("xn--"), nodot(S.BASIC(i, e)), z3.Implies(z3.And(x - 4 >= 0, x - 4 < Ln(S.PUNY(i, e))), S.PUNY(i, e)[x - 4] != DOT))
    src, puny, basic = SRC(i, e), S.PUNY(i, e), S.BASIC(i, e)
    # C11: decoding the Punycode gives the label's code points; a label without other code points is copied, and its UTF-8 is itself
    decodes = [z3.Implies(other, z3.And(D.DOK(a + 4, b_), D.DSTR(a + 4, b_) == src)), D.UTF8(src) == U8(i, e), z3.Implies(z3.Not(other), z3.And(basic == src, U8(i, e) == src)),
               D.TEXT(a, b_) == z3.Extract(W, a, b_ - a)]
    # no label of the host begins with the prefix
    plain = z3.Not(z3.And(Ln(src) >= 4, src[0] == 120, src[1] == 110, src[2] == 45, src[3] == 45))
    fits = given + [D.LE(a) == b_] + decodes
    piece = z3.If(D.ace(a), D.UTF8(D.DSTR(a + 4, b_)), D.TEXT(a, b_))
    prove("round-trip.recognised", D.ace(a), other, *fits)
    prove("round-trip.not-recognised", z3.Not(D.ace(a)), z3.Not(other), plain, *fits)
    prove("round-trip.label", z3.And(z3.Implies(D.ace(a), D.DOK(a + 4, b_)), piece == U8(i, e)), D.ace(a) == other, *fits)
    good = lambda i, at: z3.And(D.OK(at), D.DEC(at) == H8(i), D.ANY(at) == S.ANY(i))
    spec = [H8(i) == z3.If(last, U8(i, e), seqcat(U8(i, e), dot, H8(e + 1)))]
    prove("round-trip.host.last", good(i, a), last, D.ace(a) == other, z3.Implies(D.ace(a), D.DOK(a + 4, b_)), piece == U8(i, e), *given, D.LE(a) == b_, *spec, *D.unfold(a), *S.unfold(i))
    prove("round-trip.host.more", good(i, a), z3.Not(last), D.ace(a) == other, z3.Implies(D.ace(a), D.DOK(a + 4, b_)), piece == U8(i, e), *given, D.LE(a) == b_, *spec, *D.unfold(a), *S.unfold(i), good(e + 1, b_ + 1))
    prove("round-trip.follows", z3.And(W == seqcat(P, L, dot, S.ENC(e + 1)), Ln(seqcat(P, L, dot)) == b_ + 1), *given, z3.Not(last))
    ex.flush()


def prove(rep, work):
    mod = ir.Module(ir.emit(os.path.join(VERIF, "tu/host.cpp"), work))
    prove_small(rep, mod)
    lemmas(rep, mod)
    prove_encoded(rep, mod, False)
    prove_encoded(rep, mod, True)
    prove_decoded(rep, mod, False)
    prove_decoded(rep, mod, True)
    c12.prove_decode(rep, mod, r"^(int )?verif::decode_label\(", True, "C13.label.", "uri::punycode::decode of a take_while view", DOT)
    c11.prove_encode(rep, mod, r"^(bool )?verif::encode_label\(", "C13.label.", "uri::punycode::encode of a take_while view", DOT)
