"""C10: percent-decoding. hex2dec/either_bad/increment/deref, both iterator classes, the view and pctdecode() against one
sequence specification dec(first, last); the round trip as a lemma over the contracts of C09 and C10."""
import os, time, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir
from .c09 import SETS, NEEDS, ENC, encbyte, hexd, Scan

DEC = z3.Function("dec", z3.IntSort(), z3.IntSort(), SeqI)      # dec(first, last): the decoding of text [first, last)
HASP = z3.Function("has_percent", z3.IntSort(), z3.IntSort(), z3.BoolSort())

TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "contracts assumed for std::string (operator+=, reserve, constructor), std::find_if"]
ASSUMPTIONS = ["the text memory is immutable while a function reads it", "allocation succeeds",
               "iterators are char const* (what std::string_view and std::string iterate with); other iterator types share the template text"]


def hexv(c):
    return z3.If(z3.And(c >= 48, c <= 57), c - 48, z3.If(z3.And(c >= 65, c <= 70), c - 55, z3.If(z3.And(c >= 97, c <= 102), c - 87, z3.IntVal(16))))


def at(i):
    return z3.Select(M, i)


def esc(a, b):
    return z3.And(b - a >= 3, at(a) == 37, hexv(at(a + 1)) < 16, hexv(at(a + 2)) < 16)


def decval(a, b):
    return z3.If(esc(a, b), 16 * hexv(at(a + 1)) + hexv(at(a + 2)), at(a))


def step(a, b):
    return z3.If(esc(a, b), z3.IntVal(3), z3.IntVal(1))


def unfold(a, b):
    return [z3.Implies(a >= b, z3.And(DEC(a, b) == z3.Empty(SeqI), z3.Not(HASP(a, b)))),
            z3.Implies(a < b, z3.And(DEC(a, b) == z3.Concat(z3.Unit(decval(a, b)), DEC(a + step(a, b), b)), HASP(a, b) == z3.Or(at(a) == 37, HASP(a + 1, b))))]


def hex2dec_c(ex, st, a, w, n):
    return [(st, hexv(zi(a[0])))]


def either_bad_c(ex, st, a, w, n):
    x, y = zi(a[0]), zi(a[1])
    ex.oblige(st, w + ".either_bad.pre", z3.And(x <= 16, y <= 16))
    return [(st, z3.Or(x == 16, y == 16))]


def contracts(ex):
    ex.contract(r"^std::byte uri::details::hex2dec<char>\(char\)", hex2dec_c)
    ex.contract(r"^uri::details::either_bad\(std::byte, std::byte\)", either_bad_c)


class DecScan(Scan):
    """pos walks to end; OUT ++ dec(pos, end) is constant."""

    def inv(self, ex, st, view, roles):
        c = self.cur(view, roles)
        return [("range", z3.And(self.first <= c, c <= self.last)),
                ("output", z3.Concat(self.out(st), DEC(c, self.last)) == z3.Concat(self.out0, DEC(self.first, self.last)))]

    def facts(self, ex, st, view, roles):
        return unfold(self.cur(view, roles), self.last)


def bytes_ok(st, a, n, k=3):
    for i in range(k):
        st.assume(z3.And(at(a + i) >= 0, at(a + i) < 256))


def prove(rep, work):
    tu = ir.Module(ir.emit(os.path.join(VERIF, "tu/pct.cpp"), work))
    lib = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/pctencode.cpp"), work))

    # leaf functions, full domain
    ex = Exec(tu, rep, prefix="C10.")

    def s_hex(st):
        c = ex.D.fresh(st, "c", 8)
        return [c], c
    verify(ex, one(tu, r"^std::byte uri::details::hex2dec<char>\(char\)"), s_hex, lambda ex, st, rv, c: ex.oblige(st, "hex2dec.value", zi(rv) == hexv(c)))
    exb = Exec(tu, rep, BVD, prefix="C10.")

    def s_bad(st):
        a, b = exb.D.fresh(st, "a", 8), exb.D.fresh(st, "b", 8)
        st.assume(z3.ULE(a, 16), z3.ULE(b, 16))
        return [a, b], (a, b)
    verify(exb, one(tu, r"^uri::details::either_bad\("), s_bad, lambda ex, st, rv, c: ex.oblige(st, "either_bad.result", zb(rv) == z3.Or(c[0] == 16, c[1] == 16)))

    def mk():
        ex = Exec(tu, rep, prefix="C10.")
        string_contracts(ex)
        contracts(ex)
        return ex

    def inside(ex, st):
        """pos < end inside one readable run"""
        p, n = ex.text(st, "in")
        k = z3.Int("pos")
        st.assume(k >= 0, k < n)
        a = p.addr() + k
        bytes_ok(st, a, n)
        ex.hint = lambda m: hint(m, a, p.addr() + n)
        return Ptr(TEXT, Lin.of(a)), Ptr(TEXT, Lin.of(p.addr() + n)), a, p.addr() + n

    # increment
    ex = mk()

    def s_inc(st):
        p, e, a, b = inside(ex, st)
        return [p, e], (a, b)
    verify(ex, one(tu, r"^char const\* uri::details::increment<char const\*>\("), s_inc,
           lambda ex, st, rv, c: ex.oblige(st, "increment.result", rv.addr() == c[0] + step(*c)))

    # deref
    ex2 = mk()

    def s_deref(st):
        p, e, a, b = inside(ex2, st)
        h = ex2.alloc(st, 1, "hex", {0: (1, 0)})
        return [p, e, h], (a, b, h)

    def value(ex, st, rv):
        return zi(ex.load(st, rv, ("i", 8), "spec"))

    def p_deref(ex, st, rv, c):
        a, b, h = c
        ex.oblige(st, "deref.value", value(ex, st, rv) == decval(a, b))
        ex.oblige(st, "deref.reference", z3.BoolVal(rv.r == h.r) if rv.r == h.r else rv.addr() == a)
    verify(ex2, one(tu, r"^char const& uri::details::deref<char const&, char const\*, char>\("), s_deref, p_deref)

    # pctdecode_iterator: layout pos_, end_, hex_ is found from the constructor wrappers, not assumed
    def iterator_proofs(wrap, mkit, title):
        """mkit(ex, st, pos, end) -> iterator object Ptr and function giving its position"""
        def go(name, post, post_inc=False, two=False):
            ex = mk()
            f = one(tu, rf"^verif::x_{wrap}_{name}\(")

            def setup(st):
                p, e, a, b = inside(ex, st)
                it, pos = mkit(ex, st, p, e)
                args = [it]
                ctx = {"a": a, "b": b, "it": it, "pos": pos, "p": p, "e": e}
                if f.params and "sret" in f.params[0][1]:
                    ctx["ret"] = ex.alloc(st, ex.mod.size(f.params[0][1]["sret"]), "ret")
                    args = [ctx["ret"], it]
                if two:
                    k2 = z3.Int("pos2")
                    st.assume(k2 >= z3.Int("pos") - 0, k2 + (a - z3.Int("pos")) <= b)
                    q = Ptr(TEXT, Lin.of(a - z3.Int("pos") + k2))
                    it2, _ = mkit(ex, st, q, e, it)
                    ctx["q"] = q
                    args.append(it2)
                return args, ctx
            verify(ex, f, setup, post, title=f"{title}::{name}")

        go("deref", lambda ex, st, rv, c: ex.oblige(st, f"{wrap}.deref.value", value(ex, st, rv) == decval(c["a"], c["b"])))
        for other in ("move", "arrow") if wrap == "vi" else ():       # iter_move() and ->: the same value as *
            go(other, lambda ex, st, rv, c: ex.oblige(st, f"{wrap}.{other}.value", value(ex, st, rv) == decval(c["a"], c["b"])))
        go("inc", lambda ex, st, rv, c: (ex.oblige(st, f"{wrap}.inc.position", c["pos"](st, c["it"]) == c["a"] + step(c["a"], c["b"])),
                                         ex.oblige(st, f"{wrap}.inc.self", z3.BoolVal(isinstance(rv, Ptr) and rv.r == c["it"].r and rv.o == c["it"].o))))
        go("post", lambda ex, st, rv, c: (ex.oblige(st, f"{wrap}.post-inc.position", c["pos"](st, c["it"]) == c["a"] + step(c["a"], c["b"])),
                                          ex.oblige(st, f"{wrap}.post-inc.old", c["pos"](st, c["ret"]) == c["a"])))
        go("eq", lambda ex, st, rv, c: ex.oblige(st, f"{wrap}.eq", zb(rv) == (c["p"].addr() == c["q"].addr())), two=True)

    def run1(ex, st, rx, args):
        f = one(tu, rx)
        r = ex.run(f, st, args)
        if len(r) != 1:
            raise Unsupported("constructor with several paths")
        return r[0]

    def mk_pi(ex, st, p, e, like=None):
        o = ex.alloc(st, 24, "iterator")
        f = one(tu, r"^uri::pctdecode_iterator<char const\*>::pctdecode_iterator\(char const\*, char const\*\)")
        ex.run(f, st, [o, p, e])
        # the position is the cell holding p
        off = [k for k, (s, v) in st.mem[o.r].cells.items() if v is p]
        if len(off) != 1:
            raise Unsupported("position of pctdecode_iterator")
        return o, lambda s, q: s.mem[q.r].cells[q.o + off[0]][1].addr()
    iterator_proofs("pi", mk_pi, "uri::pctdecode_iterator")

    def mk_vi(ex, st, p, e, like=None):
        if like is None:
            view = ex.alloc(st, 16, "view")
            reg = st.wr(view.r)
            # a view of [base, e); its position p lies inside
            base, n = st.readable[-1]
            reg.cells[0] = (8, n)
            reg.cells[8] = (8, Ptr(TEXT, Lin.of(base)))
            st.ghost["view"] = (view.r, 0)
        else:
            view = Ptr(*st.ghost["view"])
        o = ex.alloc(st, 24, "iterator")
        f = one(tu, r"^uri::pctdecode_view<.*>::iterator::iterator\(uri::pctdecode_view<.*> const&, char const\*\)")
        ex.run(f, st, [o, view, p])
        off = [k for k, (s, v) in st.mem[o.r].cells.items() if isinstance(v, Ptr) and v.r == TEXT]
        if len(off) != 1:
            raise Unsupported("position of the view iterator")
        return o, lambda s, q: s.mem[q.r].cells[q.o + off[0]][1].addr()
    iterator_proofs("vi", mk_vi, "uri::pctdecode_view::iterator")

    # begin/end of every interface delimit the whole text
    def ends(rx, which, title, raw=False):
        ex = mk()
        f = one(tu, rx)

        def setup(st):
            o, p, n = new_sv(ex, st, "in")
            args = []
            ctx = {"a": p.addr(), "b": p.addr() + n}
            if f.params and "sret" in f.params[0][1]:
                ctx["ret"] = ex.alloc(st, ex.mod.size(f.params[0][1]["sret"]), "ret")
                args.append(ctx["ret"])
            args += [p, Ptr(TEXT, ladd(p.o, Lin.of(n)))] if raw else [o]
            return args, ctx

        def post(ex, st, rv, c):
            cells = [v for _, (s, v) in sorted(st.mem[c["ret"].r].cells.items()) if isinstance(v, Ptr) and v.r in (TEXT, NULL)]
            if not cells:
                raise Unsupported("iterator layout")
            want = c["a"] if which == "begin" else c["b"]
            ex.oblige(st, f"{title}.{which}", cells[0].addr() == want)
            if len(cells) > 1:
                ex.oblige(st, f"{title}.{which}.end", cells[1].addr() == c["b"])
        verify(ex, f, setup, post, title=f"{title} {which}")
    for w in ("begin", "end"):
        ends(rf"^verif::x_pi_{w}\(", w, "pctdecode_" + w)
        ends(rf"^verif::x_dec_{w}\(", w, "pctdecoder(container)")
        ends(rf"^verif::x_dec2_{w}\(", w, "pctdecoder(first, last)", raw=True)
        ends(rf"^verif::x_view_{w}\(", w, "pctdecode_view")
    ex = mk()

    def s_mk(st):
        o, p, n = new_sv(ex, st, "in")
        return [n, p], (p, n)

    def p_mk(ex, st, rv, c):
        rv = rv[0] if len(rv) == 1 else rv
        ex.oblige(st, "views::pctdecode.base", z3.And(zi(rv[0]) == c[1], rv[1].addr() == c[0].addr()))
    verify(ex, one(tu, r"^verif::x_view_make\("), s_mk, p_mk, title="views::pctdecode")

    # pctdecode(string_view)
    ex3 = mk()
    sp = DecScan(None, None, None, None, z3.Empty(SeqI))
    ex3.loop(r"uri::pctdecode(\[.*\])?\(|std::__copy|std::ranges::__copy|std::for_each|std::transform|std::ranges::__for_each", None, sp)

    def s_dec(st):
        p, n = ex3.text(st, "in")
        a = p.addr()
        ret = ex3.alloc(st, 32, "result")
        sp.first, sp.last = a, a + n
        sp.out = lambda s: strval(s, ret)
        ex3.hint = lambda m: hint(m, a, a + n)
        return [ret, n, p], (a, n, ret)
    verify(ex3, one(tu, r"^uri::pctdecode(\[.*\])?\(std::basic_string_view"), s_dec,
           lambda ex, st, rv, c: ex.oblige(st, "pctdecode.output", strval(st, c[2]) == DEC(c[0], c[0] + c[1])))

    # needs_pctdecode: is there a "%"
    ex4 = mk()

    def find_if(ex, st, a, w, n):
        first, last = a[0], a[1]
        readable_range(ex, st, first, last.addr() - first.addr(), w)
        q = z3.Int(ex.uniq("at"))
        s2 = st.copy().assume(q >= first.addr(), q < last.addr())
        for s3, rv in run_predicate(ex, s2, n, a[2:], Ptr(TEXT, Lin.of(q)), w):
            ex.oblige(s3, "needs_pctdecode.predicate", zb(rv) == (at(q) == 37))
        r = z3.Int(ex.uniq("found"))
        st.assume(first.addr() <= r, r <= last.addr(), (r != last.addr()) == HASP(first.addr(), last.addr()))
        return [(st, Ptr(TEXT, Lin.of(r)))]
    ex4.contract(r"std::find_if<char const\*", find_if)

    class PScan(DecScan):
        def inv(self, ex, st, view, roles):
            c = self.cur(view, roles)
            return [("range", z3.And(self.first <= c, c <= self.last)), ("rest", HASP(c, self.last) == HASP(self.first, self.last))]
    sp4 = PScan(None, None, None, None, None)
    ex4.loop(r"uri::needs_pctdecode|std::__find_if|std::ranges::__find|std::any_of|std::none_of|std::__find", None, sp4)

    def s_np(st):
        p, n = ex4.text(st, "in")
        sp4.first, sp4.last = p.addr(), p.addr() + n
        return [p, Ptr(TEXT, ladd(p.o, Lin.of(n)))], (p.addr(), n)
    verify(ex4, one(tu, r"^bool uri::needs_pctdecode<char const\*>\("), s_np, lambda ex, st, rv, c: ex.oblige(st, "needs_pctdecode.result", zb(rv) == HASP(c[0], c[0] + c[1])))

    # "%" belongs to every set but none: needed for the round trip
    f = one(lib, r"^uri::needs_pctencode\(unsigned char, uri::pctencode_set\)")
    for nm, (val, _) in SETS.items():
        if nm == "none":
            continue
        exn = Exec(lib, rep, BVD, prefix="C10.")
        verify(exn, f, lambda st: ([37, val], None), lambda ex, st, rv, c: ex.oblige(st, f"needs_pctencode.percent.{nm}", zb(bool(rv)) if isinstance(rv, (bool, int)) else rv),
               title=f"uri::needs_pctencode('%', {nm})", name=f"needs_pctencode.percent.{nm}")
    lemmas(rep)


def lemmas(rep):
    """dec(enc(s)) == s for every set that contains '%': induction on s over the two sequence specifications."""
    DS = z3.Function("decs", SeqI, SeqI)   # decoding as a function of the byte sequence

    def unf(q):
        c0, c1, c2 = q[0], q[1], q[2]
        e = z3.And(z3.Length(q) >= 3, c0 == 37, hexv(c1) < 16, hexv(c2) < 16)
        return z3.Implies(z3.Length(q) > 0, DS(q) == z3.If(e, z3.Concat(z3.Unit(16 * hexv(c1) + hexv(c2)), DS(z3.SubSeq(q, 3, z3.Length(q) - 3))),
                                                         z3.Concat(z3.Unit(c0), DS(z3.SubSeq(q, 1, z3.Length(q) - 1)))))
    t = time.time()
    c, es = z3.Ints("c es")
    rest = z3.Const("rest", SeqI)
    r, det = PROVED, ""

    def refuted(*facts):
        nonlocal r, det
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(c >= 0, c < 256, z3.Implies(c == 37, NEEDS(c, es)), *facts)
        k = s.check()
        if k != z3.unsat:
            r, det = UNDECIDED, str(k)

    # the two digits written for a byte are hexadecimal digits of its nibbles ...
    for n in range(16):
        refuted(c / 16 == n, hexv(hexd(c / 16)) != c / 16)
        refuted(c % 16 == n, hexv(hexd(c % 16)) != c % 16)
    # ... so for any two such digits the escape decodes to the byte
    h, l = z3.Ints("h l")
    esc = z3.Concat(z3.Unit(z3.IntVal(37)), z3.Unit(h), z3.Unit(l), rest)
    refuted(NEEDS(c, es), hexv(h) == c / 16, hexv(l) == c % 16, unf(esc), DS(esc) != z3.Concat(z3.Unit(c), DS(rest)))
    lit = z3.Concat(z3.Unit(c), rest)
    refuted(z3.Not(NEEDS(c, es)), unf(lit), DS(lit) != z3.Concat(z3.Unit(c), DS(rest)))
    rep.add("C10.lemma.round-trip-step", "specification: dec(encbyte(c) ++ rest) == c ++ dec(rest)", r, "z3", time.time() - t, det)
    # dec(first, last) over memory is decs(text): step of the induction
    s = z3.Solver()
    s.set("timeout", 20000)
    t = time.time()
    a, b = z3.Ints("a b")
    TX = z3.Function("text", z3.IntSort(), z3.IntSort(), SeqI)
    s.add(a < b)
    for i in range(3):
        s.add(z3.Implies(a + i < b, TX(a + i, b) == z3.Concat(z3.Unit(at(a + i)), TX(a + i + 1, b))), z3.Implies(a + i >= b, TX(a + i, b) == z3.Empty(SeqI)))
        s.add(z3.Implies(a + i <= b, z3.Length(TX(a + i, b)) == b - a - i))
        s.add(at(a + i) >= 0, at(a + i) < 256)
    s.add(z3.Length(TX(a + 3, b)) == z3.If(b >= a + 3, b - a - 3, 0))
    s.add(*unfold(a, b))
    s.add(unf(TX(a, b)))
    s.add(DEC(a + 1, b) == DS(TX(a + 1, b)), z3.Implies(a + 3 <= b, DEC(a + 3, b) == DS(TX(a + 3, b))))
    s.add(DEC(a, b) != DS(TX(a, b)))
    k = s.check()
    rep.add("C10.lemma.dec-is-a-function-of-the-text", "specification", PROVED if k == z3.unsat else UNDECIDED, "z3", time.time() - t, "" if k == z3.unsat else str(k))


def hint(m, a, b):
    t = textbytes(m, a, b - a)
    return None if t is None else [t, b"\x02"]
