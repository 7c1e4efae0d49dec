"""C09: percent-encoding. needs_pctencode against the WHATWG sets on its full domain (bit-vector mode), dec2hex, and the
pctencode loops against the sequence specification enc(first, last) by an inductive invariant."""
import os, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir

C0 = set(range(0, 0x20)) | set(range(0x7F, 256))
FRAG = C0 | {0x20, 0x22, 0x3C, 0x3E, 0x60}
QUERY = C0 | {0x20, 0x22, 0x23, 0x3C, 0x3E}
SQUERY = QUERY | {0x27}
PATH = QUERY | {0x3F, 0x5E, 0x60, 0x7B, 0x7D}
USER = PATH | {0x2F, 0x3A, 0x3B, 0x3D, 0x40, 0x5B, 0x5C, 0x5D, 0x5E, 0x7C}
COMP = USER | set(range(0x24, 0x27)) | {0x2B, 0x2C}
FORM = COMP | {0x21} | set(range(0x27, 0x2A)) | {0x7E}
P = {0x25}
SETS = {"none": (0, C0 | {0x20}), "fragment": (1, FRAG | P), "query": (2, QUERY | P), "special_query": (4, SQUERY | P), "path": (8, PATH | P),
        "userinfo": (16, USER | P), "component": (32, COMP | P), "form_urlencoded": (64, FORM | P)}
KNOWN = {("fragment", 0x60): "fragment-0x60", ("path", 0x5E): "path-0x5e"}
_live = {}

NEEDS = z3.Function("needs", z3.IntSort(), z3.IntSort(), z3.BoolSort())   # needs(byte, es): the contract of needs_pctencode
ENC = z3.Function("enc", z3.IntSort(), z3.IntSort(), z3.IntSort(), SeqI)   # enc(first, last, es)
ANY = z3.Function("any_needs", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())

TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3",
           "contracts assumed for std::string (push_back, reserve, constructor), std::any_of"]
ASSUMPTIONS = ["the text memory is immutable while a function reads it", "WHATWG sets as transcribed in vv/props/c09.py",
               "allocation succeeds"]


def hexd(v):
    return z3.If(v < 10, v + 48, v + 55)


def encbyte(c, es):
    return z3.If(NEEDS(c, es), z3.Concat(z3.Unit(z3.IntVal(37)), z3.Unit(hexd(c / 16)), z3.Unit(hexd(c % 16))), z3.Unit(c))


def unfold(a, b, es):
    """enc and any at (a, b): one step"""
    c = z3.Select(M, a)
    return [z3.Implies(a >= b, z3.And(ENC(a, b, es) == z3.Empty(SeqI), z3.Not(ANY(a, b, es)))),
            z3.Implies(a < b, z3.And(ENC(a, b, es) == z3.Concat(encbyte(c, es), ENC(a + 1, b, es)), ANY(a, b, es) == z3.Or(NEEDS(c, es), ANY(a + 1, b, es))))]


def needs_contract(ex, st, a, w, n):
    es = zi(a[1])
    ex.oblige(st, w + ".needs_pctencode.pre", z3.Or([es == v for v, _ in SETS.values()]))
    c = a[0]
    return [(st, NEEDS(zi(c), es))]


def dec2hex_contract(ex, st, a, w, n):
    ex.oblige(st, w + ".dec2hex.pre", zi(a[0]) < 16)
    return [(st, z3.simplify(hexd(zi(a[0]))))]


class Scan(LoopSpec):
    """cur walks to end; OUT ++ enc(cur, end) is constant. Roles: which pointer cells are cur and end, whatever their names."""

    def __init__(self, first, last, es, out, out0):
        self.first, self.last, self.es, self.out, self.out0 = first, last, es, out, out0

    def roles(self, ex, st, view):
        istext = lambda v, s: isinstance(v, Ptr) and v.r in (TEXT, NULL)
        isint = lambda v, s: s == 8 and not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v))
        for k in view.modified(istext):
            yield {"cur": k}
        for k in view.modified(isint):
            yield {"idx": k}

    def cur(self, view, roles):
        if "cur" in roles:
            return view.cell(roles["cur"]).addr()
        return self.first + zi(view.cell(roles["idx"]))

    def inv(self, ex, st, view, roles):
        c = self.cur(view, roles)
        return [("range", z3.And(self.first <= c, c <= self.last)),
                ("output", z3.Concat(self.out(st), ENC(c, self.last, self.es)) == z3.Concat(self.out0, ENC(self.first, self.last, self.es)))]

    def facts(self, ex, st, view, roles):
        c = self.cur(view, roles)
        return unfold(c, self.last, self.es)

    def variant(self, ex, st, view, roles):
        return self.last - self.cur(view, roles)


def prove(rep, work):
    lib = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/pctencode.cpp"), work))
    tu = ir.Module(ir.emit(os.path.join(VERIF, "tu/pct.cpp"), work))

    # -- needs_pctencode(byte, set): every byte, every enumerator
    f = one(lib, r"^uri::needs_pctencode\(unsigned char, uri::pctencode_set\)")
    for nm, (val, members) in SETS.items():
        ex = Exec(lib, rep, BVD, prefix="C09.")
        ex.hint = lambda m: None
        known = [b for (s, b) in KNOWN if s == nm]

        def setup(st):
            c = z3.BitVec("c", 8)
            return [c, val], c

        def post(ex, st, rv, c):
            r = rv if z3.is_expr(rv) else z3.BoolVal(bool(rv))
            spec = z3.Or([c == b for b in sorted(members)])
            ex.hint = lambda m: [bytes([m.eval(c, model_completion=True).as_long()]), bytes([val])]
            ex.oblige(st, f"needs_pctencode.{nm}", z3.Implies(z3.And([c != b for b in known]), r == spec))
            for b in known:
                if ex.feasible(st, c == b):
                    # the listed deviation: live iff the code still answers differently from the specification
                    _live[KNOWN[(nm, b)]] = not ex.entails(st, z3.Implies(c == b, r == z3.BoolVal(b in members)))
        verify(ex, f, setup, post, title=f"uri::needs_pctencode(byte, {nm})", name=f"needs_pctencode.{nm}")

    # -- dec2hex
    ex = Exec(tu, rep, prefix="C09.")

    def setup(st):
        v = ex.D.fresh(st, "v", 32)
        st.assume(v < 16)
        return [v], v
    verify(ex, one(tu, r"^uri::dec2hex\(unsigned int\)"), setup, lambda ex, st, rv, v: ex.oblige(st, "dec2hex.digit", zi(rv) == hexd(v)))

    # -- the loops
    def loop_proof(mod, rx, setup, post, spec, title):
        ex = Exec(mod, rep, prefix="C09.")
        string_contracts(ex)
        ex.contract(r"^uri::needs_pctencode\(unsigned char, uri::pctencode_set\)", needs_contract)
        ex.contract(r"^uri::dec2hex\(unsigned int\)", dec2hex_contract)
        ex.contract(r"^verif::Sink::push_back\(char\)", ghost_append("out"))
        ex.contract(r"^(bool )?std::any_of<", any_of)
        if spec:
            ex.loop(r"uri::pctencode<|uri::pctencode\(|uri::needs_pctencode\(|std::for_each|std::ranges::__for_each|std::transform|std::__find_if|std::none_of", None, spec)
        verify(ex, one(mod, rx), setup(ex), post, title=title)

    def any_of(ex, st, a, w, n):
        """std::any_of over text: the predicate is executed on an arbitrary byte and must be needs(byte, es)"""
        first, last = a[0], a[1]
        readable_range(ex, st, first, last.addr() - first.addr(), w)
        es = CUR["es"]
        q = z3.Int(ex.uniq("at"))
        s2 = st.copy().assume(q >= first.addr(), q < last.addr())
        for s3, rv in run_predicate(ex, s2, n, a[2:], Ptr(TEXT, Lin.of(q)), w):
            ex.oblige(s3, "needs_pctencode(string).predicate", zb(rv) == NEEDS(z3.Select(M, q), es))
        return [(st, ANY(first.addr(), last.addr(), es))]

    CUR = {}

    def setup_raw(ex):
        def setup(st):
            p, n = ex.text(st, "in")
            es = ex.D.fresh(st, "es", 8)
            st.assume(z3.Or([es == v for v, _ in SETS.values()]))
            a = p.addr()
            st.ghost["out"] = z3.Const("out0", SeqI)
            sp.first, sp.last, sp.es, sp.out0 = a, a + n, es, st.ghost["out"]
            sp.out = lambda s: s.ghost["out"]
            sink = ex.alloc(st, 8, "sink")
            return [p, Ptr(TEXT, ladd(p.o, Lin.of(n))), sink, es], (a, n, es)
        return setup
    sp = Scan(None, None, None, None, None)

    def post_raw(ex, st, rv, ctx):
        a, n, es = ctx
        ex.hint = lambda m: hint(m, a, n, es)
        ex.oblige(st, "pctencode.output", st.ghost["out"] == z3.Concat(sp.out0, ENC(a, a + n, es)))
    loop_proof(tu, r"^std::back_insert_iterator<verif::Sink> uri::pctencode<char const\*, std::back_insert_iterator<verif::Sink>>\(", setup_raw, post_raw, sp,
               "uri::pctencode(first, last, out, set)")

    sp2 = Scan(None, None, None, None, None)

    def setup_str(ex):
        def setup(st):
            p, n = ex.text(st, "in")
            es = ex.D.fresh(st, "es", 8)
            st.assume(z3.Or([es == v for v, _ in SETS.values()]))
            a = p.addr()
            ret = ex.alloc(st, 32, "result")
            sp2.first, sp2.last, sp2.es, sp2.out0 = a, a + n, es, z3.Empty(SeqI)
            sp2.out = lambda s: strval(s, ret)
            return [ret, n, p, es], (a, n, es, ret)
        return setup

    def post_str(ex, st, rv, ctx):
        a, n, es, ret = ctx
        ex.oblige(st, "pctencode(string).output", strval(st, ret) == ENC(a, a + n, es))
    loop_proof(tu, r"^uri::pctencode\[?.*\(std::basic_string_view<char, std::char_traits<char>>, uri::pctencode_set\)", setup_str, post_str, sp2,
               "uri::pctencode(string_view, set)")

    class AnyScan(Scan):
        def inv(self, ex, st, view, roles):
            c = self.cur(view, roles)
            return [("range", z3.And(self.first <= c, c <= self.last)), ("rest", ANY(c, self.last, self.es) == ANY(self.first, self.last, self.es))]
    sp3 = AnyScan(None, None, None, None, None)

    def setup_any(ex):
        def setup(st):
            p, n = ex.text(st, "in")
            es = ex.D.fresh(st, "es", 8)
            st.assume(z3.Or([es == v for v, _ in SETS.values()]))
            a = p.addr()
            CUR["es"] = es
            sp3.first, sp3.last, sp3.es = a, a + n, es
            return [n, p, es], (a, n, es)
        return setup

    def post_any(ex, st, rv, ctx):
        a, n, es = ctx
        ex.oblige(st, "needs_pctencode(string).result", zb(rv) == ANY(a, a + n, es))
    loop_proof(lib, r"^uri::needs_pctencode\(std::basic_string_view<char, std::char_traits<char>>, uri::pctencode_set\)", setup_any, post_any, sp3,
               "uri::needs_pctencode(string_view, set)")

    # -- lemma: any_needs(a, b) iff enc(a, b) != text(a, b), by induction on b - a (step only)
    lemma_changes(rep)


def lemma_changes(rep):
    """needs(s) is true exactly when encoding changes s: enc(s) == s iff no byte needs it (induction on the length)."""
    import time
    t = time.time()
    s = z3.Solver()
    s.set("timeout", 20000)
    a, b, es = z3.Ints("a b es")
    TX = z3.Function("text", z3.IntSort(), z3.IntSort(), SeqI)
    s.add(a < b, z3.Select(M, a) >= 0, z3.Select(M, a) < 256, *unfold(a, b, es))
    s.add(TX(a, b) == z3.Concat(z3.Unit(z3.Select(M, a)), TX(a + 1, b)))
    L = lambda q: z3.Length(q)
    # stronger hypothesis: |enc| >= |text|, and |enc| == |text| and enc == text iff not any
    s.add(L(TX(a + 1, b)) == b - a - 1, L(ENC(a + 1, b, es)) >= b - a - 1, (ENC(a + 1, b, es) == TX(a + 1, b)) == z3.Not(ANY(a + 1, b, es)),
          z3.Implies(ANY(a + 1, b, es), L(ENC(a + 1, b, es)) > b - a - 1))
    goal = z3.And(L(ENC(a, b, es)) >= b - a, z3.Implies(ANY(a, b, es), L(ENC(a, b, es)) > b - a), (ENC(a, b, es) == TX(a, b)) == z3.Not(ANY(a, b, es)))
    s.add(z3.Not(goal))
    r = s.check()
    rep.add("C09.lemma.needs-iff-changed", "specification", PROVED if r == z3.unsat else UNDECIDED, "z3", time.time() - t, "" if r == z3.unsat else str(r))


def hint(m, a, n, es):
    t = textbytes(m, a, n)
    if t is None:
        return None
    return [t, bytes([m.eval(es, model_completion=True).as_long()])]


def finding_live(key):
    return _live.get(key, True)
