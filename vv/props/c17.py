"""C17: find_last and starts_with, for iterators of every category and projections and predicates of which nothing is known."""
import itertools, os, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir

I, B = z3.IntSort(), z3.BoolSort()
P1 = z3.Function("projection", I, I)            # of the address of an element: two equal elements may have different projections
P2 = z3.Function("projection2", I, I)
REL = z3.Function("relation", I, I, B)
TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "the templates are instantiated with char const* and with minimal forward and bidirectional iterator classes (tu/find.cpp); projections and predicates are functions without a body"]
ASSUMPTIONS = ["[first, last) is a valid range", "projections and predicates are functions: they answer alike for the same element and change nothing",
               "iterator classes other than those of tu/find.cpp behave as their concept says"]


class Walk(LoopSpec):
    """A cursor goes over [first, first + n] in steps of one, up or down; roles() tells which cell it is"""

    def __init__(self):
        self.first = self.n = self.match = None

    def cursors(self, view):
        ok = lambda v, s: isinstance(v, Ptr) and v.r == TEXT
        return view.modified(ok)

    def pos(self, view, k):
        return view.cell(k).addr() - self.first


class Last(Walk):
    """LM(i): the last match below i, or -1"""

    typed_uninitialised = True

    def begin(self, ex, first, n, match):
        self.first, self.n, self.match = first, n, match
        self.LM = z3.Function("last_match" + ex.uniq(""), I, I)

    def unfold(self, i):
        return [self.LM(z3.IntVal(0)) == -1, z3.Implies(i >= 0, z3.And(self.LM(i + 1) == z3.If(self.match(i), i, self.LM(i)), self.LM(i) >= -1, self.LM(i) < i))]

    def roles(self, ex, st, view):
        isptr = lambda v, s: isinstance(v, Ptr) and v.r in (TEXT, NULL) or isinstance(v, Undef) and s == 8
        isbool = lambda v, s: s == 1 and not isinstance(v, Ptr)
        ptrs, flags = view.modified(isptr), view.modified(isbool)
        ptrs += [k for k in sorted(self.late, key=str) if k not in ptrs]
        for cur in ptrs:
            if not isinstance(view.cell(cur), Ptr):
                continue
            rest = [k for k in ptrs if k != cur]
            start = {k: view.cell(k) for k in ptrs}
            for fl in flags + [None]:
                for k in rest:
                    yield {"cur": cur, "found": [k], "flag": fl, "dir": 1, "start": start}
            for d in (-1, 0, 1):
                yield {"cur": cur, "found": [], "flag": None, "dir": d, "from": self.pos(view, cur)}
            yield {"cur": cur, "found": [], "flag": None, "dir": -1, "least": 1}      # tested after the step

    def inv(self, ex, st, view, roles):
        i, LM, n = self.pos(view, roles["cur"]), self.LM, self.n
        out = [("range", z3.And(i >= roles.get("least", 0), i <= n))]
        if roles["dir"] < 0:
            return out + [("nothing behind", LM(n) == LM(i))]
        if roles["dir"] == 0:      # a search for the next match
            s = roles["from"]
            return out + [("nothing between", z3.And(s <= i, LM(i) == LM(s)))]
        for k in roles["found"]:
            v, s = view.cell(k), roles["start"][k]
            if isinstance(v, Ptr):
                out.append(("found", z3.Implies(LM(i) >= 0, v.addr() == self.first + LM(i))))
                if isinstance(s, Ptr):
                    out.append(("not found", z3.Implies(LM(i) < 0, v.addr() == s.addr())))
        if roles["flag"]:
            f = view.cell(roles["flag"])
            out.append(("flag", (zi(f) != 0 if not z3.is_bool(f) else f) == (LM(i) >= 0)) if not isinstance(f, Undef) else ("flag", z3.BoolVal(False)))
        return out

    def facts(self, ex, st, view, roles):
        i = self.pos(view, roles["cur"])
        return self.unfold(i) + (self.unfold(i - 1) if roles["dir"] < 0 else [])

    def variant(self, ex, st, view, roles):
        i = self.pos(view, roles["cur"])
        return self.n - i if roles["dir"] >= 0 else i


class Skip(Walk):
    """std::ranges::advance of an iterator to a sentinel: the cursor walks to the end"""
    def roles(self, ex, st, view):
        for cur in self.cursors(view):
            yield {"cur": cur}

    def inv(self, ex, st, view, roles):
        i = self.pos(view, roles["cur"])
        return [("range", z3.And(i >= 0, i <= self.n))]

    def variant(self, ex, st, view, roles):
        return self.n - self.pos(view, roles["cur"])


class Common(LoopSpec):
    """Two cursors go side by side as long as the elements agree. AGREE(i): the first i pairs agree"""
    def begin(self, ex, a, n, b, m, same):
        self.a, self.n, self.b, self.m, self.same = a, n, b, m, same
        self.AGREE = z3.Function("agree" + ex.uniq(""), I, B)

    def unfold(self, i):
        z = z3.IntVal(0)
        return [self.AGREE(z), z3.Implies(i >= 0, self.AGREE(i + 1) == z3.And(self.AGREE(i), self.same(i)))]

    def roles(self, ex, st, view):
        ks = view.modified(lambda v, s: isinstance(v, Ptr) and v.r == TEXT)
        for x, y in itertools.permutations(ks, 2):
            yield {"x": x, "y": y}

    def ij(self, view, roles):
        return view.cell(roles["x"]).addr() - self.a, view.cell(roles["y"]).addr() - self.b

    def inv(self, ex, st, view, roles):
        i, j = self.ij(view, roles)
        return [("side by side", i == j), ("range", z3.And(i >= 0, i <= self.n, i <= self.m)), ("agree", self.AGREE(i))]

    def facts(self, ex, st, view, roles):
        return self.unfold(self.ij(view, roles)[0])

    def variant(self, ex, st, view, roles):
        return self.n - self.ij(view, roles)[0]


def functions(ex):
    def addr(p):
        if not isinstance(p, Ptr) or p.r != TEXT:
            raise Unsupported("projection of an unknown element")
        return p.addr()

    def apply(f):
        def h(ex, st, a, w, n):
            p = a[-1]
            ex.oblige(st, w + ".element-in-range", z3.Or(*[z3.And(b <= addr(p), addr(p) < b + m) for b, m in st.readable]))
            v = f(addr(p))
            st.assume(v >= 0, v < 2**32)
            return [(st, v)]
        return h
    ex.contract(r"^verif::Proj::operator\(\)", apply(P1))
    ex.contract(r"^verif::Proj2::operator\(\)", apply(P2))
    ex.contract(r"^verif::Pred::operator\(\)", lambda ex, st, a, w, n: [(st, REL(zi(a[-2]), zi(a[-1])))])


def box(ex, st, name, p):
    """an object that holds an iterator"""
    o = ex.alloc(st, 8, name)
    st.mem[o.r].cells[0] = (8, p)
    return o


LASTS = {  # name: (range given how, identity projection)
    "x_last_ptr": ("ptr", True), "x_last_ptr_proj": ("ptr", False), "x_last_ptr_end": ("end", False), "x_last_fwd": ("box", False), "x_last_fwd_end": ("box", False),
    "x_last_bi": ("box", False), "x_last_bi_end": ("box", False), "x_last_sv": ("sv", False)}


def byte(v):
    return z3.Select(M, v)


def prove_last(rep, mod, name, kind, identity):
    ex = Exec(mod, rep, prefix="C17.")
    functions(ex)
    lp, sk = Last(), Skip()
    ex.loop(r"find_last|std::ranges::__find_fn", None, lp)
    ex.loop(r"std::ranges::__advance_fn", None, sk)

    def setup(st):
        o = ex.alloc(st, 16, "result")
        p, n = ex.text(st, "range")
        q = Ptr(TEXT, ladd(p.o, n)) if not isinstance(n, int) else None
        v = ex.alloc(st, 4 if not identity else 1, "value")
        val = ex.D.fresh(st, "value", 8 if identity else 32)
        st.mem[v.r].cells[0] = (1 if identity else 4, val)
        first = p.addr()
        match = (lambda i: byte(first + i) == val) if identity else (lambda i: P1(first + i) == val)
        lp.begin(ex, first, zi(n), match)
        sk.first, sk.n = first, zi(n)
        if kind == "ptr":
            args = [o, p, q, v]
        elif kind == "end":
            args = [o, p, box(ex, st, "last", q), v]
        elif kind == "box":
            args = [o, box(ex, st, "first", p), box(ex, st, "last", q), v]
        else:
            s = ex.alloc(st, 16, "view")
            st.mem[s.r].cells[0], st.mem[s.r].cells[8] = (8, n), (8, p)
            args = [o, s, v]
        ex.hint = None
        return fit(f, args), (o, first, zi(n))

    def post(ex, st, rv, c):
        o, first, n = c
        for phi in lp.unfold(n):
            st.assume(phi)
        lm = lp.LM(n)
        b, e = [st.mem[o.r].cells.get(k) for k in (0, 8)]
        if any(x is None or not isinstance(x[1], Ptr) for x in (b, e)):
            raise Unsupported("result of find_last")
        b, e = b[1].addr() - first, e[1].addr() - first
        ex.oblige(st, f"{name[2:]}.end", e == n)
        ex.oblige(st, f"{name[2:]}.begins-at-the-last-match", z3.Implies(lm >= 0, b == lm))
        ex.oblige(st, f"{name[2:]}.empty-without-a-match", z3.Implies(lm < 0, b == n))
    f = one(mod, r"^verif::" + name + r"\(")
    verify(ex, f, setup, post, title="uri::find_last: " + name[2:], name=name[2:])


def fit(f, args):
    """empty function objects passed by value may or may not have an IR argument"""
    n = len(f.params) if hasattr(f, "params") else len(f.args)
    return args + [Undef()] * (n - len(args)) if n > len(args) else args


WITH = {"x_sw_sv": ("sv", False), "x_sw_sv_pred": ("sv", True), "x_sw_fwd": ("box", True), "x_sw_end": ("mixed", True)}


def prove_with(rep, mod, name, kind, general):
    ex = Exec(mod, rep, prefix="C17.")
    functions(ex)
    lp = Common()
    ex.loop(r"starts_with|__mismatch_fn", None, lp)

    def setup(st):
        p, n = ex.text(st, "range")
        q, m = ex.text(st, "prefix")
        a, b = p.addr(), q.addr()
        same = (lambda i: REL(P1(a + i), P2(b + i))) if general else (lambda i: byte(a + i) == byte(b + i))
        lp.begin(ex, a, zi(n), b, zi(m), same)
        pe, qe = Ptr(TEXT, ladd(p.o, n)), Ptr(TEXT, ladd(q.o, m))
        if kind == "sv":
            args = [n, p, m, q]
        else:
            args = [box(ex, st, "first1", p), box(ex, st, "last1", pe)] + ([box(ex, st, "first2", q)] if kind == "box" else [q]) + [box(ex, st, "last2", qe)]
        ex.hint = None
        return fit(f, args), (zi(n), zi(m))

    def post(ex, st, rv, c):
        n, m = c
        r = rv if z3.is_bool(rv) else z3.BoolVal(bool(rv)) if isinstance(rv, (bool, int)) else rv != 0
        ex.oblige(st, f"{name[2:]}.true-only-for-a-prefix", z3.Implies(r, z3.And(m <= n, lp.AGREE(m))))
        # false: they differ at some place, or the prefix is longer: AGREE(m) is false whenever AGREE(k) is for a k below m (lemma.agree)
        k = z3.Int("k")
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= m, lp.AGREE(m)), lp.AGREE(k)), patterns=[lp.AGREE(k)]))
        ex.oblige(st, f"{name[2:]}.false-only-without", z3.Implies(z3.And(m <= n, lp.AGREE(m)), r))
    f = one(mod, r"^verif::" + name + r"\(")
    verify(ex, f, setup, post, title="uri::starts_with: " + name[2:], name=name[2:])


def lemmas(rep):
    mod = ir.Module.__new__(ir.Module)
    mod.types, mod.globals, mod.funcs, mod.decls, mod._size, mod._dem, mod.aliases = {}, {}, {}, {}, {}, None, {}
    ex = Exec(mod, rep, prefix="C17.")
    ex.fnstack = ["lemma"]
    rep.functions["lemma: LM is the last match, AGREE is all of them"] = "lemma"
    i, j = z3.Ints("i j")
    match, same = z3.Function("match", I, B), z3.Function("same", I, B)
    lp, cm = Last(), Common()
    lp.begin(ex, z3.IntVal(0), z3.IntVal(0), match)
    cm.begin(ex, *[z3.IntVal(0)] * 4, same)
    st = State()
    st.assume(i >= 0)
    LM, A = lp.LM, cm.AGREE
    st.assume(LM(z3.IntVal(0)) == -1, LM(i + 1) == z3.If(match(i), i, LM(i)))
    for phi in cm.unfold(i):
        st.assume(phi)
    right = lambda i: z3.And(LM(i) >= -1, LM(i) < z3.If(i > 0, i, 0), z3.Implies(LM(i) >= 0, match(LM(i))), z3.ForAll([j], z3.Implies(z3.And(j > LM(i), j >= 0, j < i), z3.Not(match(j)))))
    ex.oblige(st, "lemma.last-match.base", right(z3.IntVal(0)))
    ex.oblige(st, "lemma.last-match.step", z3.Implies(right(i), right(i + 1)))
    al = lambda i: A(i) == z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), same(j)))
    ex.oblige(st, "lemma.agree.base", al(z3.IntVal(0)))
    ex.oblige(st, "lemma.agree.step", z3.Implies(al(i), al(i + 1)))
    ex.flush()


def prove(rep, work):
    mod = ir.Module(ir.emit(os.path.join(VERIF, "tu/find.cpp"), work))
    lemmas(rep)
    for k, (kind, ident) in LASTS.items():
        prove_last(rep, mod, k, kind, ident)
    for k, (kind, gen) in WITH.items():
        prove_with(rep, mod, k, kind, gen)
