"""C08: operator== compares the components the text depends on."""
from .composer import *

TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "contracts assumed for memcmp, std::vector<std::string_view> (representation) and, for the composed text, std::string and std::ostream (good, width 0)"]
ASSUMPTIONS = ["views are readable for their length", "allocation succeeds"]
B, I = z3.BoolSort(), z3.IntSort()


def tx(ex, st, v):
    t = Tf(z3.simplify(v.a), z3.simplify(v.n))
    st.assume(z3.Length(t) == v.n)
    return t


def eqv(ex, st, v, w):
    """the same bytes"""
    return z3.And(v.n == w.n, tx(ex, st, v) == tx(ex, st, w))


def eqo(ex, st, a, b):
    return z3.And(a.has == b.has, z3.Implies(a.has, eqv(ex, st, a.v, b.v)))


def eqauth(ex, st, a, b):
    return z3.And(eqo(ex, st, a.userinfo, b.userinfo), eqv(ex, st, a.host, b.host), eqo(ex, st, a.port, b.port))


class Prefix:
    """ALL(k): the first k segments of two lists have the same texts (a bounded universal; the facts below are instances of its definition)"""

    def __init__(self, ex, x, y):
        self.ex, self.x, self.y = ex, x, y
        self.ALL = z3.Function(ex.uniq("same_prefix"), I, B)

    def facts(self, st, i):
        A, x = self.ALL, self.x
        e = eqv(self.ex, st, x.at(i), self.y.at(i))
        return [A(z3.IntVal(0)), z3.Implies(i >= 0, A(i + 1) == z3.And(A(i), e)), z3.Implies(z3.And(i >= 0, i + 1 <= x.n, A(x.n)), A(i + 1))]

    def equal(self):
        return z3.And(self.x.n == self.y.n, self.ALL(self.x.n))


class Lockstep(LoopSpec):
    """the first i segments have been compared, all were equal"""
    P = None

    def roles(self, ex, st, view):
        seg = lambda v, s: isinstance(v, Ptr) and isinstance(v.r, str) and v.r in st.mem and st.mem[v.r].kind == "array"
        isint = lambda v, s: s == 8 and not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v))
        cur = view.modified(seg)
        for k in cur:
            yield {"cur": k, "all": cur}
        for k in view.modified(isint):
            yield {"idx": k, "all": []}

    def i(self, view, roles):
        return self.at(view, roles["cur"]) if "cur" in roles else zi(view.cell(roles["idx"]))

    def at(self, view, k):
        d = Lin.of(view.cell(k).o)
        if d.c % 16 or any(c % 16 for c, _ in d.t):
            raise Unsupported("segment pointer")
        return Lin(d.c // 16, [(c // 16, x) for c, x in d.t]).z()

    def inv(self, ex, st, view, roles):
        i = self.i(view, roles)
        r = [("range", z3.And(i >= 0, i <= self.P.x.n, i <= self.P.y.n)), ("equal so far", self.P.ALL(i))]
        return r + [(f"pointer {j}", self.at(view, k) == i) for j, k in enumerate(roles["all"])]

    def facts(self, ex, st, view, roles):
        return self.P.facts(st, self.i(view, roles))

    def variant(self, ex, st, view, roles):
        return self.P.x.n - self.i(view, roles)


LOOPS = r"std::__equal<|std::equal<|std::operator==<.*std::vector|uri::parts::(path::)?operator==|std::__(cxx)?equal|ranges::"


def prove(rep, work):
    L = model.Layout(work)
    mod = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/uri.cpp"), work))
    tu = ir.Module(ir.emit(os.path.join(VERIF, "tu/equality.cpp"), work))
    segeq = {}

    def prefix(ex, x, y):
        k = (x.len.sexpr(), x.ptr.sexpr(), y.len.sexpr(), y.ptr.sexpr())
        if k not in segeq:
            segeq[k] = Prefix(ex, x, y)
        return segeq[k]

    def eqpath(ex, st, p, q):
        return z3.And(p.absolute == q.absolute, prefix(ex, p.segments, q.segments).equal())

    def eqparts(ex, st, p, q):
        return z3.And(eqo(ex, st, p.scheme, q.scheme), p.authority.has == q.authority.has, z3.Implies(p.authority.has, eqauth(ex, st, p.authority.v, q.authority.v)),
                      prefix(ex, p.path.segments, q.path.segments).equal(), z3.Or(p.authority.has, p.path.absolute == q.path.absolute),
                      eqo(ex, st, p.query, q.query), eqo(ex, st, p.fragment, q.fragment))
    kinds = {
        "path": ("uri::parts::path", L.size_path, lambda ex, st, r, nm: put_path(ex, st, L, r, 0, nm), lambda ex, st, p: Path(ex, st, L, p), eqpath),
        "authority": ("uri::parts::authority", L.size_authority, lambda ex, st, r, nm: put_authority(ex, st, L, r, 0, nm), lambda ex, st, p: Auth(st, L, p), eqauth),
        "parts": ("uri::parts", L.size_parts, lambda ex, st, r, nm: put_parts(ex, st, L, r, 0, nm), lambda ex, st, p: Parts(ex, st, L, p), eqparts),
    }

    def mk(module, known, ops=("==", "!=")):
        ex = Exec(module, rep, prefix="C08.")
        for k in known:
            T, _, _, get, spec = kinds[k]
            for op in ops:
                def h(ex, st, a, w, n, get=get, spec=spec, op=op):
                    phi = spec(ex, st, get(ex, st, a[0]), get(ex, st, a[1]))
                    return [(st, phi if op == "==" else z3.Not(phi))]
                ex.contract("^" + T + r"::operator" + op + r"\(" + T + r" const&\) const$", h)
        return ex

    def case(module, rx, kind, name, known, negate=False):
        T, size, put, get, spec = kinds[kind]
        ex = mk(module, known, ("==",) if negate else ("==", "!="))
        sp = Lockstep()
        objs = []
        ex.loop(LOOPS, None, sp)

        def setup(st):
            a, b = ex.alloc(st, size, "lhs"), ex.alloc(st, size, "rhs")
            put(ex, st, a.r, "lhs"), put(ex, st, b.r, "rhs")
            p, q = get(ex, st, a), get(ex, st, b)
            if kind != "authority":
                x, y = (p.segments, q.segments) if kind == "path" else (p.path.segments, q.path.segments)
                sp.P = prefix(ex, x, y)
            if kind == "parts":
                def hint(m):
                    l, r = model_parts(m, p), model_parts(m, q)
                    return l + r + l
                ex.hint = hint
            else:
                def hint(m, kind=kind):
                    z = lambda: Parts.__new__(Parts)
                    l, r = [empty_parts(kind, x) for x in (p, q)]
                    l, r = model_parts(m, l), model_parts(m, r)
                    return l + r + l
                ex.hint = hint
            st.dirty = set()
            objs[:] = [a.r, b.r]
            return [a, b], (p, q)

        def post(ex, st, rv, c):
            b = zb(rv) if not isinstance(rv, int) else z3.BoolVal(bool(rv))
            want = spec(ex, st, *c)
            if sp.P is not None:
                for f in sp.P.facts(st, z3.IntVal(0)):
                    st.assume(f)
            ex.oblige(st, name + ".result", b == (z3.Not(want) if negate else want))
            ex.oblige(st, name + ".changes-nothing", not any(d[0] in objs for d in st.dirty))
        f = one(module, rx)
        return verify(ex, f, setup, post, title=f.demangled[:160], name=name)
    for k in kinds:
        T = kinds[k][0]
        case(mod, "^" + T + r"::operator==\(" + T + r" const&\) const$", k, k + "==", {"path": (), "authority": (), "parts": ("path", "authority")}[k])
        case(tu, r"^verif::ne\(" + T + " const&", k, k + "!=", (k,), True)
    lemmas(rep, L, kinds, prefix)
    compose_contracts(rep, mod, L, "C08.")


def empty_parts(kind, x):
    none = model.Opt(z3.BoolVal(False), model.NOVIEW)
    p = model.Parts.__new__(model.Parts)
    p.scheme = p.query = p.fragment = none
    if kind == "path":
        p.authority, p.path = model.Opt(z3.BoolVal(False), None), x
    else:
        p.authority = model.Opt(z3.BoolVal(True), x)
        p.path = model.Path.__new__(model.Path)
        p.path.absolute, p.path.segments = z3.BoolVal(True), model.Segs(z3.IntVal(0), model.ZERO, model.ZERO)
    return p


def lemmas(rep, L, kinds, prefix):
    """the relation is an equivalence; related parts have the same composed text"""
    mod = ir.Module.__new__(ir.Module)
    mod.types, mod.globals, mod.funcs, mod.decls, mod._size, mod._dem, mod.aliases = {}, {}, {}, {}, {}, None, {}
    ex = Exec(mod, rep, prefix="C08.")
    ex.fnstack = ["lemma"]
    rep.functions["lemma: equality is an equivalence and fixes the composed text"] = "lemma"
    try:
        st = State()
        ps = []
        for nm in "pqr":
            o = ex.alloc(st, L.size_parts, nm)
            put_parts(ex, st, L, o.r, 0, nm)
            ps.append(Parts(ex, st, L, o))
        p, q, r = ps
        eq = kinds["parts"][4]
        sx, sy, sz = p.path.segments, q.path.segments, r.path.segments
        # segments: ALL is a bounded universal over an equivalence (texts are equal), so it inherits the three laws by induction on k
        k = z3.Int("k")
        for name, ps_, concl in (("reflexive", [(sx, sx)], None), ("symmetric", [(sx, sy)], (sy, sx)), ("transitive", [(sx, sy), (sy, sz)], (sx, sz))):
            hyp = [prefix(ex, *a) for a in ps_]
            con = prefix(ex, *(concl or ps_[0]))
            s2 = st.copy()
            s2.assume(k >= 0)
            prem = (lambda i: z3.BoolVal(True)) if concl is None else (lambda i: z3.And([h.ALL(i) for h in hyp]))
            for P in hyp + [con]:
                for f in P.facts(s2, k):
                    s2.assume(f)
            ex.oblige(s2, f"lemma.segments-{name}.base", z3.Implies(prem(z3.IntVal(0)), con.ALL(z3.IntVal(0))))
            ex.oblige(s2, f"lemma.segments-{name}.step", z3.Implies(z3.Implies(prem(k), con.ALL(k)), z3.Implies(prem(k + 1), con.ALL(k + 1))))
        E = lambda s, a, b: eq(ex, s, a, b)
        s2 = st.copy().assume(prefix(ex, sx, sx).ALL(sx.n))
        ex.oblige(s2, "lemma.reflexive", E(s2, p, p))
        s2 = st.copy().assume(z3.Implies(prefix(ex, sx, sy).ALL(sx.n), prefix(ex, sy, sx).ALL(sx.n)))
        ex.oblige(s2, "lemma.symmetric", z3.Implies(E(s2, p, q), E(s2, q, p)))
        s2 = st.copy().assume(z3.Implies(z3.And(prefix(ex, sx, sy).ALL(sx.n), prefix(ex, sy, sz).ALL(sx.n)), prefix(ex, sx, sz).ALL(sx.n)))
        ex.oblige(s2, "lemma.transitive", z3.Implies(z3.And(E(s2, p, q), E(s2, q, r)), E(s2, p, r)))
        # text of the path: by induction, for a flag that agrees or may be disregarded
        P = prefix(ex, sx, sy)
        T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
        X = lambda s, b, i: PFX(b, s.len, s.ptr, i)
        slash = lit("/")
        for b in (T_, F_):
            s2 = st.copy().assume(k >= 0)
            for f in P.facts(s2, k) + pfx_facts(ex, s2, b, sx, k) + pfx_facts(ex, s2, b, sy, k):
                s2.assume(f)
            ex.oblige(s2, f"lemma.path-text.{b}.base", X(sx, b, z3.IntVal(0)) == X(sy, b, z3.IntVal(0)))
            ex.oblige(s2, f"lemma.path-text.{b}.step", z3.Implies(z3.And(P.ALL(k + 1), X(sx, b, k) == X(sy, b, k)), X(sx, b, k + 1) == X(sy, b, k + 1)))
        s2 = st.copy().assume(k >= 0)
        for f in pfx_facts(ex, s2, T_, sx, k) + pfx_facts(ex, s2, F_, sx, k) + pfx_facts(ex, s2, T_, sx, z3.IntVal(0)) + pfx_facts(ex, s2, F_, sx, z3.IntVal(0)):
            s2.assume(f)
        rel = lambda i: X(sx, T_, i) == z3.Concat(slash, X(sx, F_, i))
        ex.oblige(s2, "lemma.path-slash.base", rel(z3.IntVal(1)))
        ex.oblige(s2, "lemma.path-slash.step", z3.Implies(z3.And(k >= 1, rel(k)), rel(k + 1)))
        s2 = st.copy()
        ab, bb = p.path.absolute, q.path.absolute
        for b in (T_, F_):
            s2.assume(z3.Implies(P.ALL(sx.n), X(sx, b, sx.n) == X(sy, b, sx.n)))
            for s in (sx, sy):
                s2.assume(X(s, b, z3.IntVal(0)) == E0)
        for s in (sx, sy):
            s2.assume(z3.Implies(s.n >= 1, X(s, T_, s.n) == z3.Concat(slash, X(s, F_, s.n))))
            for b in (ab, bb):
                s2.assume(X(s, b, s.n) == z3.If(b, X(s, T_, s.n), X(s, F_, s.n)))
        s2.assume(E(s2, p, q))
        for ab_ in (True, False):
            for bb_ in (True, False):
                for au in (True, False):
                    s3 = s2.copy().assume(ab == ab_, bb == bb_, p.authority.has == au)
                    if ex.check(s3, z3.BoolVal(True))[0] == z3.unsat:
                        continue
                    ex.entails = lambda st, phi: False      # write the texts with conditionals instead of case splits
                    x, y = parts_pieces(ex, s3, p), parts_pieces(ex, s3, q)
                    del ex.entails
                    x[2:4], y[2:4] = [seqcat(*x[2:4])], [seqcat(*y[2:4])]
                    for nm, a, b in zip(("scheme", "authority", "path", "query", "fragment"), x, y):
                        ex.oblige(s3, f"lemma.equal-parts-compose-alike.{nm}.{int(ab_)}{int(bb_)}{int(au)}", a == b)
        ex.flush()
    except Unsupported as e:
        ex.buf = []
        rep.undecided("C08.lemmas", "lemma", str(e))
    finally:
        ex.fnstack = []
