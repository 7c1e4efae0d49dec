"""C07: join() is the transformation of RFC 3986 section 5.2.2, merge() that of 5.2.3."""
from .dots import *
from .c08 import eqv, eqo, eqauth

TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "contracts assumed for std::vector<std::string_view> (copy, move, push_back, insert) and memcmp",
           "the transcription of RFC 3986 sections 5.2.2 and 5.2.3 in vv/props/c07.py, and of 5.2.4 in vv/props/dots.py"]
ASSUMPTIONS = ["views are readable for their length", "allocation succeeds", "the iterators given to std::copy stay valid (the source is another vector)"]


class AppendLoop(LoopSpec):
    """elements are appended to a vector one after another: after i rounds every cursor has moved by i and the vector holds the first i"""

    def roles(self, ex, st, view):
        num = lambda v, s: not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v)) and s >= 4
        arr = lambda v, s: isinstance(v, Ptr) and isinstance(v.r, str) and v.r in st.mem and st.mem[v.r].kind == "array"
        ptrs, ints = view.modified(arr), view.modified(num)
        dirty = {d[0] for d in view.H if d[1] == "arr"}
        if len(dirty) != 1:
            return
        self.dst = dirty.pop()
        u = ex.uniq("")
        self.C = {0: z3.Function("appended_len" + u, I, AI), 8: z3.Function("appended_ptr" + u, I, AI)}
        start = lambda k: self.idx(view, k, k in ptrs)
        srcs = [k for k in ptrs if view.cell(k).r != self.dst]
        ends = [k for k in ptrs if view.cell(k).r == self.dst]
        self.st0 = {k: start(k) for k in ptrs + ints}
        if not ends:
            return
        self.n0 = self.st0[ends[0]]     # the vector's length
        self.arr0 = {f: st.mem[self.dst].fields[f][2] for f in (0, 8)}
        for lead in srcs + ints:
            for dirs in itertools.product(*[(1, -1)] * len(ints)):
                if lead in ints and dirs[ints.index(lead)] != 1:
                    continue
                others = [view.cell(lead).r] if lead in ptrs else [r for r, x in st.mem.items() if x.kind == "array" and set(x.fields) == {0, 8} and r != self.dst]
                for src in others:
                    for short in (1, 0):
                        yield {"lead": lead, "ptrs": ptrs, "ints": dict(zip(ints, dirs)), "ends": ends, "src": src, "short": short}

    def idx(self, view, k, ptr):
        v = view.cell(k)
        if not ptr:
            return zi(v)
        d = Lin.of(v.o)
        if d.c % 16 or any(c % 16 for c, _ in d.t):
            raise Unsupported("segment pointer")
        return Lin(d.c // 16, [(c // 16, x) for c, x in d.t]).z()

    def i(self, view, roles):
        k = roles["lead"]
        return self.idx(view, k, k in roles["ptrs"]) - self.st0[k]

    def source(self, st, view, roles):
        return st.mem[roles["src"]], self.st0[roles["lead"]]

    def inv(self, ex, st, view, roles):
        i = self.i(view, roles)
        r = [("forward", i >= 0)]
        for k in roles["ptrs"]:
            r.append((f"pointer {k[0]}.{k[1]}", self.idx(view, k, True) == self.st0[k] + i))
        for k, d in roles["ints"].items():
            r.append((f"count {k[0]}.{k[1]}", self.idx(view, k, False) == self.st0[k] + d * i))
            if d < 0:
                r.append((f"rest {k[0]}.{k[1]}", zi(view.cell(k)) >= 0))
        reg, s0 = self.source(st, view, roles)
        n = zi(reg.n)
        r.append(("within", s0 + i <= (z3.If(n > 0, n - 1, 0) if roles["short"] else n)))
        d = st.mem[self.dst]
        for f in (0, 8):
            r.append((f"appended {f}", d.fields[f][2] == self.C[f](i)))
        return r

    def facts(self, ex, st, view, roles):
        i, z = self.i(view, roles), z3.IntVal(0)
        reg, s0 = self.source(st, view, roles)
        n0 = self.n0
        return [x for f in (0, 8) for x in (self.C[f](z) == self.arr0[f], z3.Implies(i >= 0, self.C[f](i + 1) == z3.Store(self.C[f](i), n0 + i, z3.Select(reg.fields[f][2], s0 + i))))]

    def at_exit(self, ex, st, view, roles):
        """lemma.append, the closed form of the definition, at the index the postcondition speaks about"""
        i = self.i(view, roles)
        reg, s0 = self.source(st, view, roles)
        n0, j = self.n0, ex.watch
        return [z3.Implies(i >= 0, z3.Select(self.C[f](i), j) == z3.If(z3.And(j >= n0, j < n0 + i), z3.Select(reg.fields[f][2], s0 + j - n0), z3.Select(self.arr0[f], j))) for f in (0, 8)]

    def variant(self, ex, st, view, roles):
        reg, s0 = self.source(st, view, roles)
        return zi(reg.n) - s0 - self.i(view, roles)


def append_lemma(ex):
    a0, src = z3.Const("a0", AI), z3.Const("src", AI)
    C = z3.Function("appended", I, AI)
    i, j, n0, s0 = z3.Ints("i j n0 s0")
    st = State()
    st.assume(i >= 0, C(z3.IntVal(0)) == a0, C(i + 1) == z3.Store(C(i), n0 + i, z3.Select(src, s0 + i)))
    P = lambda k: z3.ForAll([j], z3.Select(C(k), j) == z3.If(z3.And(j >= n0, j < n0 + k), z3.Select(src, s0 + j - n0), z3.Select(a0, j)))
    ex.oblige(st, "lemma.append.base", P(z3.IntVal(0)))
    ex.oblige(st, "lemma.append.step", z3.Implies(P(i), P(i + 1)))


MERGE = r"^\(anonymous namespace\)::merge\(uri::parts const&, uri::parts const&\)$|^uri::\(anonymous namespace\)::merge\("
COPY = r"std::copy<|__copy_m<|\(anonymous namespace\)::merge\(|uri::join\("


def merged(base, ref):
    """RFC 3986 5.2.3: (absolute, count, element j)"""
    b, r = base.path.segments, ref.path.segments
    root = z3.And(base.authority.has, b.n == 0)
    k = z3.If(b.n > 0, b.n - 1, 0)
    return (z3.If(root, z3.BoolVal(True), base.path.absolute), z3.If(root, r.n, k + r.n),
            lambda j: (z3.If(z3.And(z3.Not(root), j < k), z3.Select(b.len, j), z3.Select(r.len, j - z3.If(root, 0, k))),
                       z3.If(z3.And(z3.Not(root), j < k), z3.Select(b.ptr, j), z3.Select(r.ptr, j - z3.If(root, 0, k)))))


def two(ex, st, L):
    a, b = new_parts(ex, st, L, "base"), new_parts(ex, st, L, "reference")
    return a, b, Parts(ex, st, L, a), Parts(ex, st, L, b)


def hint_of(ex, p, q, strict=None):
    def h(m):
        s = True if strict is None else z3.is_true(m.eval(strict if z3.is_bool(strict) else strict != 0, model_completion=True))
        return [b"s" if s else b"n", b"parts"] + model_parts(m, p) + model_parts(m, q)
    ex.hint = h


def views_equal(ex, q, n, at):
    """the list q has n elements, the j-th with the text of at(j); j is the constant ex.watch, of which nothing is known"""
    j = ex.watch
    v = q.at(j)
    ln, ad = at(j)
    return q.n == n, z3.Implies(z3.And(j >= 0, j < n), z3.And(v.n == ln, z3.Or(v.n == 0, v.a == ad)))


def prove_merge(rep, mod, L):
    ex = Exec(mod, rep, prefix="C07.")
    vector_contracts(ex)
    ex.watch = z3.Int("j")
    sp = AppendLoop()
    ex.loop(COPY, None, sp)

    def setup(st):
        ret = ex.alloc(st, L.size_path, "ret")
        a, b, p, q = two(ex, st, L)
        hint_of(ex, p, q)
        return [ret, a, b], (ret, p, q)

    def post(ex, st, rv, c):
        ret, p, q = c
        r = Path(ex, st, L, ret)
        ab, n, at = merged(p, q)
        ex.oblige(st, "merge.absolute", r.absolute == ab)
        cnt, els = views_equal(ex, r.segments, n, at)
        ex.oblige(st, "merge.count", cnt)
        ex.oblige(st, "merge.segments", els)
    f = one(mod, MERGE)
    append_lemma(ex)
    return verify(ex, f, setup, post, title="merge(parts const&, parts const&)", name="merge")


def merge_contract(L):
    def h(ex, st, a, w, n):
        p, q = Parts(ex, st, L, a[1]), Parts(ex, st, L, a[2])
        ab, cnt, at = merged(p, q)
        ln, pt = [z3.Const(ex.uniq("merged"), AI) for _ in range(2)]
        cell(st, a[0].r, a[0].o + L.off_absolute, 1, ab)
        put_vector(ex, st, a[0].r, a[0].o + L.off_segments, "merged", n=cnt, fields={0: (8, "i", ln), 8: (8, "v", pt)})
        j = ex.watch
        x, y = at(j)
        st.assume(z3.Implies(z3.And(j >= 0, j < cnt), z3.And(z3.Select(ln, j) == x, z3.Select(pt, j) == y)))
        return [(st, UNDEF)]
    return h


JOIN = r"^uri::join\(uri::parts const&, uri::parts const&, bool\)$"


def prove_join(rep, mod, L):
    ex = Exec(mod, rep, prefix="C07.")
    vector_contracts(ex)
    ex.watch = z3.Int("j")
    ex.contract(REMOVE, remove_contract(L))
    ex.contract(MERGE, merge_contract(L))

    def setup(st):
        ret = ex.alloc(st, L.size_parts, "ret")
        a, b, p, q = two(ex, st, L)
        strict = ex.D.fresh(st, "strict", 1) if False else z3.Bool("strict")
        hint_of(ex, p, q, strict)
        st.dirty = set()
        return [ret, a, b, strict], (ret, p, q, strict, (a.r, b.r))

    def post(ex, st, rv, c):
        ret, p, q, strict, args = c
        t = Parts(ex, st, L, ret)
        same_scheme = eqo(ex, st, q.scheme, p.scheme)
        own = z3.And(q.scheme.has, z3.Or(strict, z3.Not(same_scheme)))      # "if defined(R.scheme)", after the non-strict rule
        auth = z3.Or(own, q.authority.has)
        empty = q.path.segments.n == 0
        ite = lambda c, a, b: (z3.And(z3.Implies(c, a), z3.Implies(z3.Not(c), b)))
        o = lambda a, b: eqo(ex, st, a, b)
        ab = lambda x, y: z3.And(x.has == y.has, z3.Implies(x.has, eqauth(ex, st, x.v, y.v))) if x.v is not None and y.v is not None else x.has == y.has
        ex.oblige(st, "join.scheme", ite(own, o(t.scheme, q.scheme), o(t.scheme, p.scheme)))
        ex.oblige(st, "join.authority", ite(auth, ab(t.authority, q.authority), ab(t.authority, p.authority)))
        ex.oblige(st, "join.query", ite(z3.Or(auth, z3.Not(empty), q.query.has), o(t.query, q.query), o(t.query, p.query)))
        ex.oblige(st, "join.fragment", o(t.fragment, q.fragment))
        # path
        u = t.path.segments
        base_path = z3.And(z3.Not(auth), empty)
        removed = z3.Or(auth, z3.And(z3.Not(empty), q.path.absolute))      # remove_dot_segments(R.path)
        def put_case(cond, name, n, at, absolute, dots):
            s2 = st.copy().assume(cond)
            if not ex.feasible(s2):
                return
            ex.oblige(s2, f"join.path.{name}.absolute", t.path.absolute == absolute)
            if not dots:
                cnt, els = views_equal(ex, u, n, at)
                ex.oblige(s2, f"join.path.{name}.count", cnt)
                ex.oblige(s2, f"join.path.{name}.segments", els)
                return
            rec = [x for x in st.ghost.get("removals", ()) if x[2].eq(u.len) and x[3].eq(u.ptr)]
            if not rec:
                # not the outcome of remove_dot_segments: right only if it could not have changed anything
                ex.oblige(s2, f"join.path.{name}.dot-segments-removed", z3.And(u.n == 0, n == 0))
                return
            src, sab, ln, pt = rec[-1]
            ex.oblige(s2, f"join.path.{name}.result-kept", z3.BoolVal(True) if u.n.eq(st.ghost["counts"][ln.get_id()]) else u.n == st.ghost["counts"][ln.get_id()])
            cnt, els = views_equal(ex, src, n, at)
            ex.oblige(s2, f"join.path.{name}.count", cnt)
            ex.oblige(s2, f"join.path.{name}.segments", els)
        elem = lambda s: lambda j: (z3.Select(s.len, j), z3.Select(s.ptr, j))
        put_case(base_path, "of-the-base", p.path.segments.n, elem(p.path.segments), p.path.absolute, False)
        put_case(removed, "of-the-reference", q.path.segments.n, elem(q.path.segments), q.path.absolute, True)
        mab, mn, mat = merged(p, q)
        put_case(z3.And(z3.Not(base_path), z3.Not(removed)), "merged", mn, mat, mab, True)
        ex.oblige(st, "join.arguments-unchanged", not any(d[0] in args for d in st.dirty))
    return verify(ex, one(mod, JOIN), setup, post, title="uri::join(parts const&, parts const&, bool)", name="join")


def prove_join_text(rep, mod, L):
    ex = Exec(mod, rep, prefix="C07.")
    vector_contracts(ex)
    OK = {w: z3.Function(f"{w}_accepts", I, I, B) for w in ("split", "split_reference")}

    def splitter(which):
        def h(ex, st, a, w, n):
            phi = OK[which](zi(a[1]), a[2].addr())
            yes, no = st.copy().assume(phi), st.copy().assume(z3.Not(phi))
            put_parts(ex, yes, L, a[0].r, a[0].o, which)
            cell(yes, a[0].r, a[0].o + L.size_parts, 1, True)
            cell(no, a[0].r, a[0].o + L.size_parts, 1, False)
            yes.ghost["parsed"] = yes.ghost.get("parsed", ()) + ((which, zi(a[1]), a[2].addr(), Parts(ex, yes, L, a[0])),)
            return [(s, UNDEF) for s in (yes, no) if ex.feasible(s)]
        return h
    for w in OK:
        ex.contract(rf"^uri::{w}\(std::basic_string_view", splitter(w))

    def joiner(ex, st, a, w, n):
        p, q = Parts(ex, st, L, a[1]), Parts(ex, st, L, a[2])
        put_parts(ex, st, L, a[0].r, a[0].o, "joined")
        st.ghost["joined"] = st.ghost.get("joined", ()) + ((p, q, a[3], Parts(ex, st, L, a[0])),)
        return [(st, UNDEF)]
    ex.contract(JOIN, joiner)

    def setup(st):
        ret = ex.alloc(st, L.size_parts + 8, "ret")
        x, n = ex.text(st, "base")
        y, m = ex.text(st, "reference")
        strict = z3.Bool("strict")
        return [ret, n, x, m, y, strict], (ret, n, x.addr(), m, y.addr(), strict)

    def post(ex, st, rv, c):
        ret, n, x, m, y, strict = c
        h = flag(st, Ptr(ret.r, L.size_parts))
        ex.oblige(st, "join(text).fails-iff-an-argument-does-not-parse", h == z3.And(OK["split"](n, x), OK["split_reference"](m, y)))
        if not ex.feasible(st, h):
            return
        js = st.ghost.get("joined", ())
        if not js:
            raise Unsupported("join of texts without join of parts")
        p, q, s, t = js[-1]
        pr = st.ghost["parsed"]
        b = [r[3] for r in pr if r[0] == "split" and ex.entails(st, z3.And(r[1] == n, r[2] == x))]
        r_ = [r[3] for r in pr if r[0] == "split_reference" and ex.entails(st, z3.And(r[1] == m, r[2] == y))]
        for nm, cand, got in (("base", b, p), ("reference", r_, q)):
            ex.oblige(st, f"join(text).{nm}-was-parsed", z3.BoolVal(bool(cand)))
            if cand:
                for f, phi in cand[0].same_fields(got):
                    ex.oblige(st, f"join(text).{nm}.{f}", phi)
        sb = lambda v: v if z3.is_bool(v) else z3.BoolVal(bool(v)) if isinstance(v, (int, bool)) else v != 0
        ex.oblige(st, "join(text).strict", sb(s) == strict)
        for f, phi in Parts(ex, st, L, ret).same_fields(t):
            ex.oblige(st, f"join(text).result.{f}", phi)
    return verify(ex, one(mod, r"^uri::join\(std::basic_string_view"), setup, post, title="uri::join(string_view, string_view, bool)", name="join(text)")


def prove(rep, work):
    L = model.Layout(work)
    mod = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/uri.cpp"), work))
    prove_remove(rep, mod, L, "C07.")
    lemmas(rep, L, "C07.")
    prove_merge(rep, mod, L)
    prove_join(rep, mod, L)
    prove_join_text(rep, mod, L)
