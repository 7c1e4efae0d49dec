"""Dot-segment removal as a stack over the segments of a path: the contract of remove_dot_segments (C06), used at calls by C07."""
from .composer import *

I, B = z3.IntSort(), z3.BoolSort()
AI = z3.ArraySort(I, I)


class Stack:
    """after i segments: D(i) segments are kept, they are LEN(i)[0..D(i)), PTR(i)[0..D(i)); LAST(i): the i-th was a dot-segment"""

    def __init__(self, ex, segs):
        self.s = segs
        u = ex.uniq("")
        self.D = z3.Function("kept" + u, I, I)
        self.LEN = z3.Function("kept_len" + u, I, AI)
        self.PTR = z3.Function("kept_ptr" + u, I, AI)
        self.LAST = z3.Function("dot_last" + u, I, B)

    @staticmethod
    def dot(v):
        return z3.And(v.n == 1, z3.Select(M, v.a) == 46)

    @staticmethod
    def dotdot(v):
        return z3.And(v.n == 2, z3.Select(M, v.a) == 46, z3.Select(M, v.a + 1) == 46)

    def facts(self, i):
        D, LEN, PTR, LAST = self.D, self.LEN, self.PTR, self.LAST
        v, z = self.s.at(i), z3.IntVal(0)
        one, two = self.dot(v), self.dotdot(v)
        plain = z3.And(z3.Not(one), z3.Not(two))
        return [D(z) == 0, z3.Not(LAST(z)), z3.Implies(i >= 0, z3.And(
            D(i + 1) == z3.If(one, D(i), z3.If(two, z3.If(D(i) > 0, D(i) - 1, 0), D(i) + 1)), LAST(i + 1) == z3.Not(plain),
            LEN(i + 1) == z3.If(plain, z3.Store(LEN(i), D(i), v.n), LEN(i)), PTR(i + 1) == z3.If(plain, z3.Store(PTR(i), D(i), v.a), PTR(i))))]

    def count(self):
        n = self.s.n
        return self.D(n) + z3.If(self.LAST(n), 1, 0)

    def at(self, j):
        """j-th segment of the result"""
        n = self.s.n
        k = j < self.D(n)
        return z3.If(k, z3.Select(self.LEN(n), j), 0), z3.If(k, z3.Select(self.PTR(n), j), 0)


class DotLoop(LoopSpec):
    S = None

    def roles(self, ex, st, view):
        seg = lambda v, s: isinstance(v, Ptr) and isinstance(v.r, str) and v.r in st.mem and st.mem[v.r].kind == "array"
        isint = lambda v, s: s == 8 and not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v))
        isbool = lambda v, s: s == 1 and not isinstance(v, (Ptr, Undef, Bundle, PtrInt))
        curs = view.modified(seg)
        ks = [("p", k) for k in curs] + [("i", k) for k in view.modified(isint)]
        self.begin(st)
        for fl in view.modified(isbool) or [None]:
            for a in ks:
                for b in ks:
                    if a != b:
                        yield {"cur": a, "out": b, "flag": fl}

    start = None

    def begin(self, st):
        """arrays at the start, to be called when the loop is reached for the first time"""
        self.start = {r: (x.fields[0][2], x.fields[8][2]) for r, x in st.mem.items() if x.kind == "array" and set(x.fields) == {0, 8}}

    def idx(self, view, role):
        kind, k = role
        if kind == "i":
            return zi(view.cell(k))
        d = Lin.of(view.cell(k).o)
        if d.c % 16 or any(c % 16 for c, _ in d.t):
            raise Unsupported("segment pointer")
        return Lin(d.c // 16, [(c // 16, x) for c, x in d.t]).z()

    def target(self, st, view, roles):
        """the array that receives the kept segments"""
        kind, k = roles["out"]
        r = view.cell(k).r if kind == "p" else self.array
        return r, st.mem[r]

    def inv(self, ex, st, view, roles):
        i, o = self.idx(view, roles["cur"]), self.idx(view, roles["out"])
        S = self.S
        r, reg = self.target(st, view, roles)
        res = [("range", z3.And(i >= 0, i <= S.s.n)), ("kept", z3.And(o == S.D(i), S.D(i) >= 0, S.D(i) <= i)),
               ("kept segments", z3.And(reg.fields[0][2] == S.LEN(i), reg.fields[8][2] == S.PTR(i)))]
        if roles["flag"]:
            res.append(("flag", (zi(view.cell(roles["flag"])) != 0) == S.LAST(i)))
        return res

    def facts(self, ex, st, view, roles):
        i, S = self.idx(view, roles["cur"]), self.S
        r, reg = self.target(st, view, roles)
        f = S.facts(i)
        z = z3.IntVal(0)
        # what the stack's array holds above the stack is of no interest: let it start as the array that is written
        f += [S.LEN(z) == reg0[0], S.PTR(z) == reg0[1]] if (reg0 := self.start.get(r)) else []
        if r == self.array:      # lemma.in-place: what is still to come has not been overwritten
            f += [z3.Implies(z3.And(i >= 0, S.D(i) <= i), z3.And(z3.Select(S.LEN(i), i) == z3.Select(S.s.len, i), z3.Select(S.PTR(i), i) == z3.Select(S.s.ptr, i)))]
        return f

    def variant(self, ex, st, view, roles):
        return self.S.s.n - self.idx(view, roles["cur"])


REMOVE = r"^uri::parts::path::remove_dot_segments\(\)$"


def remove_contract(L):
    """at a call: the segments become the result of the stack"""
    def h(ex, st, a, w, n):
        p = Path(ex, st, L, a[0])
        S = Stack(ex, p.segments)
        for f in S.facts(z3.IntVal(0)):
            st.assume(f)
        ln, pt = [z3.Const(ex.uniq("removed"), AI) for _ in range(2)]
        c = S.count()
        st.assume(S.D(p.segments.n) >= 0, S.D(p.segments.n) <= p.segments.n)
        st.ghost["counts"] = {**st.ghost.get("counts", {}), ln.get_id(): c}
        fields = {0: (8, "i", ln), 8: (8, "v", pt)}
        put_vector(ex, st, a[0].r, a[0].o + L.off_segments, "removed", n=c, fields=fields)
        for c_ in (0, 8, 16):
            st.dirty.add((a[0].r, a[0].o + L.off_segments + c_, 8))
        st.ghost.setdefault("removals", ())
        st.ghost["removals"] = st.ghost["removals"] + ((p.segments, p.absolute, ln, pt),)
    return h


def prove_remove(rep, mod, L, prefix):
    ex = Exec(mod, rep, prefix=prefix)
    vector_contracts(ex)
    sp = DotLoop()
    ex.loop(r"remove_dot_segments", None, sp)

    def setup(st):
        o = ex.alloc(st, L.size_path, "path")
        put_path(ex, st, L, o.r, 0, "path")
        p = Path(ex, st, L, o)
        sp.S = Stack(ex, p.segments)
        sp.array = st.mem[o.r].cells[L.off_segments][1].r
        b = model.Parts.__new__(model.Parts)
        none = model.Opt(z3.BoolVal(False), model.NOVIEW)
        b.scheme = b.query = b.fragment = none
        b.authority, b.path = model.Opt(z3.BoolVal(False), None), p
        ex.hint = lambda m: model_parts(m, b)
        st.dirty = set()
        return [o], (o, p)

    def post(ex, st, rv, c):
        o, p = c
        S = sp.S
        q = Path(ex, st, L, o)
        for f in S.facts(z3.IntVal(0)):
            st.assume(f)
        n = p.segments.n
        ex.oblige(st, "remove_dot_segments.count", q.segments.n == S.count())
        j = z3.Int("j")
        ex.oblige(st, "remove_dot_segments.segments", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S.D(n)), q.segments.at(j).same(View(z3.Select(S.LEN(n), j), z3.Select(S.PTR(n), j))))))
        ex.oblige(st, "remove_dot_segments.ends-with-empty-segment", z3.Implies(S.LAST(n), q.segments.at(S.D(n)).n == 0))
        ex.oblige(st, "remove_dot_segments.absolute-unchanged", q.absolute == p.absolute)
    return verify(ex, one(mod, REMOVE), setup, post, title="uri::parts::path::remove_dot_segments()", name="remove_dot_segments")


def lemmas(rep, L, prefix):
    """no dot-segment survives; a list without dot-segments is left as it is, so that removing twice is removing once"""
    mod = ir.Module.__new__(ir.Module)
    mod.types, mod.globals, mod.funcs, mod.decls, mod._size, mod._dem, mod.aliases = {}, {}, {}, {}, {}, None, {}
    ex = Exec(mod, rep, prefix=prefix)
    ex.fnstack = ["lemma"]
    rep.functions["lemma: no dot-segment survives; idempotence"] = "lemma"
    st = State()
    s = model.Segs(z3.Int("count"), z3.Const("seg_len", AI), z3.Const("seg_ptr", AI))
    S = Stack(ex, s)
    k, j = z3.Ints("k j")
    st.assume(k >= 0, s.n >= 0)
    for f in S.facts(k):
        st.assume(f)
    el = lambda S, i, j: View(z3.Select(S.LEN(i), j), z3.Select(S.PTR(i), j))
    bad = lambda v: z3.Or(S.dot(v), S.dotdot(v))
    clean = lambda i: z3.And(S.D(i) >= 0, S.D(i) <= i, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S.D(i)), z3.Not(bad(el(S, i, j))))))
    ex.oblige(st, "lemma.no-dot-segment-kept.base", clean(z3.IntVal(0)))
    ex.oblige(st, "lemma.no-dot-segment-kept.step", z3.Implies(clean(k), clean(k + 1)))
    # every kept segment is one of the originals, in order: FROM(i)[j] is its position
    FROM = z3.Function("from", I, AI)
    st2 = st.copy()
    v = s.at(k)
    st2.assume(FROM(k + 1) == z3.If(bad(v), FROM(k), z3.Store(FROM(k), S.D(k), k)))
    a, b = z3.Ints("a b")
    origin = lambda i: z3.And(S.D(i) >= 0, z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < S.D(i)), z3.And(z3.Select(FROM(i), a) >= 0, z3.Select(FROM(i), a) < i,
                              z3.Select(S.LEN(i), a) == z3.Select(s.len, z3.Select(FROM(i), a)), z3.Select(S.PTR(i), a) == z3.Select(s.ptr, z3.Select(FROM(i), a))))),
                              z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < S.D(i)), z3.Select(FROM(i), a) < z3.Select(FROM(i), b))))
    ex.oblige(st2, "lemma.kept-in-order.base", origin(z3.IntVal(0)))
    ex.oblige(st2, "lemma.kept-in-order.step", z3.Implies(origin(k), origin(k + 1)))
    # in place: above the stack nothing is overwritten before it is read
    st5 = st.copy().assume(S.LEN(z3.IntVal(0)) == s.len, S.PTR(z3.IntVal(0)) == s.ptr)
    unread = lambda i: z3.And(S.D(i) >= 0, S.D(i) <= i, z3.ForAll([j], z3.Implies(j >= i, z3.And(z3.Select(S.LEN(i), j) == z3.Select(s.len, j), z3.Select(S.PTR(i), j) == z3.Select(s.ptr, j)))))
    ex.oblige(st5, "lemma.in-place.base", unread(z3.IntVal(0)))
    ex.oblige(st5, "lemma.in-place.step", z3.Implies(unread(k), unread(k + 1)))
    # nothing to remove: nothing changes
    nodots = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), z3.Not(bad(s.at(j)))))
    same = lambda i: z3.And(S.D(i) == i, z3.Not(S.LAST(i)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(z3.Select(S.LEN(i), j) == z3.Select(s.len, j), z3.Select(S.PTR(i), j) == z3.Select(s.ptr, j)))))
    st3 = st.copy().assume(nodots)
    ex.oblige(st3, "lemma.idempotent.base", same(z3.IntVal(0)))
    ex.oblige(st3, "lemma.idempotent.step", z3.Implies(z3.And(k < s.n, same(k)), same(k + 1)))
    # the result of the contract has no dot-segment, so the second application has nothing to remove
    st4 = st.copy().assume(clean(s.n))
    ln, ad = S.at(j)
    ex.oblige(st4, "lemma.result-has-no-dot-segment", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S.count()), z3.Not(bad(View(ln, ad))))))
    text_lemmas(ex)
    ex.flush()


def text_lemmas(ex):
    """The stack is RFC 3986 5.2.4 read on text. The buffer of an absolute path is "/" s rest, where s has no "/" and rest is empty or begins
    with "/"; the output is the text of the stack, "/" before every segment: t "/" o with o on top. One round of 5.2.4's loop (rules A-E):"""
    z, x = z3.IntVal, z3.Function
    s, r, t, o = (x("text_" + c, I, I) for c in "srto")
    ls, lr, lt, lo, k, p, q = z3.Ints("ls lr lt lo k p q")
    SL = z(47)
    free = lambda f, n: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f(k) != SL))
    pre = [ls >= 0, lr >= 0, lt >= 0, lo >= 0, free(s, ls), free(o, lo), z3.Implies(lr > 0, r(0) == SL)]
    buf = lambda k: z3.If(k == 0, SL, z3.If(k <= ls, s(k - 1), r(k - 1 - ls)))
    n = 1 + ls + lr
    out = lambda k: z3.If(k < lt, t(k), z3.If(k == lt, SL, o(k - lt - 1)))
    nout = lt + 1 + lo
    starts = lambda c: z3.And([n >= len(c)] + [buf(z(i)) == ord(d) for i, d in enumerate(c)])
    whole = lambda c: z3.And(starts(c), n == len(c))
    word = lambda c: z3.And([ls == len(c)] + [s(i) == ord(d) for i, d in enumerate(c)])
    st = State()
    for f in pre:
        st.assume(f)
    ob = lambda nm, e: ex.oblige(st, "lemma.text." + nm, e)
    ob("rules-A-and-D-never-apply", z3.Not(z3.Or(starts("../"), starts("./"), whole("."), whole(".."))))
    ob("rule-B-applies-to-dot", z3.Or(starts("/./"), whole("/.")) == word("."))
    ob("rule-C-applies-to-dotdot", z3.Or(starts("/../"), whole("/..")) == word(".."))
    for nm, pat, cut in (("B", "/./", 3), ("C", "/../", 4)):
        # the buffer becomes "/" and what stands behind the prefix: that is rest; at the end of the path it becomes "/", one more, empty, segment
        ob(f"rule-{nm}-leaves-rest", z3.Implies(starts(pat), z3.And(lr > 0, n - cut + 1 == lr, r(0) == SL, z3.ForAll([k], z3.Implies(z3.And(1 <= k, k < lr), buf(cut + k - 1) == r(k))))))
        ob(f"rule-{nm}-at-the-end", z3.Implies(whole(pat[:-1]), lr == 0))
    nxt = z3.And(1 <= q, q < n, buf(q) == SL, z3.ForAll([p], z3.Implies(z3.And(1 <= p, p < q), buf(p) != SL)))
    ob("rule-E-moves-one-segment", z3.Implies(nxt, z3.And(q == 1 + ls, lr > 0)))
    ob("rule-E-moves-the-last-segment", z3.Implies(z3.ForAll([p], z3.Implies(z3.And(1 <= p, p < n), buf(p) != SL)), lr == 0))
    lastsl = z3.And(0 <= q, q < nout, out(q) == SL, z3.ForAll([p], z3.Implies(z3.And(q < p, p < nout), out(p) != SL)))
    ob("rule-C-removes-the-top", z3.Implies(lastsl, q == lt))
    rounds_lemma(ex)


def rounds_lemma(ex):
    """The induction over the rounds. After the rounds for k segments of an absolute path (text_lemmas says what one does) the output is
    the text of the stack and the buffer the text of the segments from k on; at the end the output is the text of the result."""
    from .template import frame_lemma
    frame_lemma(ex)
    st = State()
    s = model.Segs(z3.Int("count"), z3.Const("seg_len", AI), z3.Const("seg_ptr", AI))
    S, k, T, z = Stack(ex, s), z3.Int("k_round"), z3.BoolVal(True), z3.IntVal(0)
    OUT, BUF, SUF, CUT = (z3.Function(n, d, SeqI) for n, d in (("round_out", I), ("round_buf", I), ("segments_from", I), ("without_last_segment", SeqI)))
    el = lambda ln, pt, j: View(z3.Select(ln, j), z3.Select(pt, j))
    text = lambda ln, pt, j: PFX(T, ln, pt, j)
    step = lambda ln, pt, j: z3.Implies(j >= 0, text(ln, pt, j + 1) == z3.Concat(text(ln, pt, j), lit("/"), Tf(z3.Select(pt, j), z3.Select(ln, j))))
    v = s.at(k)
    one, two = S.dot(v), S.dotdot(v)
    D, LN, PT = S.D(k), S.LEN(k), S.PTR(k)
    here, rest = Tf(v.a, v.n), SUF(k + 1)
    st.assume(k >= 0, k < s.n, *S.facts(k))
    for ln, pt in ((LN, PT), (S.LEN(k + 1), S.PTR(k + 1)), (S.LEN(z), S.PTR(z))):
        st.assume(text(ln, pt, z) == E0, step(ln, pt, D), step(ln, pt, D - 1))
    # lemma.prefix-frame: storing at D leaves the text of the first D alone
    st.assume(text(z3.Store(LN, D, v.n), z3.Store(PT, D, v.a), D) == text(LN, PT, D))
    # text before the top, "/", top without "/": lemma.text.rule-C-removes-the-top
    top = el(LN, PT, D - 1)
    st.assume(CUT(E0) == E0, z3.Implies(D > 0, CUT(z3.Concat(text(LN, PT, D - 1), lit("/"), Tf(top.a, top.n))) == text(LN, PT, D - 1)))
    # the segments still to come
    st.assume(SUF(s.n) == E0, SUF(k) == z3.Concat(lit("/"), here, rest), z3.Length(Tf(v.a, v.n)) == v.n,
              z3.Implies(k + 1 < s.n, z3.PrefixOf(lit("/"), rest)))
    # one round
    st.assume(OUT(z) == E0, BUF(z) == SUF(z), OUT(k + 1) == z3.If(one, OUT(k), z3.If(two, CUT(OUT(k)), z3.Concat(OUT(k), lit("/"), here))),
              BUF(k + 1) == z3.If(z3.And(z3.Or(one, two), rest == E0), lit("/"), rest))
    inv = lambda i: z3.And(S.D(i) >= 0, OUT(i) == text(S.LEN(i), S.PTR(i), S.D(i)), z3.Implies(i < s.n, BUF(i) == SUF(i)),
                           z3.Implies(i == s.n, BUF(i) == z3.If(S.LAST(i), lit("/"), E0)))
    ob = lambda s, nm, e: ex.oblige(s, "lemma.text.rounds." + nm, e)
    ob(st, "base", z3.Implies(s.n > 0, inv(z)))
    ob(st, "step", z3.Implies(inv(k), inv(k + 1)))
    # the result of the contract: the stack, and an empty segment if the last was a dot-segment (rule E moves the "/" that is left)
    end = State()
    n = s.n
    D, LN, PT = S.D(n), S.LEN(n), S.PTR(n)
    ln, pt = z3.Const("result_len", AI), z3.Const("result_ptr", AI)
    j = z3.Int("j_result")
    same = lambda i: z3.Implies(i <= D, text(ln, pt, i) == text(LN, PT, i))
    end.assume(n > 0, j >= 0, z3.Select(ln, j) == S.at(j)[0], z3.Select(pt, j) == S.at(j)[1], z3.Select(ln, D) == S.at(D)[0], z3.Select(pt, D) == S.at(D)[1],
               text(ln, pt, z) == E0, text(LN, PT, z) == E0, step(ln, pt, j), step(LN, PT, j))
    ob(end, "result-prefix.base", z3.Implies(D >= 0, same(z)))
    ob(end, "result-prefix.step", z3.Implies(z3.And(j < D, same(j)), same(j + 1)))
    last = el(ln, pt, D)
    end.assume(inv(n), same(D), step(ln, pt, D), z3.Length(Tf(last.a, last.n)) == last.n)
    ob(end, "result-text", text(ln, pt, S.count()) == z3.Concat(OUT(n), BUF(n)))
