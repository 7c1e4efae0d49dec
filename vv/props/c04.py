"""C04: valid() is true exactly for grammatical components."""
from .composer import *
from ..peg import Lang, char_sets

RULES = {"scheme": R.scheme, "userinfo": R.userinfo, "host": R.host, "port": R.port, "segment": R.segment, "query": R.query}
SORT = (z3.IntSort(), z3.IntSort(), z3.BoolSort())
IN = {k: z3.Function("is_" + k, *SORT) for k in RULES}
ASEG = z3.Int("k_segment")


def field_case(rule, w):
    base = dict(scheme=b"s", host=b"h", absolute=True, segments=[b"x"])
    if rule == "segment":
        base["segments"] = [b"a", w]
    else:
        base[rule] = w
    r = [case_of(**base)]
    if rule == "query":
        r.append(case_of(**{**base, "query": None, "fragment": w}))
    return r


class Matchers:
    """rule{text}.concat(f)....done() as a predicate of the text: which component of RFC 3986 the expression is"""

    def __init__(self, U):
        self.U, self.seen, self.pred = U, {}, {}

    def on_done(self, ex, st, e, length, data):
        k = repr(e)
        self.seen.setdefault(k, e)
        p = self.pred.get(k)
        if p is None:
            p = z3.Function(f"matches_{len(self.seen)}", *SORT)
        readable_range(ex, st, data, zi(length), "rule")
        phi = p(data.addr(), zi(length))
        return [(st.copy().assume(phi), True), (st.copy().assume(z3.Not(phi)), False)]

    def classify(self):
        """language of every expression met; True if each is known"""
        U = self.U
        for e in self.seen.values():
            self.collect(e)
        if not U.explore():
            return False
        ok = True
        for i, (k, e) in enumerate(self.seen.items()):
            lang = U.lang(list(RULES.values()), extra=[e])
            letters = range(len(lang.classes))
            END = lang.atom(("END",))
            P = lang.M(e, END, "s")
            hints, nm, t = [], None, time.time()
            near = []
            for c, spec in RULES.items():
                Q = lang.M(spec, END, "s")
                words, states = lang.witness(lang.XOR(P, Q), letters, 3)
                if not words:
                    nm, pred = c, IN[c]
                    break
                near.append((max(map(len, words)), c, [lang.text(w) for w in words]))
                if all(len(w) == 0 for w in words):   # the rule up to the empty text
                    nm, yes = c + " up to the empty text", not lang.witness(lang.XOR(P, lang.OR(Q, END)), letters, 1)[0]
                    pred = (lambda f, y: lambda a, n: z3.Or(f(a, n), n == 0) if y else z3.And(f(a, n), n != 0))(IN[c], yes)
                    break
            name = f"{U.prefix}valid.matcher.{i + 1}"
            fn = U.show(e)[:120]
            if nm:
                U.rep.add(name, fn, PROVED, "derivatives", time.time() - t, f"equals the RFC 3986 rule {nm}")
                self.pred[k] = pred
            else:
                for _, c, ws in near:
                    for w in ws:
                        hints += field_case(c, w)
                # perhaps a combination of the rules: an input has to confirm it
                U.rep.add(name, fn, UNDECIDED, "derivatives", time.time() - t, "equals no component rule of RFC 3986; differs by " + "; ".join(f"{c}: {ws}" for _, c, ws in near)[:800], hints)
                ok = False
        return ok

    def collect(self, e):
        pass


class SegLoop(LoopSpec):
    """all segments before i are segments"""
    def roles(self, ex, st, view):
        yield from PathLoop.roles(self, ex, st, view)

    i = PathLoop.i

    def inv(self, ex, st, view, roles):
        i = self.i(view, roles)
        k = z3.Int("k_inv")
        s = self.segs
        return [("range", z3.And(i >= 0, i <= s.n)), ("checked", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), IN["segment"](z3.Select(s.ptr, k), z3.Select(s.len, k)))))]

    def variant(self, ex, st, view, roles):
        return self.segs.n - self.i(view, roles)


def all_segments(s):
    k = z3.Int("k_all")
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s.n), IN["segment"](z3.Select(s.ptr, k), z3.Select(s.len, k))))


def segment_algorithms(ex):
    """assumed contracts of the std algorithms that test every segment; the predicate is executed on an arbitrary one"""
    def algo(kind):
        def h(ex, st, a, w, n):
            a = [x[0] if isinstance(x, list) and len(x) == 1 else x for x in a]
            rid = a[0].r
            if rid == NULL or rid not in st.mem or st.mem[rid].kind != "array":
                raise Unsupported("range of " + kind)
            arr = st.mem[rid]
            pos = lambda p: z3.simplify(zi(Lin.of(p.o).z()) / 16)
            lo, hi = pos(a[0]), pos(a[1])
            ex.oblige(st, w + f".{kind}.range", z3.And(lo >= 0, lo <= hi, hi <= arr.n))
            k = z3.Int(ex.uniq("element"))
            s2 = st.copy().assume(k >= lo, k < hi)
            seg = lambda k: IN["segment"](z3.Select(arr.fields[8][2], k), z3.Select(arr.fields[0][2], k))
            for s3, rv in run_predicate(ex, s2, n, a[2:], Ptr(rid, Lin(0, ((16, k),))), w):
                ex.oblige(s3, "predicate.segment", zb(rv) == seg(k) if kind != "any" else zb(rv) == z3.Not(seg(k)))
            q = z3.Int(ex.uniq("k_all"))
            return [(st, z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi), seg(q))) if kind == "all" else
                     z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi), seg(q)))))]
        return h
    IT = r"<__gnu_cxx::__normal_iterator<std::basic_string_view<"
    ex.contract(r"std::all_of" + IT, algo("all"))
    ex.contract(r"std::any_of" + IT, algo("any"))


def has(o, rule):
    return z3.Implies(o.has, IN[rule](o.v.a, o.v.n))


def auth_valid(a):
    return z3.And(has(a.userinfo, "userinfo"), IN["host"](a.host.a, a.host.n), has(a.port, "port"))


def path_facts(ex, st, p):
    """definition of path text at its beginning; a segment has no "/" """
    s = p.segments
    P = lambda k: PFX(p.absolute, s.len, s.ptr, z3.IntVal(k))
    out = [z3.Implies(s.n == 0, PFX(p.absolute, s.len, s.ptr, s.n) == E0)]
    rest = z3.Const(ex.uniq("rest"), SeqI)
    for k in (0, 1, 2):
        v = s.at(z3.IntVal(k))
        out += pfx_facts(ex, st, p.absolute, s, z3.IntVal(k))
        out.append(z3.Implies(z3.And(IN["segment"](v.a, v.n), v.n > 0), Tf(v.a, v.n)[0] != 47))
    out.append(z3.Implies(s.n >= 3, PFX(p.absolute, s.len, s.ptr, s.n) == z3.Concat(P(3), rest)))
    return out


def path_facts_lemmas(U):
    """what path_facts() states beyond definitions: the text of a path begins with that of its first three segments
    (induction over the segments), and a text of the segment rule does not begin with "/" """
    ex = Exec(U.mod, U.rep, prefix=U.prefix)
    ex.fnstack = ["specification"]
    st = State()
    s = Segs(z3.Int("count"), z3.Const("seg_len", ARR), z3.Const("seg_ptr", ARR))
    ab, k, rest = z3.Bool("absolute"), z3.Int("k"), z3.Const("rest", SeqI)
    P = lambda i: PFX(ab, s.len, s.ptr, i)
    st.assume(k >= 3, *pfx_facts(ex, st, ab, s, k))
    seg = s.at(k)
    ex.oblige(st, "lemma.path-text.begins-with.base", P(z3.IntVal(3)) == z3.Concat(P(z3.IntVal(3)), E0))
    ex.oblige(st, "lemma.path-text.begins-with.step", z3.Implies(P(k) == z3.Concat(P(z3.IntVal(3)), rest),
              P(k + 1) == z3.Concat(P(z3.IntVal(3)), z3.Concat(rest, sep(ab, k), Tf(seg.a, seg.n)))))
    ex.flush()
    slash = R.cat("/", R.star(R.cls(range(256))))
    lang = Lang(char_sets([R.segment, slash]), lambda k: None)
    END = lang.atom(("END",))
    U.decide(lang, lang.AND(lang.M(R.segment, END, "s"), lang.M(slash, END, "s")), range(len(lang.classes)), "lemma.segment-does-not-begin-with-a-slash", "specification", 1)


def slashes(ex, st, p):
    return z3.PrefixOf(lit("//"), path_text(ex, st, p.absolute, p.segments))


def parts_spec(ex, st, p):
    """the contract of parts::valid()"""
    return z3.And(p.scheme.has, has(p.scheme, "scheme"), z3.Implies(p.authority.has, auth_valid(p.authority.v)), all_segments(p.path.segments),
                  has(p.query, "query"), has(p.fragment, "query"), z3.Or(p.authority.has, z3.Not(slashes(ex, st, p.path))))


def sample(m, v, rule):
    """a text that is or is not a component, as the model says"""
    ev = lambda e: m.eval(e, model_completion=True)
    good = z3.is_true(ev(IN[rule](v.a, v.n)))
    if good and ev(v.n).as_long() == 0 and rule != "scheme":
        return b""
    return (b"a" if rule in ("scheme", "userinfo", "host", "segment", "query") else b"1") if good else b"^"


def sample_parts(m, p):
    tr = lambda e: z3.is_true(m.eval(e, model_completion=True))
    opt = lambda o, r: sample(m, o.v, r) if tr(o.has) else None
    k = dict(scheme=opt(p.scheme, "scheme"), query=opt(p.query, "query"), fragment=opt(p.fragment, "query"), absolute=tr(p.path.absolute))
    if tr(p.authority.has):
        a = p.authority.v
        k.update(userinfo=opt(a.userinfo, "userinfo"), host=sample(m, a.host, "host"), port=opt(a.port, "port"))
    n = min(m.eval(p.path.segments.n, model_completion=True).as_long(), 8)
    k["segments"] = [sample(m, p.path.segments.at(z3.IntVal(i)), "segment") for i in range(n)]
    return case_of(**k)


def prove(rep, work):
    U = UriGrammar(rep, work, "C04.")
    valid_contracts(U)
    path_facts_lemmas(U)
    compose_path(rep, U)


def valid_contracts(U):
    L, G = U.L, U.G
    mt = Matchers(U)
    ex = G.ex
    G.on_done = mt.on_done
    string_contracts(ex)
    vector_contracts(ex)
    ex.contract(STRCV, path_contract(L))
    ex.contract(STR + r"starts_with\(char const\*\) const$", lambda ex, st, a, w, n: [(s2, z3.PrefixOf(ex.content(s2, a[1], k), strval(s2, a[0]))) for s2, k in strlen_h(ex, st, [a[1]], w, n)])
    segment_algorithms(ex)
    sp = SegLoop()
    ex.loop(r"^uri::parts::path::valid\(\) const", None, sp)

    def s_path(st):
        p = ex.alloc(st, L.size_path, "path")
        put_path(ex, st, L, p.r, 0, "path")
        b = Path(ex, st, L, p)
        sp.segs = b.segments
        return [p], b

    def s_auth(st):
        p = ex.alloc(st, L.size_authority, "authority")
        put_authority(ex, st, L, p.r, 0, "authority")
        return [p], Auth(st, L, p)

    def s_parts(st):
        p = new_parts(ex, st, L, "parts")
        b = Parts(ex, st, L, p)
        ex.hint = lambda m: sample_parts(m, b)
        return [p], b

    def result(name, spec, facts=lambda ex, st, c: []):
        def post(ex, st, rv, c):
            st.assume(*facts(ex, st, c))
            ex.oblige(st, name, zb(rv) == spec(ex, st, c))
        return post

    def run():
        done = []
        done.append(verify(ex, one(U.mod, r"^uri::parts::authority::valid\(\) const"), s_auth, result("authority.valid.result", lambda ex, st, a: auth_valid(a)), name="authority.valid"))
        done.append(verify(ex, one(U.mod, r"^uri::parts::path::valid\(\) const"), s_path, result("path.valid.result", lambda ex, st, p: all_segments(p.segments)), name="path.valid"))
        n = len(ex.contracts)
        ex.contract(r"^uri::parts::authority::valid\(\) const", lambda ex, st, a, w, n: [(st, auth_valid(Auth(st, L, a[0])))])
        ex.contract(r"^uri::parts::path::valid\(\) const", lambda ex, st, a, w, n: [(st, all_segments(Path(ex, st, L, a[0]).segments))])
        ex._hc.clear()
        done.append(verify(ex, one(U.mod, r"^uri::parts::valid\(\) const"), s_parts, result("parts.valid.result", parts_spec, lambda ex, st, p: path_facts(ex, st, p.path)), name="parts.valid"))
        del ex.contracts[n:]
        ex._hc.clear()
        return all(d is not None for d in done)
    # first to find the expressions, then with their languages known
    real, ex.rep = ex.rep, Report()
    run()
    ex.rep = real
    ok = mt.classify() and run()
    G.on_done = None
    return ok


def compose_path(rep, U):
    """the contract of path -> string, which valid() calls"""
    ex = Exec(U.mod, rep, prefix=U.prefix)
    string_contracts(ex)
    return path_to_string(ex, U.mod, U.L)
