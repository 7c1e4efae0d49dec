"""C14: encode() and decode() of parts: parts_strings as a fold over the components, both passes of either operation against the
sizes and texts specified by C09, C10 (percent-encoding) and C13 (host), the store as text that only grows."""
import os, time, z3
from ..common import *
from ..sym import *
from ..lib import *
from ..model import *
from .. import ir

TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3",
           "contracts assumed for std::string (the store: push_back, reserve, clear, size, capacity, data), std::vector<std::string_view> (copy, representation) and std::bitset (test, set)",
           "contract of puny_encoded/puny_decoded and their size functions at the calls of encode and decode (C13)"]
ASSUMPTIONS = ["the store is a std::string and no component lies in it", "views are readable for their length, a view without data is empty", "allocation succeeds; the converted text is shorter than 2^61 bytes, a path has fewer than 2^32-8 segments",
               "a range written behind the end of the store keeps its bytes until the store is cleared, moved or written there"]
I, B = z3.IntSort(), z3.BoolSort()
AI, AB = z3.ArraySort(I, I), z3.ArraySort(I, B)
ORDER = [("scheme", 0), ("segments", 6), ("userinfo", 1), ("host", 2), ("port", 3), ("query", 4), ("fragment", 5)]
PATH = 6


def put_text(ex, st, r, off, name):
    """a view whose data may be null (then it is empty)"""
    p, n = ex.text(st, name)
    a = z3.Int(ex.uniq(name + "_p"))
    st.readable.pop()
    st.assume(a >= 0, a + n < 2**61, z3.Implies(a == 0, n == 0))
    st.readable.append((a, n))
    cell(st, r, off, 8, n)
    cell(st, r, off + 8, 8, Ptr(TEXT, Lin.of(a)))


def put_parts0(ex, st, L, r, name):
    for nm, off in (("scheme", L.off_scheme), ("userinfo", L.off_authority + L.off_userinfo), ("port", L.off_authority + L.off_port), ("query", L.off_query), ("fragment", L.off_fragment)):
        put_text(ex, st, r, off, f"{name}_{nm}")
        cell(st, r, off + 16, 1, z3.Bool(ex.uniq(f"{name}_has_{nm}")))
    put_text(ex, st, r, L.off_authority + L.off_host, name + "_host")
    cell(st, r, L.off_authority + L.size_authority, 1, z3.Bool(ex.uniq(name + "_auth")))
    put_path(ex, st, L, r, L.off_path, name + "_path")


class Comps:
    """the components of parts as (present, view) and the segment arrays"""
    def __init__(self, p):
        au = p.authority
        a = au.v
        has = lambda c, v: z3.And(c, v.a != 0)
        no = z3.BoolVal(False)
        self.one = {"scheme": (has(p.scheme.has, p.scheme.v), p.scheme.v),
                    "userinfo": (has(z3.And(au.has, a.userinfo.has), a.userinfo.v), a.userinfo.v) if a else (no, NOVIEW),
                    "host": (has(au.has, a.host), a.host) if a else (no, NOVIEW),
                    "port": (has(z3.And(au.has, a.port.has), a.port.v), a.port.v) if a else (no, NOVIEW),
                    "query": (has(p.query.has, p.query.v), p.query.v), "fragment": (has(p.fragment.has, p.fragment.v), p.fragment.v)}
        self.segs = p.path.segments


# ---- parts_strings: function(component, index, field) for every component with data, in one order; the component becomes the result ----
TT = z3.DeclareSort("Effects")      # what the calls so far have done
STEP = z3.Function("step", TT, I, I, I, I, TT)      # the effects after function(view of n bytes at a, index, field)
RN = z3.Function("result_size", TT, I, I, I, I, I)
RA = z3.Function("result_data", TT, I, I, I, I, I)


def empty_text(x):
    """a call with an empty text changes nothing and returns it: shown for each function object with what one call does"""
    return z3.Implies(x[1] == 0, z3.And(STEP(*x) == x[0], RN(*x) == 0, RA(*x) == x[2]))


class Fold:
    """after j segments: SE(j) effects, CNT(j) segments with data, AL(j)/AP(j) the sizes and pointers of all segments"""
    def __init__(self, ex, segs, t0):
        u = ex.uniq("")
        self.s, self.t0 = segs, t0
        self.SE, self.CNT = z3.Function("effects" + u, I, TT), z3.Function("with_data" + u, I, I)
        self.AL, self.AP = z3.Function("sizes" + u, I, AI), z3.Function("pointers" + u, I, AI)

    def facts(self, j):
        v, z, s = self.s.at(j), z3.IntVal(0), self.s
        SE, CNT, AL, AP = self.SE, self.CNT, self.AL, self.AP
        d = v.a != 0
        x = (SE(j), v.n, v.a, CNT(j), z3.IntVal(PATH))
        return [empty_text(x), SE(z) == self.t0, CNT(z) == 0, AL(z) == s.len, AP(z) == s.ptr,
                z3.Implies(j >= 0, z3.And(SE(j + 1) == z3.If(d, STEP(*x), SE(j)), CNT(j + 1) == CNT(j) + z3.If(d, 1, 0),
                                          AL(j + 1) == z3.If(d, z3.Store(AL(j), j, RN(*x)), AL(j)), AP(j + 1) == z3.If(d, z3.Store(AP(j), j, RA(*x)), AP(j)))),
                # lemma.fold, by induction
                z3.Implies(j >= 0, z3.And(z3.Select(AL(j), j) == v.n, z3.Select(AP(j), j) == v.a, CNT(j) >= 0, CNT(j) <= j))]

    def segment(self, k):
        """the k-th segment afterwards (k below the count); lemma.fold"""
        v = self.s.at(k)
        x = (self.SE(k), v.n, v.a, self.CNT(k), z3.IntVal(PATH))
        return View(z3.If(v.a != 0, RN(*x), v.n), z3.If(v.a != 0, RA(*x), v.a))


def fold_lemmas(ex):
    """closed form of the segment arrays: below j the results, from j on the segments as they were"""
    st = State()
    f = Fold(ex, Segs(z3.Int("n"), z3.Const("len0", AI), z3.Const("ptr0", AI)), z3.Const("t0", TT))
    j, k = z3.Ints("j k")
    st.assume(j >= 0, *f.facts(j)[:6])
    P = lambda i: z3.And(z3.Implies(k >= i, z3.And(z3.Select(f.AL(i), k) == f.s.at(k).n, z3.Select(f.AP(i), k) == f.s.at(k).a)),
                         z3.Implies(z3.And(0 <= k, k < i), z3.And(z3.Select(f.AL(i), k) == f.segment(k).n, z3.Select(f.AP(i), k) == f.segment(k).a)), f.CNT(i) >= 0, f.CNT(i) <= i)
    ex.oblige(st, "lemma.fold.base", P(z3.IntVal(0)))
    # the step uses the hypothesis at k and at j
    hyp = z3.And(z3.Select(f.AL(j), j) == f.s.at(j).n, z3.Select(f.AP(j), j) == f.s.at(j).a)
    ex.oblige(st, "lemma.fold.step", z3.Implies(z3.And(P(j), hyp), P(j + 1)))


class SegLoop(LoopSpec):
    fold = None
    order = False

    def roles(self, ex, st, view):
        seg = lambda v, s: isinstance(v, Ptr) and isinstance(v.r, str) and v.r in st.mem and st.mem[v.r].kind == "array"
        isint = lambda v, s: s in (4, 8) and not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v))
        curs = view.modified(seg)
        ints = view.modified(isint)
        if self.order:
            yield {}
            return
        for p in [("p", k) for k in curs] + [("i", k) for k in ints if k[0] != "ghost"]:
            for c in ints:
                if c != p[1]:
                    yield {"pos": p, "count": c}

    def j(self, view, roles):
        kind, k = roles["pos"]
        v = view.cell(k)
        if kind == "i":
            return zi(v)
        d = Lin.of(v.o)
        if d.c % 16 or any(c % 16 for c, _ in d.t):
            raise Unsupported("segment pointer")
        return Lin(d.c // 16, [(c // 16, x) for c, x in d.t]).z()

    def inv(self, ex, st, view, roles):
        if self.order:
            return []
        f, j = self.fold, self.j(view, roles)
        a = st.mem[self.array]
        return [("range", z3.And(j >= 0, j <= f.s.n)), ("count", zi(view.cell(roles["count"])) == f.CNT(j)), ("effects", st.ghost["t"] == f.SE(j)),
                ("sizes", a.fields[0][2] == f.AL(j)), ("pointers", a.fields[8][2] == f.AP(j))]

    def facts(self, ex, st, view, roles):
        return [] if self.order else self.fold.facts(self.j(view, roles))

    def variant(self, ex, st, view, roles):
        return None if self.order else self.fold.s.n - self.j(view, roles)


def call_of(mod, f):
    """the function object's call operator, as parts_strings<...> calls it"""
    out = set()
    for b in f.blocks.values():
        for i in b:
            if i.op == "call" and "operator()(" in str(mod.dem(i.a[0][1])):
                out.add(i.a[0][1])
    if len(out) != 1:
        raise Unsupported("parts_strings calls %d function objects" % len(out))
    return out.pop()


FIELD = {f: nm for nm, f in ORDER}


def order_of(mod, L, fname):
    """the order in which parts_strings visits the components, read off a run in which all are there"""
    ex = Exec(mod, Report(), prefix="C14.")
    vector_contracts(ex)
    f = mod.func(fname)
    spec = SegLoop()
    spec.order = True
    ex.loop(r"uri::details::parts_strings<", None, spec)
    trace = []

    def call(ex, st, a, w, n):
        k = ex.concretize(st, zi(a[-1]))
        if k in FIELD and FIELD[k] not in trace:
            trace.append(FIELD[k])
        return [(st, [zi(a[-4]), a[-3]])]
    ex._hc[call_of(mod, f)] = call
    st = State()
    ex.fnstack = ["order"]
    try:
        p = ex.alloc(st, L.size_parts, "parts")
        put_parts0(ex, st, L, p.r, "in")
        for o, (sz, v) in list(st.mem[p.r].cells.items()):
            if z3.is_expr(v) and z3.is_bool(v):
                st.assume(v)
            if isinstance(v, Ptr) and v.r == TEXT:
                st.assume(v.addr() != 0)
        vec = [m for m in st.mem.values() if isinstance(m, ViewArray)][0]
        st.assume(vec.n >= 1, vec.n < 2**31)
        args = [p] + [ex.alloc(st, 64, "function") if ty == PTR else ex.D.fresh(st, "function", ty[1]) for ty, _, _ in f.params[1:]]
        ex.run(f, st, args, top=True)
    except Dead:
        pass
    if sorted(trace) != sorted(FIELD.values()):
        return ORDER
    return [(nm, dict(ORDER)[nm]) for nm in trace]


def prove_fold(rep, mod, L, fname, title, ORDER):
    ex = Exec(mod, rep, prefix="C14.")
    vector_contracts(ex)
    f = mod.func(fname)
    op = call_of(mod, f)
    spec = SegLoop()
    ex.loop(r"uri::details::parts_strings<", None, spec)

    def call(ex, st, a, w, n):
        idx, fld = zi(a[-2]), zi(a[-1])
        ln, ad = zi(a[-4]), a[-3].addr()
        ex.oblige(st, w + ".data", ad != 0)
        x = (st.ghost["t"], ln, ad, idx, fld)
        st.g("t", STEP(*x))
        st.assume(RN(*x) >= 0, RN(*x) < 2**62, RA(*x) >= 0, RA(*x) < 2**62)
        return [(st, [RN(*x), Ptr(TEXT, Lin.of(RA(*x)))])]
    ex._hc[op] = call

    def setup(st):
        p = ex.alloc(st, L.size_parts, "parts")
        put_parts0(ex, st, L, p.r, "in")
        old = Parts(ex, st, L, p)
        st.assume(old.path.segments.n < 2**32 - 8)
        c = Comps(old)
        st.ghost["t"] = z3.Const("t0", TT)
        t = st.ghost["t"]
        for nm, fld in ORDER:
            if nm == "segments":
                break
            ps, v = c.one[nm]
            st.assume(empty_text((t, v.n, v.a, z3.IntVal(0), z3.IntVal(fld))))
            t = z3.If(ps, STEP(t, v.n, v.a, z3.IntVal(0), z3.IntVal(fld)), t)
        spec.fold = Fold(ex, c.segs, t)
        spec.array = [r for r, m in st.mem.items() if isinstance(m, ViewArray)][0]
        args = [p]
        for ty, attrs, _ in f.params[1:]:
            args.append(ex.alloc(st, 64, "function") if ty == PTR else ex.D.fresh(st, "function", ty[1]))
        return args, (p, old, c)

    def post(ex, st, rv, ctx):
        p, old, c = ctx
        new = Parts(ex, st, L, p)
        t = z3.Const("t0", TT)
        F = spec.fold
        for phi in F.facts(F.s.n):
            st.assume(phi)
        nc = Comps(new)
        for nm, fld in ORDER:
            if nm == "segments":
                t = F.SE(F.s.n)
                ex.oblige(st, f"{title}.segments", z3.And(new.path.segments.n == F.s.n, new.path.segments.len == F.AL(F.s.n), new.path.segments.ptr == F.AP(F.s.n)))
                continue
            pr, v = c.one[nm]
            x = (t, v.n, v.a, z3.IntVal(0), z3.IntVal(fld))
            w = nc.one[nm][1]
            st.assume(empty_text(x))
            ex.oblige(st, f"{title}.{nm}", z3.And(w.n == z3.If(pr, RN(*x), v.n), w.a == z3.If(pr, RA(*x), v.a)))
            t = z3.If(pr, STEP(*x), t)
        ex.oblige(st, f"{title}.calls", st.ghost["t"] == t)
        flags = [new.scheme.has == old.scheme.has, new.authority.has == old.authority.has, new.path.absolute == old.path.absolute, new.query.has == old.query.has, new.fragment.has == old.fragment.has]
        if old.authority.v:
            flags += [new.authority.v.userinfo.has == old.authority.v.userinfo.has, new.authority.v.port.has == old.authority.v.port.has]
        ex.oblige(st, f"{title}.presence", z3.And(flags))
    verify(ex, f, setup, post, title=f"uri::details::parts_strings<{title}>", name=title)


# ---- what one call does ----------------------------------------------------------------------------------------------------
from .c09 import ENC, ANY
from .c10 import DEC, HASP

PE = z3.Function("host_encoded", I, I, SeqI)        # of the n bytes at a (C13)
PEA = z3.Function("host_any_non_ascii", I, I, B)
PD = z3.Function("host_decoded", I, I, SeqI)
PDA = z3.Function("host_any_encoded", I, I, B)
PDOK = z3.Function("host_decodes", I, I, B)
PDERR = z3.Function("host_error", I, I, I)
SETOF = {0: 0, 1: 16, 3: 0, 4: 2, 5: 1, 6: 8}       # the encode set of each component but the host
HOST = 2
FIELDS = {f: nm for nm, f in ORDER}
XO = {"encode": z3.Function("encoded_size", I, I, I, I), "decode": z3.Function("decoded_size", I, I, I, I)}       # (field, n, a)
HOLDS = z3.Function("store_holds", I, I, I, I, B)   # at offset o of the store: the conversion of the n bytes at a, component field


def seqlen(x):
    return z3.Length(x)


def conversion(op, f, a, n):
    """(is a conversion needed, its result)"""
    if op == "encode":
        return (PEA(a, n), PE(a, n)) if f == HOST else (ANY(a, a + n, z3.IntVal(SETOF[f])), ENC(a, a + n, z3.IntVal(SETOF[f])))
    return (z3.And(PDOK(a, n), PDA(a, n)), PD(a, n)) if f == HOST else (HASP(a, a + n), DEC(a, a + n))


def conv_facts(op, f, a, n):
    """of the specifications: what is converted is not empty"""
    need, out = conversion(op, f, a, n)
    return [z3.Implies(need, z3.And(seqlen(out) >= 1, n >= 1)), seqlen(out) < 2**60] + ([z3.Implies(n == 0, PDOK(a, n))] if op == "decode" and f == HOST else [])


def size_of(op, f, a, n):
    need, out = conversion(op, f, a, n)
    return z3.If(need, seqlen(out), 0)


def store_contracts(ex, store):
    """the caller's string, at store[0]: text that may only grow within the capacity, at an address that only reserve() changes"""
    string_contracts(ex)

    def on(rx, h):
        ex.contract(STR + rx, h)

    def S(st):
        return strval(st, store[0])

    def mine(a):
        if not isinstance(a, Ptr) or a.r != store[0].r or a.o != store[0].o:
            raise Unsupported("another string")

    def append(ex, st, p, x, w):
        mine(p)
        ex.oblige(st, w + ".fits", seqlen(S(st)) + seqlen(x) <= st.ghost["cap"])
        setstr(st, p, seqcat(S(st), x))

    def reserve(ex, st, a, w, n):
        mine(a[0])
        st.g("base", z3.Int(ex.uniq("base")))
        cap = z3.Int(ex.uniq("capacity"))
        st.assume(st.ghost["base"] > 0, cap >= zi(a[1]), cap >= seqlen(S(st)), cap < 2**62, st.ghost["base"] < 2**61)
        st.g("cap", cap)

    def capacity(ex, st, a, w, n):
        mine(a[0])
        return [(st, st.ghost["cap"])]

    def data(ex, st, a, w, n):
        mine(a[0])
        return [(st, Ptr(TEXT, Lin.of(st.ghost["base"])))]
    for rx, h in ((r"reserve\(unsigned long\)$", reserve), (r"capacity\(\) const$", capacity), (r"data\(\)( const)?$", data),
                  (r"push_back\(char\)$", lambda ex, st, a, w, n: append(ex, st, a[0], z3.Unit(zi(a[1])), w))):
        ex.contracts.insert(0, (re.compile(STR + rx), h))
    return S, append


def contracts(ex, store):
    vector_contracts(ex)
    S, append = store_contracts(ex, store)

    # std::bitset
    BS = r"^std::bitset<\d+ul>::"
    bits = lambda st, p: st.mem[p.r].cells[p.o][1]
    width = lambda n: int(re.search(r"bitset<(\d+)ul>", ex.mod.dem(n)).group(1))

    def bctor(ex, st, a, w, n):
        setstr(st, a[0], z3.K(I, z3.BoolVal(False)), 8)

    def btest(ex, st, a, w, n):
        ex.oblige(st, w + ".test.range", z3.And(zi(a[1]) >= 0, zi(a[1]) < width(n)))
        return [(st, z3.Select(bits(st, a[0]), zi(a[1])))]

    def bset(ex, st, a, w, n):
        ex.oblige(st, w + ".set.range", z3.And(zi(a[1]) >= 0, zi(a[1]) < width(n)))
        setstr(st, a[0], z3.Store(bits(st, a[0]), zi(a[1]), zb(a[2]) if len(a) > 2 else z3.BoolVal(True)), 8)
        return [(st, a[0])]

    def breset(ex, st, a, w, n):
        ex.oblige(st, w + ".reset.range", z3.And(zi(a[1]) >= 0, zi(a[1]) < width(n)))
        setstr(st, a[0], z3.Store(bits(st, a[0]), zi(a[1]), z3.BoolVal(False)), 8)
        return [(st, a[0])]
    ex.contract(BS + r"bitset\(\)$", bctor)
    ex.contract(BS + r"test\(unsigned long\) const$", btest)
    ex.contract(BS + r"operator\[\]\(unsigned long\) const$", btest)
    ex.contract(BS + r"set\(unsigned long, bool\)$", bset)
    ex.contract(BS + r"reset\(unsigned long\)$", breset)

    # the library's own functions, by the contracts of C09, C10 and C13
    def text_arg(ex, st, n, p, w):
        readable_range(ex, st, p, zi(n), w)
        return p.addr(), zi(n)

    def pes(ex, st, a, w, n):
        x, k = text_arg(ex, st, a[0], a[1], w)
        es = zi(a[2])
        v = z3.If(ANY(x, x + k, es), seqlen(ENC(x, x + k, es)), 0)
        st.assume(z3.Implies(ANY(x, x + k, es), z3.And(k >= 1, seqlen(ENC(x, x + k, es)) >= 1)), seqlen(ENC(x, x + k, es)) < 2**60)
        return [(st, v)]
    ex.contract(r"^uri::details::pct_encoded_size\(", pes)

    def pds(ex, st, a, w, n):
        x, k = text_arg(ex, st, a[0], a[1], w)
        st.assume(z3.Implies(HASP(x, x + k), z3.And(k >= 1, seqlen(DEC(x, x + k)) >= 1)), seqlen(DEC(x, x + k)) < 2**60)
        return [(st, z3.If(HASP(x, x + k), seqlen(DEC(x, x + k)), 0))]
    ex.contract(r"^uri::details::pct_decoded_size\(", pds)

    def needs(ex, st, a, w, n):
        x, k = text_arg(ex, st, a[0], a[1], w)
        st.assume(z3.Implies(ANY(x, x + k, zi(a[2])), k >= 1))
        return [(st, ANY(x, x + k, zi(a[2])))]
    ex.contract(r"^uri::needs_pctencode\(std::basic_string_view", needs)

    def pct(ex, st, a, w, n):
        x, k = text_arg(ex, st, a[1].addr() - a[0].addr(), a[0], w)
        out = a[2][0] if isinstance(a[2], list) else a[2]
        append(ex, st, out, ENC(x, x + k, zi(a[3])), w)
        return [(st, out)]
    ex.contract(r"^std::back_insert_iterator<std::__cxx11::basic_string<.*>> uri::pctencode<char const\*, ", pct)

    def host_view(ex, st, p):
        n, d = sv_at(ex, st, Ptr(p.r, p.o))
        if not isinstance(d, Ptr) or d.r not in (TEXT, NULL):
            raise Unsupported("host view")
        return d.addr(), zi(n)

    def hes(ex, st, a, w, n):
        x, k = host_view(ex, st, a[0])
        st.assume(z3.Implies(PEA(x, k), z3.And(k >= 1, seqlen(PE(x, k)) >= 1)), seqlen(PE(x, k)) < 2**60)
        return [(st, z3.If(PEA(x, k), seqlen(PE(x, k)), 0))]
    ex.contract(r"^unsigned long uri::details::puny_encoded_size<icubaby::ranges::transcode_view<char8_t, char32_t,", hes)

    def hen(ex, st, a, w, n):
        x, k = host_view(ex, st, a[-2])
        out = a[-1]
        append(ex, st, out, PE(x, k), w)
        return [(st, [out, PEA(x, k)])]
    ex.contract(r"^uri::details::puny_encoded_result<.*uri::details::puny_encoded<icubaby::ranges::transcode_view<char8_t, char32_t,", hen)

    def variant2(st, p, off, index):
        cell(st, p.r, p.o + off, 1, index)

    def hds(ex, st, a, w, n):
        ret, v = a
        k, d = sv_at(ex, st, v)
        x, k = text_arg(ex, st, k, d, w)
        st.assume(z3.Implies(z3.And(PDOK(x, k), PDA(x, k)), z3.And(k >= 1, seqlen(PD(x, k)) >= 1)), seqlen(PD(x, k)) < 2**60, PDERR(x, k) != 0, PDERR(x, k) > 0, PDERR(x, k) < 2**31)
        out = []
        for ok in (True, False):
            s = st.copy()
            s.assume(PDOK(x, k) if ok else z3.Not(PDOK(x, k)))
            if not ex.feasible(s):
                continue
            if ok:
                cell(s, ret.r, ret.o, 8, z3.If(PDA(x, k), seqlen(PD(x, k)), 0))
            else:
                cell(s, ret.r, ret.o, 4, PDERR(x, k))
                cell(s, ret.r, ret.o + 8, 8, Ptr(("fn", "category"), 0))
            cell(s, ret.r, ret.o + 16, 1, 1 if ok else 0)
            out.append((s, None))
        return out
    ex.contract(r"^std::variant<std::error_code, unsigned long> uri::details::puny_decoded_size<", hds)

    def hde(ex, st, a, w, n):
        k, d = sv_at(ex, st, a[1])
        x, k = text_arg(ex, st, k, d, w)
        ex.oblige(st, w + ".decodes", PDOK(x, k))
        append(ex, st, a[2][0] if isinstance(a[2], list) else a[2], PD(x, k), w)
        return [(st, None)]
    ex.contract(r"^std::variant<.*uri::details::puny_decoded<.*back_insert_iterator<std::__cxx11::basic_string", hde)

    def copy(ex, st, a, w, n):
        x, k = host_view(ex, st, a[-2])
        readable_range(ex, st, Ptr(TEXT, Lin.of(x)), k, w)
        append(ex, st, a[-1], DEC(x, x + k), w)
        return [(st, Undef())]
    ex.contract(r"std::ranges::__copy_fn::operator\(\)<uri::pctdecode_view<std::basic_string_view<char, std::char_traits<char>>>, ", copy)
    ex.contract(r"^std::(_V2::)?(generic|system)_category\(\)$", lambda ex, st, a, w, n: [(st, Ptr(("fn", "category"), 0))])


def set_cell(st, r, o, size, v):
    st.wr(r).cells[o] = (size, v)


class Operation:
    """encode() or decode(): the contract of parts_strings at its two calls"""

    def __init__(self, ex, op, mod, orders):
        self.ex, self.op, self.mod, self.orders = ex, op, mod, orders
        self.X = XO[op]
        self.store = [None]
        contracts(ex, self.store)
        u = ex.uniq("")
        self.SEGX, self.CNT, self.BITS = z3.Function("measured" + u, I, I), z3.Function("with_data" + u, I, I), z3.Function("flags" + u, I, AB)
        for fn in mod.find(r"^void uri::details::parts_strings<"):
            ex._hc[fn] = self.strings

    # captured variables of the function object
    def captures(self, st, fn, a):
        f = self.mod.func(fn)
        if len(a) == 2 and isinstance(a[1], Ptr) and a[1].r in st.mem and "byval" in f.params[1][1]:
            return a[1]
        o = self.ex.alloc(st, 8 * len(a[1:]), "function")
        for i, x in enumerate(a[1:]):
            set_cell(st, o.r, 8 * i, 8, x)
        return o

    def vars(self, st, clo):
        """(total, flags, error): where the captured variables are"""
        out = {}
        for off, (sz, p) in sorted(st.mem[clo.r].cells.items()):
            if not isinstance(p, Ptr) or p.r not in st.mem or st.mem[p.r].kind != "cells" or p.r == self.store[0].r or not isinstance(p.o, int):
                continue
            c = st.mem[p.r].cells.get(p.o)
            if c is None:
                continue
            if z3.is_expr(c[1]) and c[1].sort() == AB:
                out.setdefault("bits", []).append((p.r, p.o))
            elif c[0] == 8 and (isinstance(c[1], int) or z3.is_expr(c[1]) and z3.is_int(c[1])):
                out.setdefault("total", []).append((p.r, p.o))
            elif c[0] == 4 and isinstance((st.mem[p.r].cells.get(p.o + 8) or (0, 0))[1], Ptr):
                out.setdefault("error", []).append((p.r, p.o))
        if any(len(v) != 1 for v in out.values()):
            raise Unsupported("captured variables")
        return {k: v[0] for k, v in out.items()}

    def val(self, st, k):
        return st.mem[k[0]].cells[k[1]][1]

    def strings(self, ex, st, a, w, n):
        clo = self.captures(st, n, a)
        opn = call_of(self.mod, self.mod.func(n))
        self.order = self.orders[n]
        var = self.vars(st, clo)
        convert = "total" not in var
        (self.check_convert if convert else self.check_measure)(st, clo, opn, var)
        p = Parts(ex, st, self.L, a[0])
        c = Comps(p)
        (self.convert if convert else self.measure)(st, a[0], p, c, var)
        return [(st, None)]

    # -- one call, from an arbitrary state: verified on the function object's code for every field
    def one_call(self, st, clo, opn, f, prep):
        ex = self.ex
        s = st.copy()
        s.pc, s.facts, s.readable = [], {}, []
        p, n = ex.text(s, FIELDS[f])
        idx = z3.IntVal(0)
        if f == PATH:
            idx = z3.Int(ex.uniq("index"))
            s.assume(idx >= 0, idx < 2**32 - 8)
        s.assume(*conv_facts(self.op, f, p.addr(), n))
        ctx = prep(s, p.addr(), n, idx)
        s.dirty = set()
        own = set(s.mem)
        depth, stack = ex.depth, list(ex.fnstack)
        rets = ex.run(self.mod.func(opn), s, [clo, n, p, idx if f == PATH else 0, f])
        ex.depth, ex.fnstack = depth, stack
        if not rets:
            raise Unsupported("no return from the function object")
        for s2, rv in rets:
            yield s2, View(zi(rv[0]), rv[1].addr()), p.addr(), n, f + idx, ctx, {d for d in s2.dirty if d[0] in own or d[0] == "ghost"}

    def check_measure(self, st, clo, opn, var):
        ex = self.ex
        err = var.get("error")
        for f in FIELDS:
            def prep(s, a, n, idx):
                r, b = z3.Int(ex.uniq("total")), z3.Const(ex.uniq("flags"), AB)
                s.assume(r >= 0, r < 2**61, z3.Implies(f + idx < 32, z3.Not(z3.Select(b, f + idx))))      # every component is measured once
                set_cell(s, *var["total"], 8, r)
                set_cell(s, *var["bits"], 8, b)
                e = z3.IntVal(0)
                if err:
                    e = z3.Int(ex.uniq("error"))
                    s.assume(e >= 0, e < 2**31)
                    set_cell(s, *err, 4, e)
                    set_cell(s, err[0], err[1] + 8, 8, Ptr(("fn", "category"), 0))
                return r, b, e
            for s, v, a, n, pos, (r, b, e), dirty in self.one_call(st, clo, opn, f, prep):
                x = size_of(self.op, f, a, n)
                t = f"{self.op}.measure.{FIELDS[f]}"
                go = e == 0
                self.hint(s, f, a, n)
                ex.oblige(s, t + ".returns-the-text", z3.And(v.n == n, v.a == a))
                ex.oblige(s, t + ".total", zi(self.val(s, var["total"])) == z3.If(go, r + x, r))
                ex.oblige(s, t + ".flag", self.val(s, var["bits"]) == z3.If(z3.And(go, pos < 32), z3.Store(b, pos, x != 0), b))
                ex.oblige(s, t + ".empty-text", z3.Implies(z3.And(n == 0, go), z3.And(x == 0, PDOK(a, n) if err and f == HOST else z3.BoolVal(True))))
                ok = {var["total"], var["bits"]}
                if err:
                    bad = z3.And(go, z3.Not(PDOK(a, n))) if f == HOST else z3.BoolVal(False)
                    ex.oblige(s, t + ".error", zi(self.val(s, err)) == z3.If(bad, PDERR(a, n), e))
                    ok |= {err, (err[0], err[1] + 8)}
                rest = {d for d in dirty if (d[0], d[1]) not in ok}
                ex.oblige(s, t + ".changes-nothing-else", z3.BoolVal(not rest))
        ex.hint = None

    def hint(self, st, f, a, n):
        pass

    def check_convert(self, st, clo, opn, var):
        ex = self.ex
        for f in FIELDS:
            def prep(s, a, n, idx):
                b, S0 = z3.Const(ex.uniq("flags"), AB), z3.Const(ex.uniq("written"), SeqI)
                x = size_of(self.op, f, a, n)
                cap, base = z3.Int(ex.uniq("capacity")), z3.Int(ex.uniq("base"))
                s.assume(seqlen(S0) < 2**60, seqlen(S0) + x <= cap, cap < 2**61, base > 0, base < 2**60, z3.Implies(f + idx < 32, z3.Select(b, f + idx) == (x != 0)))
                if self.op == "decode" and f == HOST:
                    s.assume(PDOK(a, n))
                set_cell(s, *var["bits"], 8, b)
                setstr(s, self.store[0], S0)
                s.ghost["cap"], s.ghost["base"] = cap, base
                return b, S0, cap, base
            for s, v, a, n, pos, (b, S0, cap, base), dirty in self.one_call(st, clo, opn, f, prep):
                need, out = conversion(self.op, f, a, n)
                t = f"{self.op}.convert.{FIELDS[f]}"
                self.hint(s, f, a, n)
                ex.oblige(s, t + ".store", strval(s, self.store[0]) == z3.If(need, z3.Concat(S0, out), S0))
                ex.oblige(s, t + ".view", z3.And(v.n == z3.If(need, seqlen(out), n), v.a == z3.If(need, base + seqlen(S0), a)))
                ex.oblige(s, t + ".store-not-moved", z3.And(s.ghost["base"] == base, s.ghost["cap"] == cap))
                rest = {d for d in dirty if (d[0], d[1]) != (self.store[0].r, self.store[0].o)}
                ex.oblige(s, t + ".changes-nothing-else", z3.BoolVal(not rest))
        ex.hint = None

    # -- all calls: the fold
    def seg_facts(self, c, j, b0):
        v, z = c.segs.at(j), z3.IntVal(0)
        x = z3.If(v.a != 0, self.X(z3.IntVal(PATH), v.n, v.a), 0)
        pos = PATH + self.CNT(j)
        B0 = self.BITS(j)
        return [self.SEGX(z) == 0, self.CNT(z) == 0, self.BITS(z) == b0, x >= 0,
                z3.Implies(j >= 0, z3.And(self.SEGX(j + 1) == self.SEGX(j) + x, self.CNT(j + 1) == self.CNT(j) + z3.If(v.a != 0, 1, 0),
                                          self.BITS(j + 1) == z3.If(z3.And(v.a != 0, pos < 32), z3.Store(B0, pos, x != 0), B0)))]

    def measure(self, st, p, parts, c, var):
        total, bits = zi(self.val(st, var["total"])), self.val(st, var["bits"])
        err = zi(self.val(st, var["error"])) if "error" in var else z3.IntVal(0)
        self.b0 = None
        for nm, f in self.order:
            go = err == 0
            if nm == "segments":
                self.b0 = bits
                n = c.segs.n
                q = z3.Int(self.ex.uniq("flag"))
                self.ex.oblige(st, f"{self.op}.measure.flags-clear", z3.Implies(z3.And(q >= PATH, q < 32), z3.Not(z3.Select(bits, q))))
                st.assume(*self.seg_facts(c, n, bits)[:3], self.SEGX(n) >= 0, *self.single_lemmas(n, bits))
                total, bits = z3.If(go, total + self.SEGX(n), total), z3.If(go, self.BITS(n), bits)
                continue
            pr, v = c.one[nm]
            x = self.X(z3.IntVal(f), v.n, v.a)
            st.assume(x >= 0)
            on = z3.And(go, pr)
            total = z3.If(on, total + x, total)
            self.ex.oblige(st, f"{self.op}.measure.{nm}.flag-clear", z3.Implies(on, z3.Not(z3.Select(bits, f))))
            bits = z3.If(on, z3.Store(bits, f, x != 0), bits)
            if f == HOST and "error" in var:
                st.assume(PDERR(v.a, v.n) > 0, PDERR(v.a, v.n) < 2**31)
                err = z3.If(z3.And(on, z3.Not(PDOK(v.a, v.n))), PDERR(v.a, v.n), err)
        st.assume(total >= 0, total < 2**61)     # the converted text fits in memory
        for k, size, x in (("total", 8, total), ("bits", 8, bits), ("error", 4, err)):
            if k in var:
                set_cell(st, *var[k], size, x)
        st.ghost["measured"] = c

    def convert(self, st, p, parts, c, var):
        ex, L = self.ex, self.L
        bits = self.val(st, var["bits"])
        cap, base = st.ghost["cap"], st.ghost["base"]
        size = seqlen(strval(st, self.store[0]))
        m = st.ghost.get("measured")
        if m is None:
            raise Unsupported("components are converted before they are measured")
        ex.oblige(st, f"{self.op}.convert.the-measured-segments", z3.And(m.segs.n == c.segs.n, m.segs.len == c.segs.len, m.segs.ptr == c.segs.ptr))
        self.at = {}
        for nm, f in self.order:
            if nm == "segments":
                j, n = z3.Int(ex.uniq("segment")), c.segs.n
                v = c.segs.at(j)
                x = self.X(z3.IntVal(PATH), v.n, v.a)
                s = st.copy()
                s.assume(j >= 0, j < n, v.a != 0, *self.seg_facts(c, j, self.b0))
                s.assume(*self.seg_lemmas(c, j))
                ex.oblige(s, f"{self.op}.convert.segment.pre.flag", z3.Implies(PATH + self.CNT(j) < 32, z3.Select(bits, PATH + self.CNT(j)) == (x != 0)))
                ex.oblige(s, f"{self.op}.convert.segment.pre.fits", size + self.SEGX(j) + x <= cap)
                # the watched segment
                k = ex.watch
                v = c.segs.at(k)
                x = self.X(z3.IntVal(PATH), v.n, v.a)
                need = z3.And(k >= 0, k < n, v.a != 0, x != 0)
                ln, pt = z3.Const(ex.uniq("sizes"), AI), z3.Const(ex.uniq("pointers"), AI)
                o = size + self.SEGX(k)
                st.assume(*self.seg_facts(c, k, self.b0))
                st.assume(z3.Implies(z3.And(k >= 0, k < n), z3.And(*self.seg_lemmas(c, k), z3.Select(ln, k) == z3.If(need, x, v.n), z3.Select(pt, k) == z3.If(need, base + o, v.a))))
                st.assume(z3.Implies(need, HOLDS(o, PATH, v.n, v.a)))
                self.at["segments"] = (need, o, x)
                b, _ = st.mem[p.r].cells[p.o + L.off_path + L.off_segments][1], 0
                if b.r != NULL:
                    reg = st.wr(b.r)
                    reg.fields[0], reg.fields[8] = (8, "i", ln), (8, "v", pt)
                size = size + self.SEGX(n)
                continue
            pr, v = c.one[nm]
            x = self.X(z3.IntVal(f), v.n, v.a)
            s = st.copy()
            s.assume(pr)
            ex.oblige(s, f"{self.op}.convert.{nm}.pre.flag", z3.Select(bits, f) == (x != 0))
            ex.oblige(s, f"{self.op}.convert.{nm}.pre.fits", size + x <= cap)
            if self.op == "decode" and f == HOST:
                ex.oblige(s, f"{self.op}.convert.{nm}.pre.decodes", PDOK(v.a, v.n))
            need = z3.And(pr, x != 0)
            off = {"scheme": L.off_scheme, "userinfo": L.off_authority + L.off_userinfo, "host": L.off_authority + L.off_host, "port": L.off_authority + L.off_port, "query": L.off_query, "fragment": L.off_fragment}[nm]
            st.assume(z3.Implies(need, HOLDS(size, f, v.n, v.a)))
            if (p.o + off) in st.mem[p.r].cells:
                set_cell(st, p.r, p.o + off, 8, z3.If(need, x, v.n))
                set_cell(st, p.r, p.o + off + 8, 8, Ptr(TEXT, Lin.of(z3.If(need, base + size, v.a))))
            self.at[nm] = (need, size, x)
            size = size + z3.If(pr, x, 0)
        S = z3.Const(ex.uniq("converted"), SeqI)
        st.assume(seqlen(S) == size)
        setstr(st, self.store[0], S)

    def single_lemmas(self, n, b0):
        """the flags of the other components are left alone (lemma.segments)"""
        return [z3.Select(self.BITS(n), f) == z3.Select(b0, f) for f in range(PATH)]

    def seg_lemmas(self, c, j):
        """of the segments before the end (lemma.segments)"""
        v, n = c.segs.at(j), c.segs.n
        x = self.X(z3.IntVal(PATH), v.n, v.a)
        pos = PATH + self.CNT(j)
        b = self.BITS(n)
        q = z3.IntVal
        return [self.SEGX(j) >= 0, self.SEGX(j + 1) <= self.SEGX(n), z3.Implies(z3.And(v.a != 0, pos < 32), z3.Select(b, pos) == (x != 0)), self.CNT(j) >= 0]

    def prove(self, L):
        ex, op, mod = self.ex, self.op, self.mod
        self.L = L
        ex.watch = z3.Int("segment_watched")
        f = one(mod, rf"^(uri::parts|std::variant<std::error_code, uri::parts>) uri::{op}<.*\(.*uri::parts const&\)$")

        def setup(st):
            self.store[0] = ex.alloc(st, 32, "store")
            setstr(st, self.store[0], z3.Const("before", SeqI))
            st.assume(seqlen(z3.Const("before", SeqI)) < 2**60)
            st.ghost["cap"], st.ghost["base"] = z3.Int("capacity0"), z3.Int("base0")
            st.assume(st.ghost["cap"] >= seqlen(z3.Const("before", SeqI)), st.ghost["cap"] < 2**61, st.ghost["base"] > 0, st.ghost["base"] < 2**60)
            ret = ex.alloc(st, ex.mod.size(f.params[0][1]["sret"]), "ret")
            p = ex.alloc(st, L.size_parts, "parts")
            put_parts0(ex, st, L, p.r, "in")
            old = Parts(ex, st, L, p)
            st.assume(old.path.segments.n < 2**32 - 8)
            return [ret, self.store[0], p], (ret, p, old)

        def post(ex, st, rv, ctx):
            ret, p, old = ctx
            t = self.op
            if op == "decode":
                idx = ex.concretize(st, zi(st.mem[ret.r].cells[L.size_parts][1]))
                c = Comps(old)
                pr, v = c.one["host"]
                bad = z3.And(pr, z3.Not(PDOK(v.a, v.n)))
                if idx == 0:
                    ex.oblige(st, t + ".fails-if-the-host-does-not-decode", z3.And(bad, zi(st.mem[ret.r].cells[0][1]) == PDERR(v.a, v.n)))
                    return
                ex.oblige(st, t + ".succeeds-if-the-host-decodes", z3.Not(bad))
            new = Parts(ex, st, L, Ptr(ret.r, 0))
            self.post_parts(st, new, old)
        verify(ex, f, setup, post, title=f"uri::{op}(store, parts)", name=op)

    def post_parts(self, st, new, old):
        ex, t = self.ex, self.op
        c, nc = Comps(old), new
        au, oau = new.authority, old.authority
        base, S = st.ghost["base"], strval(st, self.store[0])
        flags = [new.scheme.has == old.scheme.has, au.has == oau.has, new.path.absolute == old.path.absolute, new.query.has == old.query.has, new.fragment.has == old.fragment.has,
                 new.path.segments.n == old.path.segments.n]
        if au.v and oau.v:
            flags += [z3.Implies(oau.has, z3.And(au.v.userinfo.has == oau.v.userinfo.has, au.v.port.has == oau.v.port.has))]
        ex.oblige(st, t + ".keeps-which-components-there-are", z3.And(flags))
        total = z3.IntVal(0)
        raw = {"scheme": (old.scheme.has, new.scheme.v, old.scheme.v), "query": (old.query.has, new.query.v, old.query.v), "fragment": (old.fragment.has, new.fragment.v, old.fragment.v)}
        if au.v and oau.v:
            raw["host"] = (oau.has, au.v.host, oau.v.host)
            raw["userinfo"] = (z3.And(oau.has, oau.v.userinfo.has), au.v.userinfo.v, oau.v.userinfo.v)
            raw["port"] = (z3.And(oau.has, oau.v.port.has), au.v.port.v, oau.v.port.v)
        k = ex.watch
        raw["segments"] = (z3.And(k >= 0, k < c.segs.n), new.path.segments.at(k), c.segs.at(k))
        for nm, f in ORDER:
            if nm not in raw:
                continue
            has, v, o = raw[nm]
            x = self.X(z3.IntVal(f), o.n, o.a)
            off = v.a - base
            need = z3.And(has, o.a != 0, x != 0)
            ex.oblige(st, f"{t}.{nm}.kept-if-clean", z3.Implies(z3.And(has, z3.Not(need)), z3.And(v.n == o.n, v.a == o.a)))
            ex.oblige(st, f"{t}.{nm}.converted", z3.Implies(need, z3.And(v.n == x, HOLDS(off, f, o.n, o.a), off >= 0, off + x <= seqlen(S))))
        n = c.segs.n
        for nm, f in ORDER:
            if nm == "segments":
                total = total + self.SEGX(n)
            else:
                pr, v = c.one[nm]
                total = total + z3.If(pr, self.X(z3.IntVal(f), v.n, v.a), 0)
        ex.oblige(st, t + ".store.holds-nothing-else", seqlen(S) == total)


def segment_lemmas(ex):
    """totals and counts grow with the segments; the flag of a segment is set once and stays"""
    for op in ("encode", "decode"):
        o = Operation.__new__(Operation)
        o.ex, o.op, o.X = ex, op, XO[op]
        o.SEGX, o.CNT, o.BITS = z3.Function("measured", I, I), z3.Function("with_data", I, I), z3.Function("flags", I, AB)
        c = type("C", (), {"segs": Segs(z3.Int("n"), z3.Const("len0", AI), z3.Const("ptr0", AI))})
        b0 = z3.Const("b0", AB)
        m, j, q = z3.Ints("m j q")
        Q = lambda i: z3.And(o.CNT(i) >= 0, o.SEGX(i) >= 0, z3.Implies(z3.Or(q >= PATH + o.CNT(i), q < PATH), z3.Select(o.BITS(i), q) == z3.Select(b0, q)))
        st = State()
        st.assume(m >= 0, *o.seg_facts(c, m, b0))
        ex.oblige(st, f"lemma.segments.{op}.outside.base", Q(z3.IntVal(0)))
        ex.oblige(st, f"lemma.segments.{op}.outside.step", z3.Implies(Q(m), Q(m + 1)))
        v = c.segs.at(j)
        x = o.X(z3.IntVal(PATH), v.n, v.a)
        pos = PATH + o.CNT(j)
        P = lambda i: z3.And(o.SEGX(j + 1) <= o.SEGX(i), z3.Implies(v.a != 0, z3.And(o.CNT(i) >= o.CNT(j) + 1, z3.Implies(pos < 32, z3.Select(o.BITS(i), pos) == (x != 0)))))
        st = State()
        st.assume(j >= 0, *o.seg_facts(c, j, b0))
        st.assume(z3.Implies(z3.And(q >= PATH, q < 32), z3.Not(z3.Select(b0, q))), q == pos, Q(j))
        ex.oblige(st, f"lemma.segments.{op}.own.base", P(j + 1))
        st = State()
        st.assume(j >= 0, m > j, *o.seg_facts(c, j, b0), *o.seg_facts(c, m, b0))
        ex.oblige(st, f"lemma.segments.{op}.own.step", z3.Implies(z3.And(P(m), o.CNT(j) >= 0), P(m + 1)))


# ---- the sizes, and the conversions as they are called with these outputs ------------------------------------------------
from .c09 import SETS, Scan, needs_contract, dec2hex_contract, unfold as enc_unfold
from .c10 import contracts as hex_contracts, unfold as dec_unfold, DecScan


class Count(Scan):
    """a counting output: size + what is still to come is constant"""
    def roles(self, ex, st, view):
        isint = lambda v, s: s == 8 and not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v))
        for r in super().roles(ex, st, view):
            for k in view.modified(isint):
                if k != r.get("idx"):
                    yield {**r, "size": k}

    def inv(self, ex, st, view, roles):
        c, n = self.cur(view, roles), zi(view.cell(roles["size"]))
        E = lambda x: seqlen(ENC(x, self.last, self.es))
        return [("range", z3.And(self.first <= c, c <= self.last)), ("size", z3.And(n >= 0, n + E(c) == E(self.first)))]


def any_set(st, es):
    st.assume(z3.Or([es == v for v, _ in SETS.values()]))


def prove_sizes(rep, work, mod):
    lib = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/parts.cpp"), work))
    ex = Exec(lib, rep, prefix="C14.")
    string_contracts(ex)
    ex.contract(r"^uri::needs_pctencode\(unsigned char, uri::pctencode_set\)", needs_contract)
    ex.contract(r"^uri::dec2hex\(unsigned int\)", dec2hex_contract)
    ex.contract(r"^uri::needs_pctencode\(std::basic_string_view", lambda ex, st, a, w, n: [(st, ANY(a[1].addr(), a[1].addr() + zi(a[0]), zi(a[2])))])
    ex.contract(r"^bool uri::needs_pctdecode<char const\*>\(", lambda ex, st, a, w, n: [(st, HASP(a[0].addr(), a[1].addr()))])

    def decoded(ex, st, a, w, n):
        setstr(st, a[0], DEC(a[2].addr(), a[2].addr() + zi(a[1])))
    ex.contract(r"^uri::pctdecode(\[.*\])?\(std::basic_string_view", decoded)
    sp = Count(None, None, None, None, None)
    ex.loop(r"uri::pctencode<", None, sp)

    def setup(st):
        p, n = ex.text(st, "in")
        es = ex.D.fresh(st, "es", 8)
        any_set(st, es)
        a = p.addr()
        sp.first, sp.last, sp.es = a, a + n, es
        st.assume(seqlen(ENC(a, a + n, es)) < 2**62)
        ex.hint = None
        return [n, p, es], (a, n, es)
    verify(ex, one(lib, r"^uri::details::pct_encoded_size\("), setup,
           lambda ex, st, rv, c: ex.oblige(st, "pct_encoded_size.result", zi(rv) == z3.If(ANY(c[0], c[0] + c[1], c[2]), seqlen(ENC(c[0], c[0] + c[1], c[2])), 0)))

    def setup2(st):
        p, n = ex.text(st, "in")
        return [n, p], (p.addr(), n)
    verify(ex, one(lib, r"^uri::details::pct_decoded_size\("), setup2,
           lambda ex, st, rv, c: ex.oblige(st, "pct_decoded_size.result", zi(rv) == z3.If(HASP(c[0], c[0] + c[1]), seqlen(DEC(c[0], c[0] + c[1])), 0)))

    # pctencode into the store, and the copy of a decoding view into it
    for name, rx, spec, seq in (("pctencode", r"^std::back_insert_iterator<std::__cxx11::basic_string<.*>> uri::pctencode<char const\*, ", Scan(None, None, None, None, None), lambda a, n, es: ENC(a, a + n, es)),
                                ("copy", r"std::ranges::__copy_fn::operator\(\)<uri::pctdecode_view<std::basic_string_view<char, std::char_traits<char>>>, std::back_insert_iterator<std::__cxx11::basic_string", DecScan(None, None, None, None, None), lambda a, n, es: DEC(a, a + n))):
        e2 = Exec(mod, rep, prefix="C14.")
        store = [None]
        store_contracts(e2, store)
        hex_contracts(e2)
        e2.contract(r"^uri::needs_pctencode\(unsigned char, uri::pctencode_set\)", needs_contract)
        e2.contract(r"^uri::dec2hex\(unsigned int\)", dec2hex_contract)
        e2.loop(r"uri::pctencode<|std::ranges::__copy|std::__copy", None, spec)

        def setup3(st):
            ex = e2
            p, n = ex.text(st, "in")
            es = ex.D.fresh(st, "es", 8)
            any_set(st, es)
            a = p.addr()
            store[0] = ex.alloc(st, 32, "store")
            S0 = z3.Const("store0", SeqI)
            setstr(st, store[0], S0)
            st.ghost["cap"], st.ghost["base"] = z3.Int("capacity"), z3.Int("base")
            st.assume(seqlen(S0) + seqlen(seq(a, n, es)) <= st.ghost["cap"], st.ghost["cap"] < 2**61)
            spec.first, spec.last, spec.es, spec.out0 = a, a + n, es, S0
            spec.out = lambda s: strval(s, store[0])
            if name == "pctencode":
                args = [p, Ptr(TEXT, ladd(p.o, Lin.of(n))), store[0], es]
            else:
                v = ex.alloc(st, 16, "view")
                set_cell(st, v.r, 0, 8, n)
                set_cell(st, v.r, 8, 8, p)
                args = [ex.alloc(st, 1, "copy"), v, store[0]]
            return args, (S0, seq(a, n, es))

        def post3(ex, st, rv, c):
            ex.oblige(st, f"{name}.store", strval(st, store[0]) == z3.Concat(c[0], c[1]))
            ex.oblige(st, f"{name}.store-not-moved", z3.And(st.ghost["base"] == z3.Int("base"), st.ghost["cap"] == z3.Int("capacity")))
        verify(e2, one(mod, rx), setup3, post3, title=("uri::pctencode(first, last, back_inserter(store), set)" if name == "pctencode" else "std::ranges::copy(str | views::pctdecode, back_inserter(store))"), name=name)


def prove_transform(rep, mod):
    """the host's text is given to the UTF-8 decoder byte for byte"""
    for fn in mod.find(r"uri::encode<.*'lambda'\(T const&\)::operator\(\)<.*'lambda'\(char\)::operator\(\)\(char\) const$"):
        ex = Exec(mod, rep, prefix="C14.")

        def setup(st):
            c = ex.D.fresh(st, "c", 8)
            f = mod.func(fn)
            return [ex.alloc(st, 1, "function")] * (len(f.params) - 1) + [c], c
        verify(ex, mod.func(fn), setup, lambda ex, st, rv, c: ex.oblige(st, "convert_to_utf32.byte", zi(rv) == c), title="convert_to_utf32: transform", name="convert_to_utf32")


def prove_round_trip(rep):
    """decoding what encoding wrote gives the component back; texts as sequences, steps of inductions on the length"""
    from .c09 import NEEDS, encbyte, hexd
    from .c10 import hexv
    DS, E, AN = z3.Function("decs", SeqI, SeqI), z3.Function("encs", SeqI, I, SeqI), z3.Function("any_needs_s", SeqI, I, B)
    P = lambda q: z3.Contains(q, z3.Unit(z3.IntVal(37)))

    def dec(q):
        c0, c1, c2 = q[0], q[1], q[2]
        e = z3.And(z3.Length(q) >= 3, c0 == 37, hexv(c1) < 16, hexv(c2) < 16)
        return z3.Implies(z3.Length(q) > 0, DS(q) == z3.If(e, z3.Concat(z3.Unit(16 * hexv(c1) + hexv(c2)), DS(z3.SubSeq(q, 3, z3.Length(q) - 3))),
                                                         z3.Concat(z3.Unit(c0), DS(z3.SubSeq(q, 1, z3.Length(q) - 1)))))
    c, es = z3.Ints("c es")
    t = z3.Const("t", SeqI)
    ct = z3.Concat(z3.Unit(c), t)
    # scheme and port have the set none, which lacks "%": their texts are assumed to have none; every other set has it (C10)
    pre = [c >= 0, c < 256, z3.Implies(c == 37, NEEDS(c, es)), E(ct, es) == z3.Concat(encbyte(c, es), E(t, es)), AN(ct, es) == z3.Or(NEEDS(c, es), AN(t, es))]

    def lemma(name, hyp, goal, cases=(z3.BoolVal(True),)):
        t0, ok, det = time.time(), PROVED, ""
        for k in cases:
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*pre, *hyp, k)
            s.add(z3.Not(goal))
            r = s.check()
            if r != z3.unsat:
                ok, det = UNDECIDED, str(r)
        rep.add("C14.lemma." + name, "specification", ok, "z3", time.time() - t0, det)
    need = NEEDS(c, es)
    esc = z3.Concat(z3.Unit(z3.IntVal(37)), z3.Unit(hexd(c / 16)), z3.Unit(hexd(c % 16)), E(t, es))
    lemma("round-trip.escaped", [need, DS(E(t, es)) == t, dec(esc), E(ct, es) == esc], DS(E(ct, es)) == ct)
    plain = z3.Concat(z3.Unit(c), E(t, es))
    lemma("round-trip.plain", [z3.Not(need), DS(E(t, es)) == t, dec(plain), E(ct, es) == plain], DS(E(ct, es)) == ct)
    lemma("changed-text-has-a-percent-sign", [z3.Implies(AN(t, es), P(E(t, es)))], z3.Implies(AN(ct, es), P(E(ct, es))), (need, z3.Not(need)))
    lemma("clean-text-has-no-percent-sign", [z3.Implies(z3.Not(AN(t, es)), z3.Not(P(t)))], z3.Implies(z3.Not(AN(ct, es)), z3.Not(P(ct))))
    # one component: encode keeps a clean text, decode keeps a text without "%"
    w = z3.Const("component", SeqI)
    enc = z3.If(AN(w, es), E(w, es), w)
    dcd = z3.If(P(enc), DS(enc), enc)
    lemma("component.round-trip", [DS(E(w, es)) == w, z3.Implies(AN(w, es), P(E(w, es))), z3.Implies(z3.Not(AN(w, es)), z3.Not(P(w)))], dcd == w)


def prove(rep, work):
    L = Layout(work)
    mod = ir.Module(ir.emit(os.path.join(VERIF, "tu/parts.cpp"), work))
    ex = Exec(mod, rep, prefix="C14.")
    ex.fnstack = ["specification"]
    fold_lemmas(ex)
    segment_lemmas(ex)
    ex.flush()
    prove_transform(rep, mod)
    prove_sizes(rep, work, mod)
    prove_round_trip(rep)
    orders = {fn: order_of(mod, L, fn) for fn in mod.find(r"^void uri::details::parts_strings<")}
    for op in ("encode", "decode"):
        ex = Exec(mod, rep, prefix="C14.")
        Operation(ex, op, mod, orders).prove(L)
    for i, fn in enumerate(sorted(orders)):
        d = mod.dem(fn)
        prove_fold(rep, mod, L, fn, ("encode" if "uri::encode<" in d else "decode") + (".convert" if "'lambda0'" in d else ".measure"), orders[fn])
