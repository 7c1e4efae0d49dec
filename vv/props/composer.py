"""Contracts of compose() and the stream operators (used by C03, C05, C08): what text they write for which parts."""
from .urigram import *
from ..model import *

ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())
# PFX(abs, len, ptr, i): the text of the first i segments of a path, each preceded by its separator
PFX = z3.Function("path_prefix", z3.BoolSort(), ARR, ARR, z3.IntSort(), SeqI)
OS = "std::basic_ostream<char, std::char_traits<char>>"
E0 = z3.Empty(SeqI)
STRCV = r"^uri::parts::path::operator std::(__cxx11::basic_)?string"


def lit(s):
    us = [z3.Unit(z3.IntVal(b)) for b in s.encode()]
    return E0 if not us else us[0] if len(us) == 1 else z3.Concat(us)


def sep(ab, i):
    """text before segment i"""
    return z3.If(z3.Or(i > 0, ab), lit("/"), E0)


def pfx_facts(ex, st, ab, segs, i):
    """definition of PFX at 0 and at i+1"""
    p = lambda k: PFX(ab, segs.len, segs.ptr, k)
    seg = segs.at(i)
    return [p(z3.IntVal(0)) == E0, z3.Implies(i >= 0, p(i + 1) == z3.Concat(p(i), sep(ab, i), Tf(seg.a, seg.n)))] + empties([seg])


def empties(vs):
    """text of length 0 is the empty sequence; the text of a view is as long as the view"""
    return [z3.And(z3.Length(Tf(v.a, v.n)) == v.n) for v in vs]


def decide(ex, st, phi):
    phi = z3.simplify(phi)
    if z3.is_true(phi):
        return True
    if z3.is_false(phi):
        return False
    if ex.entails(st, phi):
        return True
    if ex.entails(st, z3.Not(phi)):
        return False
    return None


def choose(ex, st, phi, a, b):
    d = decide(ex, st, phi)
    return (a() if d else b()) if d is not None else z3.If(phi, a(), b())


def T(ex, st, v):
    """the text of a view"""
    if decide(ex, st, v.n == 0):
        return E0
    return ex.content(st, v.a, v.n)


def path_text(ex, st, ab, segs):
    st.assume(PFX(ab, segs.len, segs.ptr, z3.IntVal(0)) == E0)
    return PFX(ab, segs.len, segs.ptr, segs.n)


def auth_text(ex, st, a):
    return seqcat(choose(ex, st, a.userinfo.has, lambda: seqcat(T(ex, st, a.userinfo.v), lit("@")), lambda: E0), T(ex, st, a.host),
                  choose(ex, st, a.port.has, lambda: seqcat(lit(":"), T(ex, st, a.port.v)), lambda: E0))


def parts_pieces(ex, st, p):
    s = p.path.segments
    opt = lambda o, f: choose(ex, st, o.has, f, lambda: E0)
    return [opt(p.scheme, lambda: seqcat(T(ex, st, p.scheme.v), lit(":"))),
            opt(p.authority, lambda: seqcat(lit("//"), auth_text(ex, st, p.authority.v))),
            opt(p.authority, lambda: choose(ex, st, z3.And(s.n > 0, z3.Not(p.path.absolute)), lambda: lit("/"), lambda: E0)),
            path_text(ex, st, p.path.absolute, s),
            opt(p.query, lambda: seqcat(lit("?"), T(ex, st, p.query.v))),
            opt(p.fragment, lambda: seqcat(lit("#"), T(ex, st, p.fragment.v)))]


def parts_text(ex, st, p):
    return seqcat(*parts_pieces(ex, st, p))


# ---- streams ---------------------------------------------------------------------
def osv(st, p):
    v = st.ghost.get(f"os.{p.r}")
    if v is None:
        raise Unsupported("unknown stream")
    return v


def emit(st, p, t):
    st.g(f"os.{p.r}", seqcat(osv(st, p), t))
    return [(st, p)]


def stream_contracts(ex):
    O = r"std::basic_ostream<char, std::char_traits<char>>& std::operator<< ?<"
    S = r"std::basic_ostream<char, std::char_traits<char>>&, "

    def cstr(ex, st, a, w, n):
        out = []
        for s2, k in strlen_h(ex, st, [a[1]], w, n):
            out += emit(s2, a[0], ex.content(s2, a[1], k))
        return out

    def view(ex, st, a, w, n):
        readable_range(ex, st, a[2], zi(a[1]), w)
        return emit(st, a[0], T(ex, st, View(zi(a[1]), a[2].addr())))

    def write(ex, st, a, w, n):
        readable_range(ex, st, a[1], zi(a[2]), w)
        return emit(st, a[0], T(ex, st, View(zi(a[2]), a[1].addr())))
    ex.contract(O + r"[^(]*>\(" + S + r"char const\*\)$", cstr)
    ex.contract(O + r"[^(]*>\(" + S + r"char\)$", lambda ex, st, a, w, n: emit(st, a[0], z3.Unit(zi(a[1]))))
    ex.contract(O + r"[^(]*>\(" + S + r"std::basic_string_view<", view)
    ex.contract(O + r"[^(]*>\(" + S + r"std::__cxx11::basic_string<char", lambda ex, st, a, w, n: emit(st, a[0], strval(st, a[1])))
    ex.contract(r"^std::ostream::put\(char\)$|^std::basic_ostream<char, std::char_traits<char>>::put\(char\)$", lambda ex, st, a, w, n: emit(st, a[0], z3.Unit(zi(a[1]))))
    ex.contract(r"^(std::ostream|std::basic_ostream<char, std::char_traits<char>>)::write\(char const\*, long\)$", write)
    SS = r"^std::__cxx11::basic_(o)?stringstream<char, std::char_traits<char>, std::allocator<char>>::"
    ex.contract(SS + r"basic_(o)?stringstream\(\)$", lambda ex, st, a, w, n: st.g(f"os.{a[0].r}", E0))
    ex.contract(SS + r"~basic_(o)?stringstream\(\)$", lambda ex, st, a, w, n: None)
    ex.contract(SS + r"str\(\)( const)?( &| const&|&&)?$", lambda ex, st, a, w, n: setstr(st, a[0], osv(st, a[1])))


def path_contract(L):
    def h(ex, st, a, w, n):
        p = Path(ex, st, L, a[1])
        setstr(st, a[0], path_text(ex, st, p.absolute, p.segments))
    return h


class PathLoop(LoopSpec):
    """out == PFX(i) while walking over the segments. Roles: the walking pointer or index, the separator, the output."""
    ab = segs = base = None

    def roles(self, ex, st, view):
        seg = lambda v, s: isinstance(v, Ptr) and isinstance(v.r, str) and v.r in st.mem and st.mem[v.r].kind == "array"
        isint = lambda v, s: s == 8 and not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v))
        istext = lambda v, s: isinstance(v, Ptr) and v.r in (TEXT, NULL)
        isbool = lambda v, s: s == 1 and not isinstance(v, (Ptr, Undef, Bundle, PtrInt))
        seps = view.modified(istext)
        flags = view.modified(isbool)
        for kind, k in [("cur", k) for k in view.modified(seg)] + [("idx", k) for k in view.modified(isint)]:
            for sp in [None] + seps:
                for fl in [None] + [(f, b) for f in flags for b in ("first", "later", "separator", "no separator")]:
                    if (sp is None and seps) or (fl is None and flags and sp is None):
                        continue
                    yield {kind: k, "sep": sp, "flag": fl}

    def i(self, view, roles):
        if "cur" in roles:
            d = Lin.of(view.cell(roles["cur"]).o)
            if d.c % 16 or any(k % 16 for k, _ in d.t):
                raise Unsupported("segment pointer")
            return Lin(d.c // 16, [(k // 16, x) for k, x in d.t]).z()
        return zi(view.cell(roles["idx"]))

    def out(self, st):
        raise NotImplementedError

    def inv(self, ex, st, view, roles):
        i = self.i(view, roles)
        r = [("range", z3.And(i >= 0, i <= self.segs.n)), ("output", self.out(st) == z3.Concat(self.out0, PFX(self.ab, self.segs.len, self.segs.ptr, i)))]
        if roles.get("sep"):
            s = view.cell(roles["sep"]).addr()
            sl, em = ex.literal(st, b"/\0").addr(), ex.literal(st, b"\0").addr()
            r.append(("separator", s == z3.If(z3.Or(i > 0, self.ab), sl, em)))
        if roles.get("flag"):
            k, b = roles["flag"]
            sep = z3.Or(i > 0, self.ab)
            r.append(("flag", (zi(view.cell(k)) != 0) == {"first": i == 0, "later": i > 0, "separator": sep, "no separator": z3.Not(sep)}[b]))
        return r

    def facts(self, ex, st, view, roles):
        return pfx_facts(ex, st, self.ab, self.segs, self.i(view, roles))

    def variant(self, ex, st, view, roles):
        return self.segs.n - self.i(view, roles)


class StrPathLoop(PathLoop):
    def __init__(self):
        self.ret = None

    def out(self, st):
        return strval(st, self.ret)


class OsPathLoop(PathLoop):
    def out(self, st):
        return osv(st, self.os)


def path_to_string(ex, mod, L):
    sp = StrPathLoop()
    ex.loop(r"^uri::parts::path::operator std::", None, sp)

    def s_path(st):
        p = ex.alloc(st, L.size_path, "path")
        put_path(ex, st, L, p.r, 0, "path")
        ret = ex.alloc(st, 32, "ret")
        b = Path(ex, st, L, p)
        sp.ab, sp.segs, sp.ret, sp.out0 = b.absolute, b.segments, ret, E0
        ex.literal(st, b"/\0"), ex.literal(st, b"\0")
        return [ret, p], (ret, b)
    return verify(ex, one(mod, STRCV), s_path, lambda ex, st, rv, c: ex.oblige(st, "path-to-string.text", strval(st, c[0]) == path_text(ex, st, c[1].absolute, c[1].segments)),
                  title="uri::parts::path::operator std::string() const", name="path-to-string") is not None


def compose_contracts(rep, mod, L, prefix):
    """verifies path -> string, the three stream operators and both compose(); returns False if one is undecided"""
    def mk(upto):
        ex = Exec(mod, rep, prefix=prefix)
        string_contracts(ex)
        stream_contracts(ex)
        vector_contracts(ex)
        if upto > 0:
            ex.contract(STRCV, path_contract(L))
        if upto > 1:
            ex.contract(r"^uri::operator<<\(.*, uri::parts::path const&\)$", lambda ex, st, a, w, n: emit(st, a[0], (lambda p: path_text(ex, st, p.absolute, p.segments))(Path(ex, st, L, a[1]))))
            ex.contract(r"^uri::operator<<\(.*, uri::parts::authority const&\)$", lambda ex, st, a, w, n: emit(st, a[0], auth_text(ex, st, Auth(st, L, a[1]))))
        if upto > 2:
            ex.contract(r"^uri::compose\([^()]*ostream[^()]*, uri::parts const&\)$|^uri::operator<<\(.*, uri::parts const&\)$", lambda ex, st, a, w, n: emit(st, a[0], parts_text(ex, st, Parts(ex, st, L, a[1]))))
        return ex
    ok = True

    def stream(ex, st):
        o = ex.alloc(st, 8, "stream")
        st.ghost[f"os.{o.r}"] = z3.Const("written_before", SeqI)
        return o

    ok &= path_to_string(mk(0), mod, L)

    def case(rx, build, spec, name, level, ret_string=False, loop=None):
        nonlocal ok
        ex = mk(level)
        f = one(mod, rx)
        if loop:
            ex.loop(loop[0], None, loop[1])

        def setup(st):
            o = stream(ex, st) if not ret_string else ex.alloc(st, 32, "ret")
            obj, b = build(ex, st)
            if loop:
                loop[1].ab, loop[1].segs, loop[1].os, loop[1].out0 = b.absolute, b.segments, o, osv(st, o)
                ex.literal(st, b"/\0"), ex.literal(st, b"\0")
            return [o, obj], (o, b)

        def post(ex, st, rv, c):
            t = spec(ex, st, c[1])
            if ret_string:
                ex.oblige(st, name + ".text", strval(st, c[0]) == t)
            else:
                ex.oblige(st, name + ".text", osv(st, c[0]) == seqcat(z3.Const("written_before", SeqI), t))
                ex.oblige(st, name + ".returns-the-stream", z3.BoolVal(isinstance(rv, Ptr) and rv.r == c[0].r))
        ok &= verify(ex, f, setup, post, title=f.demangled[:160], name=name) is not None

    def b_path(ex, st):
        p = ex.alloc(st, L.size_path, "path")
        put_path(ex, st, L, p.r, 0, "path")
        return p, Path(ex, st, L, p)

    def b_auth(ex, st):
        p = ex.alloc(st, L.size_authority, "authority")
        put_authority(ex, st, L, p.r, 0, "authority")
        return p, Auth(st, L, p)

    def b_parts(ex, st):
        p = new_parts(ex, st, L, "parts")
        return p, Parts(ex, st, L, p)
    osp = OsPathLoop()
    case(r"^uri::operator<<\(.*, uri::parts::path const&\)$", b_path, lambda ex, st, b: path_text(ex, st, b.absolute, b.segments), "operator<<(path)", 1, loop=(r"^uri::operator<<\(.*path const&\)", osp))
    case(r"^uri::operator<<\(.*, uri::parts::authority const&\)$", b_auth, auth_text, "operator<<(authority)", 1)
    case(r"^uri::compose\([^()]*ostream[^()]*, uri::parts const&\)$", b_parts, parts_text, "compose(ostream)", 2)
    case(r"^uri::operator<<\(.*, uri::parts const&\)$", b_parts, parts_text, "operator<<(parts)", 3)
    case(r"^uri::compose[^(]*\(uri::parts const&\)$", b_parts, parts_text, "compose", 3, ret_string=True)
    return ok
