"""uri::parts in the memory model: symbolic values, read-back, comparison; contracts of std::vector<std::string_view>."""
import os, re, z3
from .common import *
from .sym import *
from .lib import *
from . import ir

SV = "std::basic_string_view<char, std::char_traits<char>>"
VEC = f"std::vector<{SV}, std::allocator<{SV}>>"
PTR = ("ptr",)


class Layout:
    def __init__(self, work):
        m = ir.Module(ir.emit(os.path.join(VERIF, "tu/layout.cpp"), work))
        self.v = {}
        for g in m.globals:
            d = m.dem(g)
            if d.startswith("verif::"):
                ty, init, const = m.ginit(g)
                self.v[d[7:]] = init[1] if init[0] == "c" else 0
        self.module = m

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self.v[k]


def cell(st, r, off, size, v):
    st.wr(r).cells[off] = (size, v)


# ---- symbolic values -------------------------------------------------------------
def put_view(ex, st, r, off, name):
    p, n = ex.text(st, name)
    cell(st, r, off, 8, n)
    cell(st, r, off + 8, 8, p)
    return n, p


def put_opt(ex, st, r, off, name):
    f = z3.Bool(ex.uniq(name))
    put_view(ex, st, r, off, name)
    cell(st, r, off + 16, 1, f)
    return f


def segptr(st, v):
    """pointer field of a segment: whole views are copied, so the text it points to is readable for its length"""
    i = v.arg(1) if z3.is_select(v) else None
    return Ptr(TEXT, Lin.of(v))


class ViewArray(Array):
    """array of string_view; every element is a view of readable text"""
    def copy(self):
        return ViewArray(self.elem, self.fields, self.n, self.name)


def view_array(ex, st, n, name="segments", fields=None):
    rid = f"a{next(ex.n)}"
    fs = fields or {0: (8, "i", z3.Array(ex.uniq(name + "_len"), z3.IntSort(), z3.IntSort())),
                    8: (8, "v", z3.Array(ex.uniq(name + "_ptr"), z3.IntSort(), z3.IntSort()))}
    st.mem[rid] = ViewArray(16, fs, n, name)
    st.own.add(rid)
    return Ptr(rid, 0)


def put_vector(ex, st, r, off, name, n=None, fields=None):
    if n is None:
        n = z3.Int(ex.uniq(name + "_count"))
        st.assume(n >= 0, n < 2**55)
    a = view_array(ex, st, n, name, fields)
    end = Ptr(a.r, ex.lin(zi(n) * 16) if not isinstance(n, int) else 16 * n)
    cell(st, r, off, 8, a)
    cell(st, r, off + 8, 8, end)
    cell(st, r, off + 16, 8, end)
    return a


def put_path(ex, st, L, r, off, name):
    cell(st, r, off + L.off_absolute, 1, z3.Bool(ex.uniq(name + "_abs")))
    put_vector(ex, st, r, off + L.off_segments, name + "_seg")


def put_authority(ex, st, L, r, off, name):
    put_opt(ex, st, r, off + L.off_userinfo, name + "_userinfo")
    put_view(ex, st, r, off + L.off_host, name + "_host")
    put_opt(ex, st, r, off + L.off_port, name + "_port")


def put_parts(ex, st, L, r, off, name):
    put_opt(ex, st, r, off + L.off_scheme, name + "_scheme")
    put_authority(ex, st, L, r, off + L.off_authority, name)
    cell(st, r, off + L.off_authority + L.size_authority, 1, z3.Bool(ex.uniq(name + "_auth")))
    put_path(ex, st, L, r, off + L.off_path, name + "_path")
    put_opt(ex, st, r, off + L.off_query, name + "_query")
    put_opt(ex, st, r, off + L.off_fragment, name + "_fragment")


def new_parts(ex, st, L, name):
    p = ex.alloc(st, L.size_parts, name)
    put_parts(ex, st, L, p.r, 0, name)
    return p


# ---- reading back ------------------------------------------------------------------
def boolv(v):
    if isinstance(v, (bool, int)):
        return z3.BoolVal(bool(v))
    if z3.is_bool(v):
        return v
    if z3.is_expr(v):
        return v != 0
    raise Unsupported("undefined flag")


class View:
    """len and address of a string_view value"""
    def __init__(self, n, a):
        self.n, self.a = n, a

    def same(self, o):
        return z3.And(self.n == o.n, z3.Or(self.n == 0, self.a == o.a))


class Opt:
    def __init__(self, has, v):
        self.has, self.v = has, v

    def same(self, o):
        if z3.is_false(z3.simplify(self.has)) or z3.is_false(z3.simplify(o.has)):
            return self.has == o.has
        return z3.And(self.has == o.has, z3.Implies(self.has, self.v.same(o.v)))


NOVIEW = View(z3.IntVal(0), z3.IntVal(0))


def get_view(st, p):
    c = st.mem[p.r].cells
    n, a = c.get(p.o), c.get(p.o + 8)
    if n is None or a is None or isinstance(n[1], (Undef, Bundle)) or not isinstance(a[1], Ptr) or a[1].r not in (TEXT, NULL):
        raise Unsupported("undefined view")
    return View(zi(n[1]), a[1].addr())


def flag(st, p):
    c = st.mem[p.r].cells.get(p.o)
    if c is None:
        raise Unsupported("undefined flag")
    return boolv(c[1])


def get_opt(st, p):
    h = flag(st, Ptr(p.r, p.o + 16))
    if z3.is_false(z3.simplify(h)):
        return Opt(h, NOVIEW)
    return Opt(h, get_view(st, p))


class Segs:
    """count and element arrays of a vector of views"""
    def __init__(self, n, ln, pt):
        self.n, self.len, self.ptr = n, ln, pt

    def at(self, i):
        return View(z3.Select(self.len, i), z3.Select(self.ptr, i))

    def same(self, o, tag="i"):
        i = z3.Int(tag)
        return z3.And(self.n == o.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), self.at(i).same(o.at(i)))))


ZERO = z3.K(z3.IntSort(), z3.IntVal(0))


def get_vector(ex, st, p):
    c = st.mem[p.r].cells
    b, e = c.get(p.o), c.get(p.o + 8)
    if b is None or e is None or not isinstance(b[1], Ptr) or not isinstance(e[1], Ptr) or b[1].r != e[1].r:
        raise Unsupported("vector in an unknown state")
    b, e = b[1], e[1]
    if b.r == NULL:
        return Segs(z3.IntVal(0), ZERO, ZERO)
    reg = st.mem[b.r]
    if b.o != 0 or reg.kind != "array":
        raise Unsupported("vector storage")
    d = Lin.of(e.o)
    if d.c % 16 or any(k % 16 for k, _ in d.t):
        raise Unsupported("vector length")
    n = Lin(d.c // 16, [(k // 16, x) for k, x in d.t])
    return Segs(n.z(), reg.fields[0][2], reg.fields[8][2])


class Auth:
    def __init__(self, st, L, p):
        self.userinfo = get_opt(st, Ptr(p.r, p.o + L.off_userinfo))
        self.host = get_view(st, Ptr(p.r, p.o + L.off_host))
        self.port = get_opt(st, Ptr(p.r, p.o + L.off_port))

    def same(self, o):
        return z3.And(self.userinfo.same(o.userinfo), self.host.same(o.host), self.port.same(o.port))


class Path:
    def __init__(self, ex, st, L, p):
        self.absolute = flag(st, Ptr(p.r, p.o + L.off_absolute))
        self.segments = get_vector(ex, st, Ptr(p.r, p.o + L.off_segments))

    def same(self, o):
        return z3.And(self.absolute == o.absolute, self.segments.same(o.segments))


class Parts:
    def __init__(self, ex, st, L, p):
        at = lambda o: Ptr(p.r, p.o + o)
        self.scheme = get_opt(st, at(L.off_scheme))
        h = flag(st, at(L.off_authority + L.size_authority))
        self.authority = Opt(h, None if z3.is_false(z3.simplify(h)) else Auth(st, L, at(L.off_authority)))
        self.path = Path(ex, st, L, at(L.off_path))
        self.query = get_opt(st, at(L.off_query))
        self.fragment = get_opt(st, at(L.off_fragment))

    def same_fields(self, o):
        return [("scheme", self.scheme.same(o.scheme)), ("authority", self.authority.same(o.authority)), ("path.absolute", self.path.absolute == o.path.absolute),
                ("path.segments", self.path.segments.same(o.path.segments)), ("query", self.query.same(o.query)), ("fragment", self.fragment.same(o.fragment))]


# ---- contracts of std::vector<std::string_view> --------------------------------------
def vector_contracts(ex):
    V = "^" + re.escape(VEC) + "::"

    def cells(st, p):
        c = st.mem[p.r].cells
        r = [c.get(p.o + 8 * i) for i in range(3)]
        if any(x is None or not isinstance(x[1], Ptr) for x in r[:2]):
            raise Unsupported("vector in an unknown state")
        return r[0][1], r[1][1]

    def setv(st, p, b, e):
        reg = st.wr(p.r)
        for o, v in ((0, b), (8, e), (16, e)):
            c = reg.cells.get(p.o + o)
            if c is None or not isinstance(c[1], Ptr) or (c[1].r, repr(c[1].o)) != (v.r, repr(v.o)):
                ex.put(st, p.r, reg, p.o + o, 8, v)

    def clone(ex, st, src):
        b, e = cells(st, src)
        if b.r == NULL:
            return NULLP, NULLP
        s = get_vector(ex, st, src)
        a = view_array(ex, st, s.n, "copy", {0: (8, "i", s.len), 8: (8, "v", s.ptr)})
        return a, Ptr(a.r, e.o)

    def copy(ex, st, a, w, n):
        if a[0].r == a[1].r and a[0].o == a[1].o:
            return [(st, a[0])]
        setv(st, a[0], *clone(ex, st, a[1]))
        return [(st, a[0])]

    def move(ex, st, a, w, n):
        b, e = cells(st, a[1])
        setv(st, a[0], b, e)
        setv(st, a[1], NULLP, NULLP)
        return [(st, a[0])]
    ex.contract(V + r"(vector|operator=)\(" + re.escape(VEC) + r" const&\)$", copy)
    ex.contract(V + r"(vector|operator=)\(" + re.escape(VEC) + r"&&\)$", move)
    def empty(ex, st, a, w, n):
        b = view_array(ex, st, 0, "vector", {0: (8, "i", ZERO), 8: (8, "v", ZERO)})
        setv(st, a[0], b, b)
    ex.contract(V + r"vector\(\)$", empty)
    ex.contract(V + r"~vector\(\)$", lambda ex, st, a, w, n: None)
    ex.contract(V + r"reserve\(unsigned long\)$", lambda ex, st, a, w, n: None)

    def grow(ex, st, v, ln, ad):
        b, e = cells(st, v)
        if b.r == NULL:
            f = {0: (8, "i", z3.Store(ZERO, 0, ln)), 8: (8, "v", z3.Store(ZERO, 0, ad))}
            a = view_array(ex, st, 1, "vector", f)
            setv(st, v, a, Ptr(a.r, 16))
            return Ptr(a.r, 0)
        s = get_vector(ex, st, v)
        reg = st.wr(b.r)
        reg.fields[0] = (8, "i", z3.Store(s.len, s.n, ln))
        reg.fields[8] = (8, "v", z3.Store(s.ptr, s.n, ad))
        reg.n = z3.simplify(s.n + 1)
        st.dirty.add((b.r, "arr", 0))
        st.dirty.add((b.r, "arr", 8))
        setv(st, v, b, Ptr(b.r, ladd(e.o, 16)))
        return Ptr(b.r, e.o)

    def push(ex, st, a, w, n):
        if len(a) == 1:
            ln, ad = z3.IntVal(0), z3.IntVal(0)
        elif "char const (&)" in ex.mod.dem(n) or "(char const*&" in ex.mod.dem(n):
            q = a[1] if "char const (&)" in ex.mod.dem(n) else ex.load(st, a[1], PTR, w)
            (_, ln), = strlen_h(ex, st, [q], w, n)
            ln, ad = zi(ln), q.addr()
        elif len(a) == 3:
            ln, ad = zi(a[1]), a[2].addr()
        else:
            x, y = sv_at(ex, st, a[1], w)
            if not isinstance(y, Ptr) or y.r not in (TEXT, NULL):
                raise Unsupported("view of unknown text pushed")
            ln, ad = zi(x), y.addr()
        p = grow(ex, st, a[0], ln, ad)
        return [(st, p)]
    ex.contract(V + r"push_back\(", push)
    ex.contract(r"^(" + re.escape(SV) + r"& )?" + V[1:] + r"emplace_back<(" + re.escape(SV) + r" ?(const)?&?|char const \(&\) ?\[\d+\]|char const\*&?)?>\(", push)

    def erase(ex, st, a, w, n):
        f, l = a[1], a[2] if len(a) > 2 else None
        if l is None:
            g = f[0] if isinstance(f, list) else f
            l = Ptr(g.r, ladd(g.o, 16))
        f, l = [x[0] if isinstance(x, list) else x for x in (f, l)]
        b, e = cells(st, a[0])
        if not isinstance(f, Ptr) or f.r != b.r or l.r != b.r:
            raise Unsupported("erase with iterators of another object")
        if b.r == NULL:
            return [(st, NULLP)]
        ex.oblige(st, w + ".erase.range", z3.And(zi(f.o) >= 0, zi(f.o) <= zi(l.o), zi(l.o) <= zi(e.o)))
        if not ex.entails(st, zi(l.o) == zi(e.o)):
            raise Unsupported("erase in the middle of a vector")
        setv(st, a[0], b, f)
        s = get_vector(ex, st, a[0])
        st.wr(b.r).n = s.n
        return [(st, f)]
    ex.contract(V + r"erase\(__gnu_cxx::__normal_iterator<[^,]*, " , erase)
    ex.contract(V + r"erase\(", erase)

    def index(b, p):
        p = p[0] if isinstance(p, list) else p
        if not isinstance(p, Ptr):
            raise Unsupported("iterator")
        if p.r == NULL:
            return z3.IntVal(0)
        d = Lin.of(p.o)
        if d.c % 16 or any(c % 16 for c, _ in d.t):
            raise Unsupported("segment pointer")
        return Lin(d.c // 16, [(c // 16, x) for c, x in d.t]).z()

    def splice(ex, st, v, pos, first, last, w, keep=True):
        """[first, last) goes in at pos; the new contents are known at the index ex.watch"""
        if getattr(ex, "watch", None) is None:
            raise Unsupported("range inserted into a vector")
        f, l = [x[0] if isinstance(x, list) else x for x in (first, last)]
        b, e = cells(st, v)
        z = lambda: (z3.IntVal(0), ZERO, ZERO)
        n, ln, pt = z() if b.r == NULL or not keep else (lambda s: (s.n, s.len, s.ptr))(get_vector(ex, st, v))
        if f.r != l.r or f.r == b.r != NULL:
            raise Unsupported("range of another or the same vector")
        sln, spt = (ZERO, ZERO) if f.r == NULL else [st.mem[f.r].fields[k][2] for k in (0, 8)]
        i, j, p = index(None, f), index(None, l), index(None, pos) if keep else z3.IntVal(0)
        ex.oblige(st, w + ".range", z3.And(i >= 0, i <= j, j <= (zi(st.mem[f.r].n) if f.r != NULL else 0), p >= 0, p <= n))
        k = j - i
        new = [z3.Const(ex.uniq("spliced"), z3.ArraySort(z3.IntSort(), z3.IntSort())) for _ in range(2)]
        x = ex.watch
        for a, old, src in zip(new, (ln, pt), (sln, spt)):
            st.assume(z3.Select(a, x) == z3.If(x < p, z3.Select(old, x), z3.If(x < p + k, z3.Select(src, i + x - p), z3.Select(old, x - k))) if ex.entails(st, p == n) else
                      z3.Implies(x < p + k, z3.Select(a, x) == z3.If(x < p, z3.Select(old, x), z3.Select(src, i + x - p))))
        put_vector(ex, st, v.r, v.o, "spliced", n=z3.simplify(n + k), fields={0: (8, "i", new[0]), 8: (8, "v", new[1])})
        for c in (0, 8, 16):
            st.dirty.add((v.r, v.o + c, 8))
    ex.contract(r"^void " + V[1:] + r"_M_range_insert<", lambda ex, st, a, w, n: splice(ex, st, a[0], a[1], a[2], a[3], w + ".insert"))
    ex.contract(r"^void " + V[1:] + r"_M_assign_aux<", lambda ex, st, a, w, n: splice(ex, st, a[0], None, a[1], a[2], w + ".assign", False))
    ex.contract(r"^void " + V[1:] + r"_M_range_initialize<", lambda ex, st, a, w, n: splice(ex, st, a[0], None, a[1], a[2], w + ".range", False))

    def swap(ex, st, a, w, n):
        x, y = cells(st, a[0]), cells(st, a[1])
        setv(st, a[0], *y)
        setv(st, a[1], *x)
    ex.contract(r"^(void )?" + V[1:] + r"swap\(", swap)

    def pop(ex, st, a, w, n):
        b, e = cells(st, a[0])
        s = get_vector(ex, st, a[0])
        ex.oblige(st, w + ".pop_back.nonempty", s.n > 0)
        setv(st, a[0], b, Ptr(b.r, ladd(e.o, -16)))
        st.wr(b.r).n = z3.simplify(s.n - 1)
    ex.contract(V + r"pop_back\(\)$", pop)

    def clear(ex, st, a, w, n):
        b, e = cells(st, a[0])
        setv(st, a[0], b, b)
        if b.r != NULL:
            st.wr(b.r).n = 0
    ex.contract(V + r"clear\(\)$", clear)


def case_of(scheme=None, userinfo=None, host=None, port=None, absolute=False, query=None, fragment=None, segments=()):
    """fields of a harness case describing these parts (host=None: no authority)"""
    o = lambda x: b"-" if x is None else b"+" + x
    return [o(scheme), b"-" if host is None else b"A", o(userinfo), host or b"", o(port), b"/" if absolute else b"-", o(query), o(fragment), str(len(segments)).encode()] + list(segments)


def model_parts(m, p, cap=40):
    """case fields of the parts p in the model m"""
    ev = lambda e: m.eval(e, model_completion=True)
    tr = lambda e: z3.is_true(ev(e))

    def tx(v):
        n = min(ev(v.n).as_long(), cap)
        a = ev(v.a).as_long()
        return bytes(ev(z3.Select(M, z3.IntVal(a + i))).as_long() % 256 for i in range(n))
    opt = lambda o: tx(o.v) if tr(o.has) else None
    k = dict(scheme=opt(p.scheme), query=opt(p.query), fragment=opt(p.fragment), absolute=tr(p.path.absolute))
    if tr(p.authority.has):
        a = p.authority.v
        k.update(userinfo=opt(a.userinfo), host=tx(a.host), port=opt(a.port))
    n = min(ev(p.path.segments.n).as_long(), 12)
    k["segments"] = [tx(p.path.segments.at(z3.IntVal(i))) for i in range(n)]
    return case_of(**k)
