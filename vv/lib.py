"""Assumed contracts of the standard library (ghost models) and helpers for writing proofs."""
import re, z3
from .common import *
from .sym import *
from . import sym

STR = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"
U32 = r"^std::__cxx11::basic_string<char32_t, std::char_traits<char32_t>, std::allocator<char32_t>>::"
SVC = "std::basic_string_view<char, std::char_traits<char>>"


def seqcat(*xs):
    xs = [x for x in xs if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY)]
    if not xs:
        return z3.Empty(SeqI)
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def strval(st, p):
    if p.r not in st.mem:
        raise Unsupported("string through " + repr(p))
    c = st.mem[p.r].cells.get(p.o)
    if c is None or not z3.is_expr(c[1]) or c[1].sort() != SeqI:
        raise Unsupported("unknown string object")
    return c[1]


def setstr(st, p, v, size=32):
    reg = st.wr(p.r)
    for o in [o for o in reg.cells if p.o <= o < p.o + size]:
        del reg.cells[o]
    reg.cells[p.o] = (size, v)
    st.dirty.add((p.r, p.o, size))


def string_contracts(ex, rx=STR):
    """std::string / std::u32string as a ghost sequence."""
    def on(pat, fn):
        ex.contract(rx + pat, fn)
    E = z3.Empty(SeqI)
    on(r"basic_string\(\)$", lambda ex, st, a, w, n: setstr(st, a[0], E))
    on(r"basic_string\(std::__cxx11::basic_string<char.*&&\)$", mv)
    on(r"~basic_string\(\)$", lambda ex, st, a, w, n: None)
    on(r"reserve\(unsigned long\)$", lambda ex, st, a, w, n: None)
    on(r"clear\(\)$", lambda ex, st, a, w, n: setstr(st, a[0], E))
    on(r"push_back\(char(32_t)?\)$", lambda ex, st, a, w, n: setstr(st, a[0], seqcat(strval(st, a[0]), z3.Unit(zi(a[1])))))

    def pluseq_c(ex, st, a, w, n):
        setstr(st, a[0], seqcat(strval(st, a[0]), z3.Unit(zi(a[1]))))
        return [(st, a[0])]
    on(r"operator\+=\(char(32_t)?\)$", pluseq_c)

    def pluseq_p(ex, st, a, w, n):
        out = []
        for s2, k in strlen_h(ex, st, [a[1]], w, n):
            setstr(s2, a[0], seqcat(strval(s2, a[0]), ex.content(s2, a[1], k)))
            out.append((s2, a[0]))
        return out
    on(r"operator\+=\(char const\*\)$", pluseq_p)
    on(r"append\(char const\*\)$", pluseq_p)

    def append_n(ex, st, a, w, n):
        ln = zi(a[2])
        readable_range(ex, st, a[1], ln, w)
        setstr(st, a[0], seqcat(strval(st, a[0]), ex.content(st, a[1], a[2])))
        return [(st, a[0])]
    on(r"append\(char const\*, unsigned long\)$", append_n)

    def append_cn(ex, st, a, w, n):
        k = ex.concretize(st, zi(a[1]))
        if k is None or k > 8:
            raise Unsupported("append of a symbolic count")
        setstr(st, a[0], seqcat(strval(st, a[0]), *[z3.Unit(zi(a[2]))] * k))
        return [(st, a[0])]
    on(r"append\(unsigned long, char(32_t)?\)$", append_cn)

    def append_s(ex, st, a, w, n):
        setstr(st, a[0], seqcat(strval(st, a[0]), strval(st, a[1])))
        return [(st, a[0])]
    on(r"(append|operator\+=)\(std::__cxx11::basic_string<char[^)]* const&\)$", append_s)

    def append_sv(ex, st, a, w, n):
        p = a[1]
        ln, d = ex.load(st, p, ("i", 64), w), ex.load(st, Ptr(p.r, ladd(p.o, 8)), ("ptr",), w)
        readable_range(ex, st, d, zi(ln), w)
        setstr(st, a[0], seqcat(strval(st, a[0]), ex.content(st, d, ln)))
        return [(st, a[0])]
    on(r"_If_sv<.*(append|operator\+=)<", append_sv)
    ex.contract(r"^" + STR[1:] + r"(append|operator\+=)<std::basic_string_view<char.*>>\(", append_sv)
    ex.contract(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(append|operator\+=)<std::basic_string_view<char, std::char_traits<char>>>\(", append_sv)

    def size(ex, st, a, w, n):
        v = z3.Length(strval(st, a[0]))
        st.assume(v >= 0, v < 2**62)
        return [(st, v)]
    on(r"(size|length)\(\) const$", size)
    on(r"empty\(\) const$", lambda ex, st, a, w, n: [(st, z3.simplify(z3.Length(strval(st, a[0])) == 0))])

    if rx != STR:
        return
    S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
    V = r"std::basic_string_view<char, std::char_traits<char>>"

    def text_of(ex, st, kind, v, w):
        """[(state, sequence)] of one argument of a string operation"""
        if kind == "s":
            return [(st, strval(st, v))]
        if kind == "c":
            return [(st, z3.Unit(zi(v)))]
        if kind == "v":
            ln, d = sv_at(ex, st, v, w)
            readable_range(ex, st, d, zi(ln), w)
            return [(st, ex.content(st, d, ln))]
        return [(s2, ex.content(s2, v, k)) for s2, k in strlen_h(ex, st, [v], w, "strlen")]

    KINDS = {"s": S + r"( const)?&&?", "c": r"char", "v": V + r"( const&)?", "p": r"char const\*"}

    def assigning(kind, ret):
        def h(ex, st, a, w, n):
            out = []
            for s2, t in text_of(ex, st, kind, a[1], w):
                setstr(s2, a[0], t)
                out.append((s2, a[0] if ret else None))
            return out
        return h
    on(r"basic_string\(" + S + r" const&\)$", assigning("s", False))
    on(r"basic_string<" + V + r", void>\(" + V + r" const&, std::allocator<char> const&\)$", assigning("v", False))
    on(r"basic_string<.*>\(char const\*, std::allocator<char> const&\)$", assigning("p", False))
    on(r"basic_string\(char const\*, std::allocator<char> const&\)$", assigning("p", False))

    def from_range(ret):
        def h(ex, st, a, w, n):
            readable_range(ex, st, a[1], zi(a[2]), w)
            setstr(st, a[0], ex.content(st, a[1], a[2]))
            return [(st, a[0] if ret else None)]
        return h
    on(r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$", from_range(False))
    on(r"assign\(char const\*, unsigned long\)$", from_range(True))

    def move_assign(ex, st, a, w, n):
        mv(ex, st, a, w, n)
        return [(st, a[0])]
    on(r"(operator=|assign)\(" + S + r"&&\)$", move_assign)
    on(r"(operator=|assign)\(" + S + r" const&\)$", assigning("s", True))
    on(r"operator=\(char\)$", assigning("c", True))
    on(r"(operator=|assign)\(char const\*\)$", assigning("p", True))
    ex.contract(S + r"::(assign|operator=)<" + V + r">\(" + V + r" const&\)$", assigning("v", True))

    def inserting(kind):
        def h(ex, st, a, w, n):
            if ex.concretize(st, zi(a[1])) != 0:
                raise Unsupported("insertion into a string")
            out = []
            for s2, t in text_of(ex, st, kind, a[2], w):
                setstr(s2, a[0], seqcat(t, strval(s2, a[0])))
                out.append((s2, a[0]))
            return out
        return h
    on(r"insert\(unsigned long, " + S + r" const&\)$", inserting("s"))
    on(r"insert\(unsigned long, char const\*\)$", inserting("p"))
    ex.contract(S + r"::insert<" + V + r">\(unsigned long, " + V + r" const&\)$", inserting("v"))

    def plus(k1, k2):
        def h(ex, st, a, w, n):
            out = []
            for s2, x in text_of(ex, st, k1, a[1], w):
                for s3, y in text_of(ex, s2, k2, a[2], w):
                    setstr(s3, a[0], seqcat(x, y))
                    out.append((s3, None))
            return out
        return h
    for k1 in "scp":
        for k2 in "scp":
            if "s" in (k1, k2):
                ex.contract(r"std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(" + KINDS[k1] + ", " + KINDS[k2] + r"\)$", plus(k1, k2))


def mv(ex, st, a, w, n):
    setstr(st, a[0], strval(st, a[1]))
    setstr(st, a[1], z3.Empty(SeqI))


def readable_range(ex, st, p, n, w):
    if not isinstance(p, Ptr) or p.r not in (TEXT, NULL):
        raise Unsupported("text expected at " + w)
    a = p.addr()
    ex.oblige(st, w + ".readable", z3.Or(zi(n) == 0, *[z3.And(b <= a, a + zi(n) <= b + m) for b, m in st.readable]))


def ghost_append(ghost, argi=1):
    def h(ex, st, a, w, n):
        st.g(ghost, seqcat(st.ghost[ghost], z3.Unit(zi(a[argi]))))
    return h


def template_args(d, name):
    """top-level template arguments of `name<...>` in a demangled name"""
    i = d.index(name + "<") + len(name) + 1
    out, depth, cur, k = [], 0, "", i
    while True:
        ch = d[k]
        if ch in "<({":
            depth += 1
        elif ch in ">)}":
            if depth == 0 and ch == ">" and d[k - 1] != "-":
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        k += 1
    return out + [cur.strip()]


def run_predicate(ex, st, algo, captures, p, w, wrapper="__gnu_cxx::__ops::_Iter_pred"):
    """Execute the predicate object given to a std algorithm on the element at p, through libstdc++'s own wrapper."""
    d = ex.mod.dem(algo)
    m = re.search(r"std::(\w+)<", d)
    pred = template_args(d, m.group(0)[:-1])[1]
    fs = [x for x in ex.mod.funcs if ex.mod.dem(x).find(f"{wrapper}<{pred}>::operator()<") >= 0]
    if not fs and wrapper.endswith("_Iter_pred"):
        r = run_predicate(ex, st, algo, captures, p, w, "__gnu_cxx::__ops::_Iter_negate")
        return [(s, z3.simplify(z3.Not(zb(v)))) for s, v in r]
    if len(fs) != 1:
        raise Unsupported("predicate of " + d[:100])
    o = ex.alloc(st, 64, "closure")
    if captures and not (len(captures) == 1 and isinstance(captures[0], Undef)):
        off = 0
        for c in captures:
            size = 8 if isinstance(c, Ptr) else 1 if len(captures) == 1 else 8
            ex.put(st, o.r, st.wr(o.r), off, size, c)
            off += 8
    return ex.run(ex.mod.func(fs[0]), st, [o, p])


# ---- proof helpers -------------------------------------------------------------
def one(mod, rx):
    f = mod.find(rx)
    if len(f) > 1:      # a closure written inside the function carries its name too
        f = [n for n in f if not re.search(r"::operator\(\)(<.*>)?\([^()]*\)( const)?$", mod.dem(n))] or f
    if len(f) != 1:
        raise Unsupported(f"{len(f)} functions match {rx}")
    return mod.func(f[0])


def verify(ex, f, setup, post, title=None, name=None):
    """setup(st) -> (args, ctx); post(ex, st, ret, ctx) makes the obligations of one return path."""
    name = name or short(f.demangled)
    ex.rep.functions[title or f.demangled[:200]] = "under contract"
    st = State()
    ex.fnstack = [title or f.demangled[:160]]
    ex.depth = 0
    mark = len(ex.buf)
    try:
        args, ctx = setup(st)
        if ex.check(st, z3.BoolVal(True))[0] != z3.sat:
            raise Unsupported("precondition not satisfiable: vacuous")
        rets = ex.run(f, st, args, top=True)
        live = 0
        for s2, rv in rets:
            ex.fnstack = [title or f.demangled[:160]]
            if ex.feasible(s2):
                live += 1
                post(ex, s2, rv, ctx)
        if live == 0:
            failed = any(b[2] == FAILED for b in ex.buf[mark:])
            if not failed:
                raise Unsupported("no execution path returns: vacuous")
        ex.flush()
        return rets
    except Unsupported as e:
        # obligations that failed before are kept out: an unfinished run decides nothing
        ex.rep.hints += [h for b in ex.buf for h in b[6]][:20]
        ex.buf = []
        ex.rep.undecided(ex.prefix + name, title or f.demangled[:160], str(e))
        return None
    except Dead:
        ex.flush()
        return None
    finally:
        ex.fnstack = []


def new_sv(ex, st, name):
    """A symbolic string_view value in memory: (Ptr to object, data Ptr, length)."""
    p, n = ex.text(st, name)
    o = ex.alloc(st, 16, name)
    reg = st.wr(o.r)
    reg.cells[0] = (8, n)
    reg.cells[8] = (8, p)
    return o, p, n


def sv_at(ex, st, p, w="spec"):
    return ex.load(st, p, ("i", 64), w), ex.load(st, Ptr(p.r, ladd(p.o, 8)), ("ptr",), w)


def textbytes(m, a, n, cap=64):
    """bytes of the text memory in a model"""
    ev = lambda e: m.eval(e, model_completion=True).as_long()
    n = ev(zi(n))
    if n > cap:
        return None
    a = ev(zi(a))
    return bytes(ev(z3.Select(sym.M, z3.IntVal(a + i))) % 256 for i in range(n))
