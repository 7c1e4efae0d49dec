"""Contracts of grammar functions. Every match function of the source (free function or closure taking `rule const&`) is executed
symbolically with the rule combinators replaced by their contracts (proved by C16); the result is the parsing expression that the
function matches:

  ("eps",) ("cls", frozenset) ("fail",) ("seq", a, b) ("alt", a, b) ("opt", a) ("star", a, min, max)
  ("nt", key) ("cap", acceptor key, a) ("case", ((frozenset of bytes and/or -1 for end of input, expr), ...))
"""
import re, z3
from .common import *
from .sym import *
from .lib import *

INF = (1 << 32) - 1
EPS = ("eps",)
SVD = "std::basic_string_view<char, std::char_traits<char>>"


def seq(a, b):
    return b if a == EPS else a if b == EPS else ("seq", a, b)


def function_type(T):
    """"ptr", "ref" or "refptr" when the (demangled) type is a function pointer / reference to a function / reference to a function pointer;
    None for a class - whose own name may well mention function pointers in template arguments or parameters"""
    t = T.replace("(anonymous namespace)", "anon")
    while True:
        u = re.sub(r"(?<!operator)<[^<>]*>", "", t)
        if u == t:
            break
        t = u
    m = re.match(r"[^(]*\(([*&])( ?const)?(&*)\)\(", t)
    if not m or re.search(r"\)::", t[m.end():]):
        return None
    return "ref" if m.group(1) == "&" else "refptr" if m.group(3) else "ptr"


class Grammar:
    def __init__(self, mod, rep, prefix):
        self.mod, self.rep, self.prefix = mod, rep, prefix
        self.ex = Exec(mod, rep, prefix=prefix)
        self.nodes = {}      # key -> expr
        self.names = {}      # key -> demangled function
        self.accs = {}       # acceptor key -> (function name, cells)
        self.base = State()
        self.result = self.ex.alloc(self.base, mod.size(("named", "struct.uri::parts")), "result")
        self.byname = {}
        for n in mod.funcs:
            self.byname.setdefault(mod.dem(n), n)
        self.install()

    # ---- contracts of the combinators ------------------------------------------
    def install(self):
        ex = self.ex
        on = ex.contract
        on(r"^uri::rule uri::rule::concat<", lambda *a: self.h_concat(False, *a))
        on(r"^uri::rule uri::rule::optional<", lambda *a: self.h_concat(True, *a))
        on(r"^uri::rule uri::rule::star<", self.h_star)
        on(r"^uri::rule uri::rule::alternative<", self.h_alt)
        on(r"^uri::rule::matched\(char const\*, uri::rule const&\) const", self.h_matched)
        on(r"^std::optional<std::tuple<.* uri::rule::single_char<", self.h_single)
        on(r"^uri::rule::rule\(uri::rule (const&|&&)\)", self.h_copy)
        on(r"^uri::rule::~rule\(\)", lambda ex, st, a, w, n: None)
        on(r"^uri::rule::done\(\) const", self.h_done)
        on(r"^uri::rule::rule\(std::basic_string_view", self.h_new)
        # results
        on(r"^std::optional<std::tuple<std::basic_string_view.*>>>>>::optional\(std::optional<std::tuple<.*(&&|const&)\)", self.h_rescopy)
        on(r"^std::optional<std::tuple<std::basic_string_view.*>>>>>::~optional\(\)", lambda ex, st, a, w, n: None)

    def rule(self, st, p):
        g = st.ghost.get(("rule", p.r, p.o))
        if g is None:
            raise Unsupported("rule object without a known expression")
        return g

    def setrule(self, st, p, g):
        st.ghost[("rule", p.r, p.o)] = g

    def h_copy(self, ex, st, a, w, n):
        self.setrule(st, a[0], self.rule(st, a[1]))
        if st.mem[a[1].r].cells:
            ex.memcpy(st, a[0], a[1], ex.mod.size(("named", "class.uri::rule")), w)

    def h_rescopy(self, ex, st, a, w, n):
        g = st.ghost.get(("res", a[1].r, a[1].o))
        if g is None:
            raise Unsupported("copy of an unknown match result")
        st.ghost[("res", a[0].r, a[0].o)] = g

    def h_new(self, ex, st, a, w, n):
        self.mkrule(st, a[0], a[1], a[2])

    def mkrule(self, st, p, length, data):
        """rule{string}: the whole string is still to be matched, no acceptors."""
        ex = self.ex
        reg = st.wr(p.r)
        for off, size, v in ((0, 8, length), (8, 8, data), (16, 1, True), (24, 8, NULLP), (32, 8, NULLP), (40, 8, NULLP)):
            ex.put(st, p.r, reg, p.o + off, size, v)
        self.setrule(st, p, (("root", next(ex.n)), EPS))
        st.ghost[("text",) + self.rule(st, p)[0]] = (length, data)

    # ---- operand decoding --------------------------------------------------------
    def operator(self, T, params):
        for tail in (" const", ""):
            n = self.byname.get(f"{T}::operator()({params}){tail}")
            if n is not None:
                return n
        c = [n for d, n in self.byname.items() if (f"{T}::operator()<" in d or d.startswith(f"{T}::operator()(")) and not re.search(r"::(\$_\d+|'lambda\d*')", d.split(T, 1)[1])]
        if len(c) == 1:
            return c[0]
        raise Unsupported("operator() of " + T[:160])

    def size_of(self, T, params):
        f = self.mod.sig(self.operator(T, params))
        i = 1 if "sret" in f.params[0][1] else 0
        n = f.params[i][1].get("dereferenceable")
        if n is None:
            raise Unsupported("size of closure " + T[:160])
        return int(n)

    def counts(self, T, params):
        if function_type(T) == "ptr":
            return [1]
        n = self.size_of(T, params)
        return [0, 1] if n == 1 else [1] if n <= 8 else [2, 1] if n <= 16 else [1]

    def closure(self, st, T, vals, params, what):
        """by-value operand -> key"""
        if function_type(T) == "ptr":
            return self.fnkey(vals[0], what)
        op = self.operator(T, params)
        n = self.size_of(T, params)
        cells = []
        if n > 16:
            reg = st.mem[vals[0].r]
            for o, (s, v) in sorted(reg.cells.items()):
                if vals[0].o <= o < vals[0].o + n:
                    cells.append((o - vals[0].o, s, v))
        else:
            off = 0
            for v in vals:
                if isinstance(v, Bundle):
                    cells += [(off + o, s, x) for o, s, x in v.parts]
                elif not isinstance(v, Undef):
                    cells.append((off, min(8, n - off), v))
                off += 8
        return self.key(op, cells, what)

    def fnkey(self, v, what):
        if not isinstance(v, Ptr) or not isinstance(v.r, tuple) or v.r[0] != "fn":
            raise Unsupported("match function pointer is not a known function")
        return self.key(v.r[1], None, what)

    def literal(self, v):
        """a pointer into a string literal: the same in every call (its bytes are known only where they are read through the literal)"""
        a = z3.simplify(zi(v.addr())) if v.r == TEXT else None
        return a is not None and bool(re.fullmatch(r"(lit!\d+)( \+ \d+)?", str(a)))

    alias_ok, alias = False, {}

    def key(self, fn, cells, what):
        if cells is not None:
            new = []
            for o, s, v in cells:
                if self.alias_ok and isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith("r"):
                    self.alias[v.r] = True
                    v = Ptr(self.result.r, v.o)
                new.append((o, s, v))
            cells = new
            for o, s, v in cells:
                if not isinstance(v, (int, bool, Ptr)):
                    raise Unsupported("closure with symbolic capture")
                if isinstance(v, Ptr) and v.r != self.result.r and not isinstance(v.r, tuple) and v.r not in (NULL,) and not self.literal(v):
                    raise Unsupported("closure captures a pointer to " + str(v.r))
        k = (fn, None if cells is None else tuple((o, s, repr(v)) for o, s, v in cells))
        if what == "acc":
            self.accs.setdefault(k, (fn, cells))
        else:
            self.todo.setdefault(k, (fn, cells))
        return k

    def byref(self, st, T, p):
        """forwarding-reference operand -> key"""
        if function_type(T) == "ref":
            return self.fnkey(p, "match")
        if function_type(T) in ("ptr", "refptr"):
            return self.fnkey(self.ex.load(st, p, ("ptr",), "alternative"), "match")
        T = re.sub(r"( const)?&$", "", T)
        op = self.operator(T, "uri::rule const&")
        n = self.size_of(T, "uri::rule const&")
        reg = st.mem[p.r]
        cells = [(o - p.o, s, v) for o, (s, v) in sorted(reg.cells.items()) if p.o <= o < p.o + n]
        return self.key(op, cells, "match")

    def split(self, Ts, args, fixed):
        """distribute IR arguments over by-value operands"""
        cnt = [self.counts(T, P) for T, P in Ts]
        sols = []

        def go(i, left, acc):
            if i == len(cnt):
                if left == fixed:
                    sols.append(acc)
                return
            for c in cnt[i]:
                if c <= left:
                    go(i + 1, left - c, acc + [c])
        go(0, len(args), [])
        if len(sols) != 1:
            raise Unsupported("cannot tell the operands apart")
        out, k = [], 0
        for c in sols[0]:
            out.append(args[k:k + c])
            k += c
        return out, args[k:]

    # ---- handlers ------------------------------------------------------------------
    def h_concat(self, opt, ex, st, a, w, n):
        d = ex.mod.dem(n)
        Ts = template_args(d, "uri::rule::optional" if opt else "uri::rule::concat")
        root, e = self.rule(st, a[1])
        ops = [(Ts[0], "uri::rule const&")] + [(T, SVD) for T in Ts[1:2]]
        vals, _ = self.split(ops, a[2:], 0)
        m = ("nt", self.closure(st, Ts[0], vals[0], "uri::rule const&", "match"))
        if len(Ts) > 1 and not (isinstance(vals[1][0] if vals[1] else None, Ptr) and isinstance(vals[1][0].r, tuple) and ex.mod.dem(vals[1][0].r[1]).startswith("uri::rule::accept_nop(")):
            m = ("cap", self.closure(st, Ts[1], vals[1], SVD, "acc"), m)
        self.setrule(st, a[0], (root, seq(e, ("opt", m) if opt else m)))

    def h_star(self, ex, st, a, w, n):
        T = template_args(ex.mod.dem(n), "uri::rule::star")[0]
        root, e = self.rule(st, a[1])
        vals, (lo, hi) = self.split([(T, "uri::rule const&")], a[2:], 2)
        if not isinstance(lo, int) or not isinstance(hi, int):
            raise Unsupported("symbolic repetition bounds")
        m = ("nt", self.closure(st, T, vals[0], "uri::rule const&", "match"))
        self.setrule(st, a[0], (root, seq(e, ("star", m, lo, hi))))

    def h_alt(self, ex, st, a, w, n):
        Ts = template_args(ex.mod.dem(n), "uri::rule::alternative")
        root, e = self.rule(st, a[1])
        vals, rest = self.split([(Ts[0], "uri::rule const&")], a[2:], len(Ts) - 1)
        ks = [self.closure(st, Ts[0], vals[0], "uri::rule const&", "match")] + [self.byref(st, T, p) for T, p in zip(Ts[1:], rest)]
        x = ("fail",)
        for k in reversed(ks):
            x = ("alt", ("nt", k), x)
        self.setrule(st, a[0], (root, seq(e, x)))

    def h_matched(self, ex, st, a, w, n):
        root, e = self.rule(st, a[1])
        r2, e2 = self.rule(st, a[3])
        if root != r2 or e2 != EPS:
            raise Unsupported("matched() against a different rule")
        st.ghost[("res", a[0].r, a[0].o)] = (root, e)

    def h_single(self, ex, st, a, w, n):
        T = template_args(ex.mod.dem(n), "uri::rule::single_char")[0]
        root, e = self.rule(st, a[1])
        if e != EPS:
            raise Unsupported("single_char after another match")
        cls = self.predicate(st, T, a[2:])
        st.ghost[("res", a[0].r, a[0].o)] = (root, ("cls", cls))

    def predicate(self, st, T, vals):
        """The predicate of single_char, executed for each of the 256 values of char."""
        ex = self.ex
        k = (T, repr(vals))
        c = self.__dict__.setdefault("preds", {})
        if k in c:
            return c[k]
        if function_type(T) == "ptr":
            fn, this = vals[0].r[1], None
        else:
            fn = self.operator(T, "char")
            this = []
            off = 0
            for v in vals:
                if isinstance(v, Bundle):
                    this += [(off + o, s, x) for o, s, x in v.parts]
                elif not isinstance(v, Undef):
                    this.append((off, self.size_of(T, "char") if len(vals) == 1 else 8, v))
                off += 8
        f = ex.mod.func(fn)
        res = set()
        for b in range(256):
            s2 = State()
            args = []
            if this is not None:
                o = ex.alloc(s2, 64, "closure")
                for off, size, v in this:
                    ex.put(s2, o.r, s2.wr(o.r), off, size, v)
                args.append(o)
            for s3, rv in ex.run(f, s2, args + [b]):
                if isinstance(rv, (bool, int)):
                    t = bool(rv)
                else:
                    phi = zb(rv) if z3.is_bool(rv) else rv != 0
                    t = ex.entails(s3, phi)
                    if not t and not ex.entails(s3, z3.Not(phi)):
                        raise Unsupported("predicate not determined for byte " + str(b))
                if not ex.feasible(s3):
                    continue
                if t:
                    res.add(b)
        c[k] = frozenset(res)
        return c[k]

    def h_done(self, ex, st, a, w, n):
        """done(): true exactly if the expression matches the whole text; the acceptors have then run (C16)."""
        root, e = self.rule(st, a[0])
        length, data = st.ghost[("text",) + root]
        h = getattr(self, "on_done", None)
        if h is None:
            raise Unsupported("done() inside a match function")
        return h(ex, st, e, length, data)

    # ---- one function ----------------------------------------------------------------
    def expr_of(self, key):
        fn, cells = self.todo[key]
        ex = self.ex
        f = ex.mod.func(fn)
        d = f.demangled
        self.names[key] = d
        st = self.base.copy()
        st.dirty = set()
        res = ex.alloc(st, 64, "match result")
        p, n = ex.text(st, "in")
        r = ex.alloc(st, ex.mod.size(("named", "class.uri::rule")), "r")
        self.mkrule(st, r, n, p)
        root = self.rule(st, r)[0]
        args = [res]
        if cells is not None:
            o = ex.alloc(st, max([8] + [c[0] + c[1] for c in cells]), "closure")
            for off, size, v in cells:
                ex.put(st, o.r, st.wr(o.r), off, size, v)
            args.append(o)
        args.append(r)
        st.dirty = set()
        ex.fnstack = [d[:160]]
        mark = len(ex.buf)
        rets = []
        for s2, _ in ex.run(f, st, args, top=True):
            if ex.feasible(s2):
                rets.append(s2)
        ex.fnstack = [d[:160]]
        if not rets:
            raise Unsupported("no path returns: " + d[:160])
        for s2 in rets:
            if any(x[0] == self.result.r for x in s2.dirty):
                raise Unsupported("the result is written while matching in " + d[:160])
        gs = [s2.ghost.get(("res", res.r, res.o)) for s2 in rets]
        if len(rets) == 1 and gs[0] is not None:
            if gs[0][0] != root:
                raise Unsupported("result of another rule in " + d[:160])
            return gs[0][1]
        # decided by looking at the next byte
        table = {}
        for c in range(-1, 256):
            hit = None
            for s2, g in zip(rets, gs):
                cond = n == 0 if c < 0 else z3.And(n > 0, z3.Select(M, p.addr()) == c)
                if not ex.feasible(s2, cond):
                    continue
                if hit is not None:
                    raise Unsupported("match depends on more than one byte of lookahead: " + d[:160])
                hit = g[1] if g is not None else self.outcome(s2.copy().assume(cond), res)
            if hit is None:
                raise Unsupported("no outcome for a byte")
            table.setdefault(hit, set()).add(c)
        return ("case", tuple((frozenset(v), k) for k, v in sorted(table.items(), key=lambda x: min(x[1]))))

    def outcome(self, st, res):
        """fail / consumed length of a match result built without the combinators"""
        ex = self.ex
        hv = [n for d, n in self.byname.items() if re.match(r"^std::optional<std::tuple<std::basic_string_view.*>>>>>::has_value\(\) const$", d) or re.match(r"^std::optional<std::tuple<std::basic_string_view.*>>>>>::operator bool\(\) const$", d)]
        # the libstdc++ layout of optional<tuple<string_view, vector>>: vector, view, flag
        cells = st.mem[res.r].cells
        flag = cells.get(40)
        if flag is None:
            raise Unsupported("match result without a flag")
        v = flag[1]
        if not isinstance(v, (int, bool)):
            v = True if ex.entails(st, v if z3.is_bool(v) else v != 0) else False if ex.entails(st, z3.Not(v if z3.is_bool(v) else v != 0)) else None
        if v is None:
            raise Unsupported("undetermined match result")
        if not v:
            return ("fail",)
        b, e = cells.get(0), cells.get(8)
        if b is None or e is None or not (isinstance(b[1], Ptr) and isinstance(e[1], Ptr) and b[1].r == e[1].r and b[1].o == e[1].o):
            raise Unsupported("hand-made match result with acceptors")
        k = ex.concretize(st, zi(cells[24][1]))
        if k is None or k > 4:
            raise Unsupported("match length not determined")
        x = EPS
        for _ in range(k):
            x = seq(("cls", frozenset(range(256))), x)
        return x

    def explore(self, keys=()):
        """contract of every function reachable from the given keys"""
        work = list(self.todo)
        while work:
            k = work.pop()
            if k in self.nodes:
                continue
            before = set(self.todo)
            self.nodes[k] = self.expr_of(k)
            work += [x for x in self.todo if x not in before]

    todo = None

    def start(self):
        self.todo = {}
