"""Contracts of uri::rule (C16): each public member template, in every instantiation of a module, against opaque match functions."""
import os, re, time, z3
from .common import *
from .sym import *
from .lib import *
from . import ir, model
from .grammar import Grammar, SVD, function_type

ELT = f"std::tuple<std::function<void ({SVD})>, {SVD}>"
AV = f"std::vector<{ELT}, std::allocator<{ELT}>>"
RULE = "uri::rule const&"
I, B = z3.IntSort(), z3.BoolSort()
E0 = z3.Empty(SeqI)
ACC = z3.Function("acceptor_call", I, I, I, I)      # (function, text length, text address)
ACCB, VIEW, FLAG = 0, 24, 40                          # libstdc++: optional<tuple<string_view, vector>>
SIZE = 48


class Rules:
    def __init__(self, mod, rep, prefix):
        self.mod, self.rep, self.prefix = mod, rep, prefix
        self.fns = {}        # identity of a match function object -> (ok, len, acc)
        self.ids = {}        # identity of an accept function object -> number
        self.dec = Grammar.__new__(Grammar)
        self.dec.mod = mod
        mod.dem("")
        self.dec.byname = {mod.dem(n): n for n in list(mod.decls) + list(mod.funcs)}

    # ---- identities ----------------------------------------------------------------
    def ident(self, op, cells):
        return (op, tuple((o, s, repr(v)) for o, s, v in sorted(cells, key=lambda c: c[0]) if not isinstance(v, Undef)))

    def match(self, key):
        if key not in self.fns:
            i = len(self.fns) + 1
            self.fns[key] = (z3.Function(f"match{i}_ok", I, I, B), z3.Function(f"match{i}_length", I, I, I), z3.Function(f"match{i}_acceptors", I, I, SeqI))
        return self.fns[key]

    def accept(self, key):
        return z3.IntVal(self.ids.setdefault(key, len(self.ids) + 1))

    def cells(self, st, p, n):
        reg = st.mem[p.r]
        return [(o - p.o, s, v) for o, (s, v) in reg.cells.items() if isinstance(o, int) and p.o <= o < p.o + n]

    def fnkey(self, v):
        if not isinstance(v, Ptr) or not isinstance(v.r, tuple) or v.r[0] != "fn":
            raise Unsupported("function pointer")
        return self.ident(v.r[1], [])

    # ---- engine --------------------------------------------------------------------
    def exec(self):
        ex = Exec(self.mod, self.rep, prefix=self.prefix)
        V = "^" + re.escape(AV) + "::"
        on = ex.contract
        get = lambda st, p: strval(st, p)
        put = lambda st, p, v: setstr(st, p, v, 24)
        on(V + r"vector\(\)$", lambda ex, st, a, w, n: put(st, a[0], E0))
        on(V + r"~vector\(\)$", lambda ex, st, a, w, n: None)
        on(V + r"(reserve)\(unsigned long\)$", lambda ex, st, a, w, n: None)

        def copy(ex, st, a, w, n):
            put(st, a[0], get(st, a[1]))
            return [(st, a[0])]

        def move(ex, st, a, w, n):
            v = get(st, a[1])
            put(st, a[1], E0)
            put(st, a[0], v)
            return [(st, a[0])]
        on(V + r"(vector|operator=)\(" + re.escape(AV) + r" const&\)$", copy)
        on(V + r"(vector|operator=)\(" + re.escape(AV) + r"&&\)$", move)

        def size(ex, st, a, w, n):
            v = z3.Length(get(st, a[0]))
            st.assume(v >= 0, v < 2**50)
            return [(st, v)]
        on(V + r"size\(\) const$", size)
        on(V + r"empty\(\) const$", lambda ex, st, a, w, n: [(st, z3.Length(get(st, a[0])) == 0)])
        for nm, k in (("begin", 0), ("cbegin", 0), ("end", 1), ("cend", 1)):
            on(V + nm + r"\(\)( const)?$", lambda ex, st, a, w, n, k=k: [(st, Ptr(("vit", a[0].r, a[0].o, k), 0))])

        def it(v):
            v = v[0] if isinstance(v, list) else v
            if not isinstance(v, Ptr) or not isinstance(v.r, tuple) or v.r[0] != "vit":
                raise Unsupported("iterator of acceptors")
            return v.r

        def insert(ex, st, a, w, n):
            pos, f, l = it(a[1]), it(a[2]), it(a[3])
            if pos[1:3] != (a[0].r, a[0].o) or f[1:3] != l[1:3] or (f[3], l[3]) != (0, 1):
                raise Unsupported("insert of part of a vector")
            src, old = get(st, Ptr(f[1], f[2])), get(st, a[0])
            put(st, a[0], seqcat(old, src) if pos[3] == 1 else seqcat(src, old))
            return [(st, Ptr(("vit", a[0].r, a[0].o, 2), 0))]
        on(re.escape(AV) + r"::insert<", insert)

        def emplace(ex, st, a, w, n):
            d = ex.mod.dem(n)
            T = template_args(d, AV + "::emplace_back")[0]
            T = re.sub(r"( const)?&+$", "", T)
            if function_type(T):
                key = self.fnkey(ex.load(st, a[1], ("ptr",), w))
                if "accept_nop" in key[0]:
                    return [(st, NULLP)]      # shown to do nothing
            else:
                key = self.ident(self.dec.operator(T, SVD), self.cells(st, a[1], 64))
            ln, p = sv_at(ex, st, a[2], w)
            put(st, a[0], seqcat(get(st, a[0]), z3.Unit(ACC(self.accept(key), zi(ln), p.addr()))))
            return [(st, NULLP)]
        on(re.escape(AV) + r"::emplace_back<", emplace)
        return ex

    def matcher(self, ex, op, has_this):
        def h(ex, st, a, w, n):
            cells = self.cells(st, a[1], 64) if has_this else []
            return self.call_match(ex, st, self.ident(op, cells), a[0], a[-1], w)
        ex._hc[op] = h

    def call_match(self, ex, st, key, ret, rule, w):
        """contract of a match function: given a rule with text left, matches a prefix of it or fails; its acceptors come with it"""
        has, n, a, acc = self.rule(ex, st, rule)
        ex.oblige(st, w + ".match.rule-not-failed", has)
        ok, ln, ac = self.match(key)
        k = ln(a, n)
        yes = st.copy().assume(ok(a, n), k >= 0, k <= n)
        self.put_result(ex, yes, ret, k, a, seqcat(acc, ac(a, n)))
        no = st.copy().assume(z3.Not(ok(a, n)))
        ex.put(no, ret.r, no.wr(ret.r), ret.o + FLAG, 1, False)
        return [(s, UNDEF) for s in (yes, no) if ex.feasible(s)]

    def put_result(self, ex, st, p, n, a, acc):
        setstr(st, Ptr(p.r, p.o + ACCB), acc, 24)
        reg = st.wr(p.r)
        ex.put(st, p.r, reg, p.o + VIEW, 8, n)
        ex.put(st, p.r, reg, p.o + VIEW + 8, 8, Ptr(TEXT, Lin.of(a)))
        ex.put(st, p.r, reg, p.o + FLAG, 1, True)

    # ---- values --------------------------------------------------------------------
    def new_rule(self, ex, st, name, has=None):
        p, n = ex.text(st, name)
        o = ex.alloc(st, SIZE, name)
        reg = st.wr(o.r)
        h = z3.Bool(ex.uniq(name + "_has")) if has is None else z3.BoolVal(has)
        acc = z3.Const(ex.uniq(name + "_acceptors"), SeqI)
        reg.cells[0], reg.cells[8], reg.cells[16], reg.cells[24] = (8, n), (8, p), (1, h), (24, acc)
        st.assume(n < 2**32 - 1)
        return o, (h, n, p.addr(), acc)

    def rule(self, ex, st, p):
        c = st.mem[p.r].cells
        f = c.get(p.o + 16)
        if f is None or isinstance(f[1], Undef):
            raise Unsupported("rule without a flag")
        h = f[1] if z3.is_bool(f[1]) else z3.BoolVal(bool(f[1])) if isinstance(f[1], (int, bool)) else f[1] != 0
        acc = strval(st, Ptr(p.r, p.o + 24))
        h = z3.simplify(h)
        if z3.is_false(h) or c.get(p.o) is None or not isinstance(c.get(p.o + 8, (0, 0))[1], Ptr):
            if not z3.is_false(h) and ex.feasible(st, h):
                raise Unsupported("rule without a tail")
            return z3.BoolVal(False), None, None, acc
        return h, zi(c[p.o][1]), c[p.o + 8][1].addr(), acc

    def result(self, ex, st, p):
        c = st.mem[p.r].cells
        f = c.get(p.o + FLAG)
        if f is None or isinstance(f[1], Undef):
            raise Unsupported("match result without a flag")
        h = f[1] if z3.is_bool(f[1]) else z3.BoolVal(bool(f[1])) if isinstance(f[1], (int, bool)) else f[1] != 0
        h = z3.simplify(h)
        if z3.is_false(h):
            return h, None, None, None
        return h, zi(c[p.o + VIEW][1]), c[p.o + VIEW + 8][1].addr(), strval(st, Ptr(p.r, p.o + ACCB))

    def same(self, ex, st, name, got, has, n, a, acc):
        ex.oblige(st, name + ".succeeds", got[0] == has)
        if got[1] is None or not ex.feasible(st, has):
            return
        ex.oblige(st, name + ".text", z3.Implies(has, z3.And(got[1] == n, z3.Or(n == 0, got[2] == a))))
        ex.oblige(st, name + ".acceptors", z3.Implies(has, got[3] == acc))

    def fresh_fn(self, ex):
        f = Ptr(("fn", ex.uniq("verif.fn")), 0)
        ex._hc[f.r[1]] = lambda ex, st, a, w, n: self.call_match(ex, st, self.fnkey(f), a[0], a[-1], w)
        return f

    # ---- operands of an instantiation --------------------------------------------------
    def operands(self, ex, st, ops, params, nfixed):
        """ops: [(T, operator parameters)] passed by value; returns (IR arguments, keys, rest of params)"""
        chunks, rest = self.dec.split(ops, params, nfixed)
        args, keys = [], []
        for (T, P), ps in zip(ops, chunks):
            if function_type(T) == "ptr":
                f = self.fresh_fn(ex)
                args.append(f)
                keys.append(self.fnkey(f))
                continue
            cells, off = [], 0
            for t, at, nm in ps:
                if "byval" in at:
                    n = self.mod.size(at["byval"])
                    o = ex.alloc(st, n, "closure")
                    for k in range(0, n, 8):
                        v = self.capture(ex, ("ptr",))
                        st.wr(o.r).cells[k] = (8, v)
                        cells.append((k, 8, v))
                    args.append(o)
                else:
                    v = self.capture(ex, t)
                    args.append(v)
                    if self.dec.size_of(T, P) > 1:
                        cells.append((off, 8, v))
                    off += 8
            keys.append(self.ident(self.dec.operator(T, P), cells))
            if P == RULE:
                self.matcher(ex, self.dec.operator(T, P), True)
        return args, keys, rest

    def capture(self, ex, t):
        return Ptr(("captured", ex.uniq("c")), 0) if t[0] == "ptr" else z3.Int(ex.uniq("captured"))

    def reference(self, ex, st, T):
        """a forwarding-reference operand: (argument, key)"""
        if function_type(T) == "ref":
            f = self.fresh_fn(ex)
            return f, self.fnkey(f)
        if function_type(T) in ("ptr", "refptr"):
            f = self.fresh_fn(ex)
            o = ex.alloc(st, 8, "fn", {0: (8, f)})
            return o, self.fnkey(f)
        T = re.sub(r"( const)?&$", "", T)
        op = self.dec.operator(T, RULE)
        n = self.dec.size_of(T, RULE)
        o = ex.alloc(st, n, "closure")
        cells = []
        if n > 1:
            for k in range(0, n, 8):
                v = self.capture(ex, ("ptr",))
                st.wr(o.r).cells[k] = (8, v)
                cells.append((k, 8, v))
        self.matcher(ex, op, True)
        return o, self.ident(op, cells)

    # ---- the combinators -----------------------------------------------------------------
    def instances(self, rx):
        r = re.compile(rx)
        return [n for n in self.mod.funcs if r.search(self.mod.dem(n))]

    def seqop(self, n, which, i):
        ex = self.exec()
        f = self.mod.func(n)
        Ts = template_args(f.demangled, "uri::rule::" + which)
        name = f"{which}.{i}"

        def setup(st):
            ret = ex.alloc(st, SIZE, "ret")
            o, r = self.new_rule(ex, st, "rule")
            ops = [(T, RULE if k == 0 else SVD) for k, T in enumerate(Ts)]
            args, keys, _ = self.operands(ex, st, ops, f.params[2:], 0)
            return [ret, o] + args, (ret, o, r, keys)

        def post(ex, st, rv, c):
            ret, o, (has, n, a, acc), keys = c
            ok, ln, ac = self.match(keys[0])
            good, k = ok(a, n), ln(a, n)
            st.assume(z3.Implies(good, z3.And(k >= 0, k <= n)))
            run = seqcat(acc, ac(a, n))
            if len(keys) > 1:
                run = seqcat(run, z3.Unit(ACC(self.accept(keys[1]), k, a)))
            got = self.rule(ex, st, ret)
            if which == "concat":
                self.same(ex, st, name, got, z3.And(has, good), n - k, a + k, run)
            else:
                self.same(ex, st, name, got, has, z3.If(good, n - k, n), z3.If(good, a + k, a), z3.If(good, run, acc))
        return verify(ex, f, setup, post, title=f.demangled[:240], name=name)

    def alternative(self, n, i):
        ex = self.exec()
        f = self.mod.func(n)
        Ts = template_args(f.demangled, "uri::rule::alternative")
        name = f"alternative.{i}"

        def setup(st):
            ret = ex.alloc(st, SIZE, "ret")
            o, r = self.new_rule(ex, st, "rule")
            args, keys, rest = self.operands(ex, st, [(Ts[0], RULE)], f.params[2:], len(Ts) - 1)
            for T in Ts[1:]:
                v, k = self.reference(ex, st, T)
                args.append(v)
                keys.append(k)
            return [ret, o] + args, (ret, r, keys)

        def post(ex, st, rv, c):
            ret, (has, n, a, acc), keys = c
            good, k, run = z3.BoolVal(False), z3.IntVal(0), E0
            for key in reversed(keys):
                ok, ln, ac = self.match(key)
                st.assume(z3.Implies(ok(a, n), z3.And(ln(a, n) >= 0, ln(a, n) <= n)))
                good, k, run = z3.Or(ok(a, n), good), z3.If(ok(a, n), ln(a, n), k), z3.If(ok(a, n), ac(a, n), run)
            self.same(ex, st, name, self.rule(ex, st, ret), z3.And(has, good), n - k, a + k, seqcat(acc, run))
        return verify(ex, f, setup, post, title=f.demangled[:240], name=name)

    def star(self, n, i):
        ex = self.exec()
        f = self.mod.func(n)
        T = template_args(f.demangled, "uri::rule::star")[0]
        name = f"star.{i}"
        sp = StarLoop(self)
        ex.loop(r"^uri::rule uri::rule::star<", None, sp)

        def setup(st):
            ret = ex.alloc(st, SIZE, "ret")
            o, r = self.new_rule(ex, st, "rule")
            args, keys, rest = self.operands(ex, st, [(T, RULE)], f.params[2:], 2)
            lo, hi = ex.D.fresh(st, "min", 32), ex.D.fresh(st, "max", 32)
            st.assume(lo <= hi)
            sp.start(ex, st, r, self.match(keys[0]), hi)
            return [ret, o] + args + [lo, hi], (ret, r, lo)

        def post(ex, st, rv, c):
            ret, (has, n, a, acc), lo = c
            self.same(ex, st, name, self.rule(ex, st, ret), z3.And(has, sp.K >= lo), n - sp.P(sp.K), a + sp.P(sp.K), sp.Q(sp.K))
        return verify(ex, f, setup, post, title=f.demangled[:240], name=name)

    def single(self, n, i):
        ex = self.exec()
        f = self.mod.func(n)
        T = template_args(f.demangled, "uri::rule::single_char")[0]
        name = f"single_char.{i}"
        if function_type(T) == "ptr":
            op = "verif.predicate"
        else:
            op = self.dec.operator(T, "char")
        PRED = z3.Function("predicate", I, B)

        def pred(ex, st, a, w, nm):
            s = self.mod.sig(op)
            v = PRED(zi(a[-1]))
            if s is not None and s.ret[1] > 1:
                k = ex.D.fresh(st, "predicate", s.ret[1])
                st.assume((k != 0) == v)
                v = k
            return [(st, v)]
        ex._hc[op] = pred
        ex._hc["verif.predicate"] = pred

        def setup(st):
            ret = ex.alloc(st, SIZE, "ret")
            o, r = self.new_rule(ex, st, "rule")
            args = []
            for t, at, nm in f.params[2:]:
                if op == "verif.predicate":
                    args.append(Ptr(("fn", op), 0))
                elif "byval" in at:
                    args.append(ex.alloc(st, self.mod.size(at["byval"]), "closure"))
                elif t[0] == "i":
                    args.append(ex.D.fresh(st, "captured", t[1]))
                else:
                    args.append(self.capture(ex, t))
            return [ret, o] + args, (ret, r)

        def post(ex, st, rv, c):
            ret, (has, n, a, acc) = c
            self.same(ex, st, name, self.result(ex, st, ret), z3.And(has, n > 0, PRED(z3.Select(M, a))), z3.IntVal(1), a, E0)
        return verify(ex, f, setup, post, title=f.demangled[:240], name=name)

    def all_templates(self):
        ok = True
        for which in ("concat", "optional"):
            for i, n in enumerate(self.instances(rf"^uri::rule uri::rule::{which}<")):
                ok &= self.seqop(n, which, i + 1) is not None
        for i, n in enumerate(self.instances(r"^uri::rule uri::rule::alternative<")):
            ok &= self.alternative(n, i + 1) is not None
        for i, n in enumerate(self.instances(r"^uri::rule uri::rule::star<")):
            ok &= self.star(n, i + 1) is not None
        for i, n in enumerate(self.instances(r" uri::rule::single_char<")):
            ok &= self.single(n, i + 1) is not None
        return ok


class StarLoop(LoopSpec):
    """after i matches: the text left starts at P(i), the acceptors are Q(i). K is the number of matches star() has to make."""

    def __init__(self, rules):
        self.R = rules

    def start(self, ex, st, r, m, hi):
        self.has, self.n, self.a, self.acc = r
        self.m, self.hi = m, hi
        u = ex.uniq("")
        self.P, self.Q, self.G = z3.Function("consumed" + u, I, I), z3.Function("acceptors" + u, I, SeqI), z3.Function("all_matched" + u, I, B)
        self.K, self.consuming = z3.Int("matches" + u), z3.Bool("consuming" + u)
        # every match consumes something, or the number of repetitions is bounded
        st.assume(z3.Or(self.consuming, hi < 2**32 - 1))

    def facts(self, ex, st, view, roles):
        i = zi(view.cell(roles["count"]))
        return self.unfold(i) + self.unfold(i - 1)

    def unfold(self, i):
        ok, ln, ac = self.m
        P, Q, G = self.P, self.Q, self.G
        a, n = self.a + P(i), self.n - P(i)
        z = z3.IntVal(0)
        return [P(z) == 0, Q(z) == self.acc, G(z),
                z3.Implies(i >= 0, z3.And(P(i + 1) == P(i) + ln(a, n), Q(i + 1) == seqcat(Q(i), ac(a, n)), G(i + 1) == z3.And(G(i), ok(a, n)))),
                z3.Implies(ok(a, n), z3.And(ln(a, n) >= 0, ln(a, n) <= n)),
                z3.Implies(z3.And(self.consuming, ok(a, n)), ln(a, n) >= 1),
                z3.Implies(z3.And(i >= 0, i <= self.hi, G(i), z3.Or(i == self.hi, z3.Not(ok(a, n)))), self.K == i)]

    def roles(self, ex, st, view):
        num = lambda v, s: not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v))
        counts = view.modified(lambda v, s: num(v, s))
        strs = [(k[0], k[1] - 8) for k in view.modified(lambda v, s: isinstance(v, Ptr) and v.r in (TEXT, NULL))]
        accs = view.modified(lambda v, s: z3.is_expr(v) and v.sort() == SeqI)
        for c in counts:
            lens = [k for k in counts if k != c and k not in strs and st.mem[k[0]].cells[k[1]][0] == 8]
            for s in strs or [None]:
                for q in accs:
                    for ln in [None] + lens if not lens else lens:
                        yield {"count": c, "str": s, "acc": q, "len": ln}

    def inv(self, ex, st, view, roles):
        i = zi(view.cell(roles["count"]))
        P = self.P(i)
        r = [("count", z3.And(i >= 0, i <= self.hi, z3.If(self.consuming, i <= P, i < 2**32 - 1))), ("matched", self.G(i)), ("consumed", z3.And(P >= 0, P <= self.n)),
             ("acceptors", strval(st, Ptr(*roles["acc"])) == self.Q(i))]
        if roles["str"]:
            k = roles["str"]
            r.append(("rest", z3.And(zi(view.cell(k)) == self.n - P, view.cell((k[0], k[1] + 8)).addr() == self.a + P)))
        if roles["len"]:
            r.append(("length", zi(view.cell(roles["len"])) == P))
        return r

    def variant(self, ex, st, view, roles):
        i = zi(view.cell(roles["count"]))
        return z3.If(self.consuming, self.n - self.P(i), self.hi - i)


class DoneLoop(LoopSpec):
    """the first i acceptors have been called, in order"""
    calls = None

    def roles(self, ex, st, view):
        seg = lambda v, s: isinstance(v, Ptr) and isinstance(v.r, str) and v.r in st.mem and st.mem[v.r].kind == "array"
        isint = lambda v, s: s == 8 and not isinstance(v, (Ptr, Undef, Bundle, PtrInt)) and (isinstance(v, int) or z3.is_int(v))
        for kind, k in [("cur", k) for k in view.modified(seg)] + [("idx", k) for k in view.modified(isint)]:
            yield {kind: k}

    def i(self, view, roles):
        if "idx" in roles:
            return zi(view.cell(roles["idx"]))
        d = Lin.of(view.cell(roles["cur"]).o)
        if d.c % SIZE or any(k % SIZE for k, _ in d.t):
            raise Unsupported("pointer to an acceptor")
        return Lin(d.c // SIZE, [(k // SIZE, x) for k, x in d.t]).z()

    def inv(self, ex, st, view, roles):
        i = self.i(view, roles)
        return [("range", z3.And(i >= 0, i <= self.n)), ("called", strval(st, self.calls) == self.RUN(i))]

    def facts(self, ex, st, view, roles):
        i = self.i(view, roles)
        return self.unfold(i)

    def unfold(self, i):
        return [self.RUN(z3.IntVal(0)) == E0, z3.Implies(i >= 0, self.RUN(i + 1) == z3.Concat(self.RUN(i), z3.Unit(self.call(i))))]

    def call(self, i):
        return ACC(z3.Select(self.f[16], i), z3.Select(self.f[0], i), z3.Select(self.f[8], i))

    def variant(self, ex, st, view, roles):
        return self.n - self.i(view, roles)


FN = f"std::function<void ({SVD})>"


def prove_done(rep, mod, prefix):
    """done(): true exactly when matching has not failed and no text is left; the acceptors are then called in order, each with its own text; else none is called"""
    R = Rules(mod, rep, prefix)
    ex = Exec(mod, rep, prefix=prefix)
    sp = DoneLoop()
    ex.loop(r"std::for_each|uri::rule::done", None, sp)

    def call(ex, st, a, w, n):
        f = ex.load(st, a[0], ("i", 64), w)
        if not isinstance(a[2], Ptr):
            raise Unsupported("acceptor argument")
        setstr(st, sp.calls, z3.Concat(strval(st, sp.calls), z3.Unit(ACC(zi(f), zi(a[1]), a[2].addr()))))
        return [(st, UNDEF)]
    ex.contract("^(void )?" + re.escape(FN) + r"::operator\(\)\(", call)

    def setup(st):
        o, r = R.new_rule(ex, st, "rule")
        n = z3.Int("acceptor_count")
        st.assume(n >= 0, n < 2**50)
        a = ex.array(st, SIZE, {0: (8, "i"), 8: (8, "p"), 16: (8, "i")}, n, "acceptors")
        sp.n, sp.f = n, {k: v[2] for k, v in st.mem[a.r].fields.items()}
        reg = st.wr(o.r)
        for off, v in ((24, a), (32, Ptr(a.r, ex.lin(n * SIZE))), (40, Ptr(a.r, ex.lin(n * SIZE)))):
            reg.cells[off] = (8, v)
        sp.calls = ex.alloc(st, 8, "calls")
        setstr(st, sp.calls, E0)
        sp.RUN = z3.Function("calls_made", I, SeqI)
        st.dirty = set()
        return [o], (o, r)

    def post(ex, st, rv, c):
        o, (has, n, a, acc) = c
        b = zb(rv) if not isinstance(rv, int) else z3.BoolVal(bool(rv))
        ex.oblige(st, "done.true-iff-all-matched", b == z3.And(has, n == 0))
        for f in sp.unfold(z3.IntVal(0)):
            st.assume(f)
        ex.oblige(st, "done.calls-the-acceptors-in-order", z3.Implies(b, strval(st, sp.calls) == sp.RUN(sp.n)))
        ex.oblige(st, "done.else-calls-none", z3.Implies(z3.Not(b), strval(st, sp.calls) == E0))
        ex.oblige(st, "done.rule-unchanged", not any(d[0] == o.r for d in st.dirty))
    f = one(mod, r"^uri::rule::done\(\) const$")
    return verify(ex, f, setup, post, title=f.demangled, name="done")


def prove_matched(rep, mod, prefix):
    """matched(name, in): the text between the start of `in` and what is left, with this rule's acceptors; nothing if matching has failed"""
    R = Rules(mod, rep, prefix)
    ex = R.exec()

    def setup(st):
        ret = ex.alloc(st, SIZE, "ret")
        i, (h0, n0, a0, c0) = R.new_rule(ex, st, "in")
        o = ex.alloc(st, SIZE, "rule")
        k = z3.Int("consumed")
        h, acc = z3.Bool("rule_has"), z3.Const("rule_acceptors", SeqI)
        st.assume(k >= 0, k <= n0, z3.Implies(h, h0))
        st.wr(o.r).cells.update({0: (8, n0 - k), 8: (8, Ptr(TEXT, Lin.of(a0 + k))), 16: (1, h), 24: (24, acc)})
        nm, _ = ex.text(st, "name")
        return [ret, o, nm, i], (ret, h, k, a0, acc)

    def post(ex, st, rv, c):
        ret, h, k, a0, acc = c
        R.same(ex, st, "matched", R.result(ex, st, ret), h, k, a0, acc)
    f = one(mod, r"^uri::rule::matched\(char const\*, uri::rule const&\) const$")
    return verify(ex, f, setup, post, title=f.demangled, name="matched")


def prove_values(rep, mod, prefix):
    """construction, copy, move, assignment and tail() of a rule; the character classes"""
    R = Rules(mod, rep, prefix)

    def eq(ex, st, name, got, want):
        h, n, a, acc = want
        R.same(ex, st, name, got, h, n, a, acc)
        ex.oblige(st, name + ".all-acceptors", got[3] == acc)

    def wrap(fn, name, setup, post):
        ex = R.exec()
        f = one(mod, r"(^|[ ])verif::" + fn + r"\(")
        return verify(ex, f, lambda st: setup(ex, st), post, title="uri::rule: " + name, name=name)

    def s_new(ex, st):
        p, n = ex.text(st, "string")
        ret = ex.alloc(st, SIZE, "ret")
        return [ret, n, p], (ret, (z3.BoolVal(True), n, p.addr(), E0), None)

    def s_from(ex, st):
        ret = ex.alloc(st, SIZE, "ret")
        o, r = R.new_rule(ex, st, "rule")
        return [ret, o], (ret, r, o)

    def s_assign(ex, st):
        o, r = R.new_rule(ex, st, "target")
        s, q = R.new_rule(ex, st, "source")
        return [o, s], (o, q, s)

    def whole(name, keeps):
        def post(ex, st, rv, c):
            ret, want, src = c
            eq(ex, st, name, R.rule(ex, st, ret), want)
            if keeps and src is not None:
                eq(ex, st, name + ".source", R.rule(ex, st, src), want)
        return post
    for fn, name, s, keeps in (("n1", "construct", s_new, False), ("n2", "copy", s_from, True), ("n3", "move", s_from, False), ("n4", "copy-assign", s_assign, True), ("n5", "move-assign", s_assign, False)):
        wrap(fn, name, s, whole(name, keeps))

    def s_tail(ex, st):
        ret = ex.alloc(st, 24, "ret")
        o, r = R.new_rule(ex, st, "rule")
        return [ret, o], (ret, r, o)

    def p_tail(ex, st, rv, c):
        ret, (h, n, a, acc), o = c
        ex.oblige(st, "tail.has", model.flag(st, Ptr(ret.r, 16)) == h)
        if ex.feasible(st, h):
            v = model.get_view(st, ret)
            ex.oblige(st, "tail.text", z3.Implies(h, z3.And(v.n == n, z3.Or(n == 0, v.a == a))))
    wrap("t1", "tail", s_tail, p_tail)
    low = lambda c: z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
    rng = lambda c, *r: z3.Or(*[z3.And(c >= x, c <= y) for x, y in r])

    def cls(fn, name, k, cond):
        def setup(ex, st):
            ret = ex.alloc(st, SIZE, "ret")
            o, r = R.new_rule(ex, st, "rule")
            cs = [ex.D.fresh(st, "char", 8) for _ in range(k)]
            for c in cs:
                st.assume(c < 128)
            return [ret, o] + cs, (ret, r, cs)

        def post(ex, st, rv, c):
            ret, (h, n, a, acc), cs = c
            b = z3.Select(M, a)
            R.same(ex, st, name, R.result(ex, st, ret), z3.And(h, n > 0, cond(b, *cs)), z3.IntVal(1), a, E0)
        wrap(fn, name, setup, post)
    cls("c4", "single_char(char)", 1, lambda b, c: low(b) == low(c))
    cls("c5", "alpha", 0, lambda b: rng(b, (65, 90), (97, 122)))
    cls("c6", "digit", 0, lambda b: rng(b, (48, 57)))
    cls("c7", "hexdig", 0, lambda b: rng(b, (48, 57), (65, 70), (97, 102)))
    cls("c8", "free single_char", 1, lambda b, c: low(b) == low(c))
    cls("c9", "char_range", 2, lambda b, f, l: z3.And(low(f) <= low(b), low(b) <= low(l)))
    ex = Exec(mod, rep, prefix=prefix)
    f = one(mod, r"^uri::rule::accept_nop\(")

    def s_nop(st):
        p, n = ex.text(st, "str")
        st.dirty = set()
        return [n, p], None
    verify(ex, f, s_nop, lambda ex, st, rv, c: ex.oblige(st, "accept_nop.does-nothing", not any(not str(d[0]).startswith("r") for d in st.dirty)), title=f.demangled, name="accept_nop")


def combinators(rep, mod, work, prefix):
    """every contract of uri::rule that the grammar of `mod` relies on"""
    Rules(mod, rep, prefix).all_templates()
    lib = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/rule.cpp"), work))
    prove_done(rep, lib, prefix)
    prove_matched(rep, lib, prefix)
