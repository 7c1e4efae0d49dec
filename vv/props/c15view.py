"""C15: transcode_view over the transcoder contracts of c15.py.

A transcoder is an abstract value P (an integer cell in its place): N(P,c) units O(P,c,k) and the value STEP(P,c) on the
code unit c, EN(P) units EO(P,k) at the end. RUN(P,i) is all output for the code units from index i on. begin(), ++, *,
== and well_formed() of the view are proved to walk exactly RUN(INIT,0). The iterator's representation is not named: the
shape of a filled iterator is taken from executing begin(), with every cell that varies generalised."""
import re, z3
from ..common import *
from ..sym import *
from ..lib import *

I = z3.IntSort()
N, STEP, EN = z3.Function("N", I, I, I), z3.Function("STEP", I, I, I), z3.Function("EN", I, I)
O, EO, ENDP = z3.Function("O", I, I, I, I), z3.Function("EO", I, I, I), z3.Function("ENDP", I, I)
WFP, PART = z3.Function("WFP", I, z3.BoolSort()), z3.Function("PART", I, z3.BoolSort())
RUN = z3.Function("RUN", I, I, SeqI)
INIT = z3.IntVal(0)
LET = {"char8_t": "Du", "char16_t": "Ds", "char32_t": "Di"}
W = {"char8_t": 1, "char16_t": 2, "char32_t": 4}


def units(xs):
    return seqcat(*[z3.Unit(x) for x in xs])


class Shape(Exception):
    pass


class FillLoop(LoopSpec):
    """no output yet, and the output for the rest is unchanged"""

    def __init__(self, v):
        self.v = v

    def roles(self, ex, st, view):
        v = self.v
        nxt = view.modified(lambda x, s: isinstance(x, Ptr) and x.r == v.S.r)
        tc = view.modified(lambda x, s: s == v.tsize and z3.is_expr(x) and z3.is_int(x))
        for a in nxt:
            for t in tc:
                yield {"n": a, "t": t, "i0": v.idx(view.cell(a)), "p0": zi(view.cell(t))}

    def inv(self, ex, st, view, r):
        i, p = self.v.idx(view.cell(r["n"])), zi(view.cell(r["t"]))
        return [("range", z3.And(r["i0"] <= i, i <= self.v.n)), ("output", RUN(p, i) == RUN(r["p0"], r["i0"])),
                ("held-back", z3.Or(i == r["i0"], PART(p))), ("well_formed", z3.Implies(WFP(p), WFP(r["p0"])))]

    def facts(self, ex, st, view, r):
        return []

    def variant(self, ex, st, view, r):
        return self.v.n - self.v.idx(view.cell(r["n"]))

    def through(self, ex, st, view):
        return st.ghost.get("emitted", False) is True


class ViewProof:
    def __init__(self, mod, rep, F, T):
        self.mod, self.rep, self.F, self.T = mod, rep, F, T
        self.prefix = f"C15.view{8 * W[F]}to{8 * W[T]}."
        self.f = {}
        for n in mod.find(rf"^verif::W<{F}, {T}>::"):
            self.f[re.match(r"verif::W<[^>]*>::(\w+)\(", mod.dem(n)).group(1)] = mod.func(n)
        ex = Exec(mod, Report())
        for k in ("vsize", "isize", "tsize", "capacity"):
            setattr(self, k, int(ex.run(self.f[k], State(), [], top=True)[0][1]))

    def idx(self, p):
        o = Lin.of(p.o)
        w = W[self.F]
        return Lin(o.c // w, [(c // w, e) for c, e in o.t]).z()

    def exec(self):
        mod, F, T = self.mod, self.F, self.T
        ex = Exec(mod, self.rep, prefix=self.prefix)
        a, b = LET[F], LET[T]
        cls = rf"^_ZNK?7icubaby(7details12triangulator|10transcoder)I{a}{b}E"
        k = 0
        for nm in mod.funcs:
            for rx, h in ((cls + rf"clI.*P{b}E", self.h_step), (cls + rf"6end_cpI.*P{b}E", self.h_end), (cls + r"11well_formedEv", self.h_wf),
                          (cls + r"C[12]Ev$", self.h_new)):
                if re.search(rx, nm):
                    ex._hc[nm] = h
                    k += 1
        if k < 4:
            raise Unsupported("transcoder functions not found")
        ex.loop(r"::iterator::state::fill\(", None, FillLoop(self))
        return ex

    # -- contracts of the transcoder
    def tc(self, st, p):
        c = st.mem[p.r].cells.get(p.o)
        if c is None or c[0] != self.tsize or not (isinstance(c[1], int) or z3.is_expr(c[1])):
            raise Unsupported("transcoder object")
        return zi(c[1])

    def settc(self, ex, st, p, v):
        reg = st.wr(p.r)
        for o in [o for o in reg.cells if p.o <= o < p.o + self.tsize]:
            del reg.cells[o]
        reg.cells[p.o] = (self.tsize, v)
        st.dirty.add((p.r, p.o, self.tsize))

    def h_new(self, ex, st, a, w, n):
        self.settc(ex, st, a[0], INIT)
        st.assume(WFP(INIT), z3.Not(PART(INIT)), EN(INIT) == 0)
        return [(st, None)]

    def emit(self, ex, st, out, xs):
        for i, x in enumerate(xs):
            st.assume(x >= 0, x < 1 << (8 * W[self.T]))
            ex.store(st, Ptr(out.r, ladd(out.o, i * W[self.T])), x, ("i", 8 * W[self.T]), "transcoder-output")
        return Ptr(out.r, ladd(out.o, len(xs) * W[self.T]))

    def h_step(self, ex, st, a, w, n):
        p, c = self.tc(st, a[0]), zi(a[1])
        q = STEP(p, c)
        st.assume(N(p, c) >= 0, N(p, c) + EN(q) <= self.capacity, EN(q) >= 0, (EN(q) > 0) == PART(q), z3.Implies(N(p, c) == 0, PART(q)),
                  z3.Implies(WFP(q), WFP(p)))
        out = []
        for k in range(self.capacity + 1):
            s2 = st.copy()
            s2.assume(N(p, c) == k)
            if not ex.feasible(s2):
                continue
            self.settc(ex, s2, a[0], q)
            if k:
                s2.g("emitted", True)
            xs = [O(p, c, z3.IntVal(j)) for j in range(k)]
            i = self.cur(s2, c)
            if i is not None:
                s2.assume(RUN(p, i) == seqcat(units(xs), RUN(q, i + 1)))
            out.append((s2, self.emit(ex, s2, a[2], xs)))
        return out

    def cur(self, st, c):
        """the index c was read from"""
        if z3.is_select(c):
            return c.arg(1)
        raise Unsupported("the code unit given to the transcoder is not an element of the input")

    def h_end(self, ex, st, a, w, n):
        p = self.tc(st, a[0])
        st.assume(EN(p) >= 0, EN(p) <= self.capacity, (EN(p) > 0) == PART(p), z3.Implies(WFP(ENDP(p)), WFP(p)), RUN(p, self.n) == RUN(p, self.n))
        out = []
        for k in range(self.capacity + 1):
            s2 = st.copy()
            s2.assume(EN(p) == k)
            if not ex.feasible(s2):
                continue
            self.settc(ex, s2, a[0], ENDP(p))
            xs = [EO(p, z3.IntVal(j)) for j in range(k)]
            s2.assume(RUN(p, self.n) == units(xs))
            s2.g("ended", p)
            out.append((s2, self.emit(ex, s2, a[1], xs)))
        return out

    def h_wf(self, ex, st, a, w, n):
        return [(st, WFP(self.tc(st, a[0])))]

    # -- the input and the view
    def start(self, ex):
        st = State()
        self.n = z3.Int("n")
        st.assume(self.n >= 0, self.n < 2**32)
        w = W[self.F]
        self.S = ex.array(st, w, {0: (w, "i")}, self.n, "input")
        self.v = ex.alloc(st, self.vsize, "view")
        r = ex.run(self.f["make"], st, [self.v, Ptr(self.S.r, 0), Ptr(self.S.r, Lin(0, ((w, self.n),)))], top=True)
        if len(r) != 1:
            raise Unsupported("view constructor")
        return r[0][0]

    def at(self, i):
        return Ptr(self.S.r, Lin.of(0).add(i, W[self.F]) if not isinstance(i, int) else i * W[self.F])

    def wf(self, ex, st):
        for s, v in ex.run(self.f["wf"], st.copy(), [self.v], top=True):
            if ex.feasible(s):
                yield s, (v if z3.is_expr(v) else z3.BoolVal(bool(v)))

    def fill_of(self, st, it, i):
        """the filled iterator: (units in the buffer, next index, transcoder value)"""
        cells = st.mem[it.r].cells
        reads = lambda x: isinstance(x, Ptr) and x.r == self.S.r
        ptrs = [(o, x) for o, (s, x) in sorted(cells.items()) if reads(x)]
        tcs = [o for o, (s, x) in cells.items() if s == self.tsize and z3.is_expr(x) and z3.is_int(x) and (x.eq(INIT) or x.decl().name() in ("STEP", "ENDP") or str(x).startswith("h_") or str(x).startswith("gp"))]
        us = {}
        for o, (s, x) in cells.items():
            if s == W[self.T] and z3.is_expr(x) and z3.is_app(x) and x.decl().name() in ("O", "EO"):
                us[o] = x
        return ptrs, tcs, us

    def prove(self):
        mod, rep = self.mod, self.rep
        ex = self.exec()
        tname = f"transcode_view<{self.F}, {self.T}>"
        ex.fnstack = [tname + "::begin"]
        st = self.start(ex)
        shapes = {}
        it = ex.alloc(st, self.isize, "it")
        zero = z3.IntVal(0)
        endits = []
        for s, _ in ex.run(self.f["end"], st.copy(), [self.v, it], top=True):
            if ex.feasible(s):
                endits.append(s)
        viewcells = dict(st.mem[self.v.r].cells)
        vdiff = {}
        for s, _ in ex.run(self.f["begin"], st.copy(), [self.v, it], top=True):
            if not ex.feasible(s):
                continue
            full = ex.entails(s, self.n > 0)
            if not full and not ex.entails(s, self.n == 0):
                raise Unsupported("begin() on an empty range")
            for o, c in s.mem[self.v.r].cells.items():
                if c != viewcells.get(o) and not (z3.is_expr(c[1]) and z3.is_expr(viewcells[o][1]) and c[1].eq(viewcells[o][1])):
                    vdiff.setdefault(o, set()).add(c[1])
            if full:
                self.shape(ex, s, it, shapes)
            self.post_fill(ex, s, it, INIT, zero, z3.BoolVal(True), "begin", full)
        if not shapes:
            raise Unsupported("begin() fills nothing")
        # every cell that may vary between filled iterators
        self.vdiff = vdiff
        done = set()
        allout = set().union(*[set(sh["out"]) for sh in shapes.values()])
        ex.fnstack = [tname + "::iterator"]
        for k, sh in sorted(shapes.items()):
            for bad in (False, True):
                self.walk(ex, k, sh, shapes, allout, bad, tname)
        for fn in ("begin", "end", "iterator::operator++", "iterator::operator*", "iterator::operator==", "iterator::state::fill", "well_formed"):
            rep.functions[f"icubaby::ranges::{tname}::{fn}"] = "under contract"
        ex.flush()

    def shape(self, ex, s, it, shapes):
        """what a filled iterator with k units looks like"""
        cells = s.mem[it.r].cells
        out, ptrs, tc, rest = {}, {}, None, {}
        for o, (sz, x) in cells.items():
            if isinstance(x, Ptr) and x.r == self.S.r:
                ptrs[o] = "current" if ex.entails(s, self.idx(x) == 0) else "next"
            elif z3.is_expr(x) and z3.is_app(x) and x.decl().name() in ("O", "EO"):
                out[o] = x
            elif sz == self.tsize and z3.is_expr(x) and x.decl().name() in ("STEP", "ENDP"):
                tc = o
            else:
                if z3.is_expr(x):
                    c = ex.concretize(s, x)
                    x = x if c is None else c
                if isinstance(x, Ptr) and x.r == self.v.r:
                    x = Ptr("VIEW", x.o)
                rest[o] = (sz, x)
        k = len(out)
        sh = {"out": sorted(out), "ptrs": ptrs, "tc": tc, "rest": rest, "cells": {o: rest.get(o, c) for o, c in cells.items()}}
        if tc is None or sorted(ptrs.values()) != ["current", "next"]:
            raise Unsupported("iterator representation")
        old = shapes.get(k)
        if old is None:
            shapes[k] = sh
        elif (old["out"], old["ptrs"], old["tc"]) != (sh["out"], sh["ptrs"], sh["tc"]):
            raise Unsupported("iterator representation differs between paths")

    def matches(self, ex, s, it, shapes_out):
        pass

    def buffer(self, ex, s, it):
        """walk the real iterator: its units, by * and ++ as long as ++ does not fill; here read through the shape"""
        cells = s.mem[it.r].cells
        return [(o, x) for o, (sz, x) in sorted(cells.items()) if z3.is_expr(x) and z3.is_app(x) and x.decl().name() in ("O", "EO") and sz == W[self.T]]

    def post_fill(self, ex, s, it, p0, i0, wf0, name, full=True, fresh=None):
        """after a fill from (p0, i0): the units and the rest give RUN(p0, i0); current is i0"""
        cells = s.mem[it.r].cells
        ptrs = {o: x for o, (sz, x) in cells.items() if isinstance(x, Ptr) and x.r == self.S.r}
        cur = self.curof(ex, s, it, ptrs, i0)
        # at the end <=> equal to end()
        ob = lambda nm, phi, st=s: ex.oblige(st, f"{name}.{nm}", phi)
        e2 = ex.alloc(s, self.isize, "enditerator")
        for s2, _ in ex.run(self.f["end"], s.copy(), [self.v, e2], top=True):
            if not ex.feasible(s2):
                continue
            for s3, v in ex.run(self.f["eq"], s2, [it, e2], top=True):
                if ex.feasible(s3):
                    v = v if z3.is_expr(v) else z3.BoolVal(bool(v))
                    ob("end-iff-exhausted", v == (i0 == self.n), s3)
        if full:
            xs = [x for _, x in self.buffer(ex, s, it) if fresh is None or not any(x.eq(f) for f in fresh)]
            xs = self.order(xs)
            nxt = [x for o, x in ptrs.items() if o != cur]
            if len(nxt) != 1:
                raise Unsupported("iterator representation")
            ni = self.idx(nxt[0])
            q = [x for o, (sz, x) in cells.items() if sz == self.tsize and z3.is_expr(x) and z3.is_int(x) and x.decl().name() in ("STEP", "ENDP")]
            if len(q) != 1:
                raise Unsupported("transcoder in the iterator")
            ob("some-output", z3.BoolVal(len(xs) > 0))
            ob("progress", z3.And(ni > i0, ni <= self.n))
            ended = q[0].decl().name() == "ENDP"
            ob("ended", z3.BoolVal(ended) == (ni == self.n))
            tail = z3.Empty(SeqI) if ended else RUN(q[0], ni)
            ob("output", seqcat(units(xs), tail) == RUN(p0, i0))
            for s2, v in self.wf(ex, s):
                ex.oblige(s2, f"{name}.well_formed", v == z3.And(wf0, WFP(q[0])))

    def order(self, xs):
        """units in the order the contract wrote them (their place in memory is checked by walking with * and ++)"""
        key = lambda x: (0 if x.decl().name() == "O" else 1, x.arg(x.num_args() - 1).as_long())
        return sorted(xs, key=key)

    def curof(self, ex, s, it, ptrs, i0):
        c = [o for o, x in ptrs.items() if ex.entails(s, self.idx(x) == i0)]
        if len(c) == 2 and ex.entails(s, i0 == self.n):
            return min(c)
        if len(c) != 1:
            raise Unsupported("iterator representation: current")
        return c[0]

    def walk(self, ex, k, sh, shapes, allout, bad, tname):
        """a filled iterator with k units: * gives them in turn, ++ steps, and after the last ++ fills again"""
        st = self.start(ex)
        wf0 = z3.BoolVal(not bad)
        if bad:
            if len(self.vdiff) != 1:
                raise Unsupported("state of the view")
            o, vals = next(iter(self.vdiff.items()))
            if len(vals) != 1:
                raise Unsupported("state of the view")
            sz = st.mem[self.v.r].cells[o][0]
            st.wr(self.v.r).cells[o] = (sz, next(iter(vals)))
        for s2, v in self.wf(ex, st):
            ex.oblige(s2, "view.well_formed", v == wf0)
        it = ex.alloc(st, self.isize, "it")
        g = z3.Int("gp")
        i, j = z3.Ints("i j")
        st.assume(i >= 0, i < j, j <= self.n)
        st.assume(EN(g) >= 0, EN(g) <= self.capacity, (EN(g) > 0) == PART(g))
        reg = st.wr(it.r)
        us, fresh = [], []
        slots = {b for o in allout for b in range(o, o + W[self.T])}
        for o, (sz, x) in sh["cells"].items():
            if o in slots and o not in sh["out"]:
                continue
            if o in sh["ptrs"]:
                x = self.at(i if sh["ptrs"][o] == "current" else j)
            elif o == sh["tc"]:
                x = g
            elif o in sh["out"]:
                pass
            elif isinstance(x, Ptr) and x.r == "VIEW":
                x = Ptr(self.v.r, x.o)
            elif isinstance(x, Ptr):
                raise Unsupported("pointer in the iterator")
            elif z3.is_expr(x) and not z3.is_int_value(x):
                raise Unsupported("symbolic cell in the iterator")
            reg.cells[o] = (sz, x)
        order = {o: x for o, (sz, x) in sh["cells"].items() if o in sh["out"]}
        seq = self.order(list(order.values()))
        names = [z3.Int(f"u{t}") for t in range(k)]
        for o, x in order.items():
            t = [y.eq(x) for y in seq].index(True)
            reg.cells[o] = (W[self.T], names[t])
            st.assume(names[t] >= 0, names[t] < 1 << (8 * W[self.T]))
        for o in allout - set(sh["out"]):
            x = z3.Int(f"stale{o}")
            st.assume(x >= 0, x < 1 << (8 * W[self.T]))
            reg.cells[o] = (W[self.T], x)
        # the transcoder has been ended exactly when all input was read
        for d in range(k):
            for s2, v in ex.run(self.f["deref"], st.copy(), [it], top=True):
                if ex.feasible(s2):
                    ex.oblige(s2, f"deref.{k}.{d}", zi(v) == names[d])
            e2 = ex.alloc(st, self.isize, "e")
            for s2, _ in ex.run(self.f["end"], st.copy(), [self.v, e2], top=True):
                for s3, v in ex.run(self.f["eq"], s2, [it, e2], top=True):
                    if ex.feasible(s3):
                        ex.oblige(s3, f"not-at-end.{k}.{d}", z3.Not(v if z3.is_expr(v) else z3.BoolVal(bool(v))))
            st.g("emitted", False)
            nxt = []
            old = ex.alloc(st, self.isize, "old")
            for mode, full in (("inc", True), ("inc", False), ("post", True), ("post", False)):
                if d + 1 < k and not full:
                    continue
                s1 = st.copy()
                if d + 1 == k:
                    s1.assume(j < self.n if full else j == self.n)
                for s2, _ in ex.run(self.f[mode], s1, [it] + ([old] if mode == "post" else []), top=True):
                    if not ex.feasible(s2):
                        continue
                    if mode == "post":
                        for s3, v in ex.run(self.f["deref"], s2.copy(), [old], top=True):
                            if ex.feasible(s3):
                                ex.oblige(s3, f"post-increment.{k}.{d}", zi(v) == names[d])
                    if d + 1 < k:
                        if mode == "inc":
                            nxt.append(s2)
                        else:
                            for s3, v in ex.run(self.f["deref"], s2.copy(), [it], top=True):
                                if ex.feasible(s3):
                                    ex.oblige(s3, f"post-increment.next.{k}.{d}", zi(v) == names[d + 1])
                        continue
                    self.post_fill(ex, s2, it, g, j, wf0, f"{mode}.{k}", full)
                    if full:
                        self.same(ex, s2, it, shapes, f"{mode}.{k}")
            if d + 1 < k:
                if len(nxt) != 1:
                    raise Unsupported("++ inside the buffer")
                st = nxt[0]

    def same(self, ex, s, it, shapes, name):
        """the iterator is filled in the shape the induction assumes"""
        cells = s.mem[it.r].cells
        k = len(self.buffer(ex, s, it))
        sh = shapes.get(k)
        if sh is None:
            raise Unsupported("a fill of a size begin() never gives")
        if [o for o, _ in self.buffer(ex, s, it)] != sh["out"]:
            raise Unsupported("iterator representation after ++")
        slots = {b for t in shapes.values() for o in t["out"] for b in range(o, o + W[self.T])}
        for o, c in sh["rest"].items():
            if o in slots:
                continue
            d = cells.get(o)
            if o in sh["out"] or (d is not None and d[0] == W[self.T] and z3.is_expr(d[1]) and str(d[1]).startswith(("stale", "u"))):
                continue
            a, b = c[1], d[1] if d else None
            if isinstance(a, Ptr) and a.r == "VIEW":
                a = Ptr(self.v.r, a.o)
            eq = (isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.o == b.o) or (not isinstance(a, Ptr) and d is not None and not isinstance(b, (Ptr, Undef)) and not isinstance(a, Undef) and ex.entails(s, zi(a) == zi(b))) or (isinstance(a, Undef))
            if not eq:
                raise Unsupported(f"iterator representation after ++ at {o}: {a} {b}")
