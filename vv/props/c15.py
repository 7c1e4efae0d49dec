"""C15: Unicode transcoding. Each transcoder's step, end, well_formed and partial under contract against the Unicode
Standard's encoding forms (tables 3-5 to 3-7), in bit-vector mode (every code unit, every pending prefix).

The object's representation is not named here. A pending prefix p (the code units of an incomplete character) is
represented by any object whose bytes agree, on a mask of bits, with the bytes the constructor and then operator() on
the units of p leave behind; the mask is found by dropping the bits that a step does not keep in agreement, and the final
obligations are proved with the mask that remains. well_formed() and partial() are read through the real functions."""
import os, re, time, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir

U8, U16, U32_ = "char8_t", "char16_t", "char32_t"
BITS = {U8: 8, U16: 16, U32_: 32}
TAG = {U8: b"8", U16: b"f", U32_: b"p"}
TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "the transcription of Unicode tables 3-5 to 3-7 in vv/props/c15.py"]
CONFIRM = True   # the object relation is inferred: an obligation that fails counts when an input confirms it on the real code
ASSUMPTIONS = ["transcode_view is instantiated over an array of code units (std::ranges::subrange of pointers)", "the transcoder from std::byte (encoding detection) is outside the property"]


def bv(x, n=32):
    return z3.BitVecVal(x, n)


def x32(u):
    return z3.ZeroExt(32 - u.size(), u) if u.size() < 32 else u


def rng(u, a, b):
    u = x32(u)
    return z3.And(z3.UGE(u, a), z3.ULE(u, b))


def scalar(c):
    return z3.Or(z3.ULE(c, 0xD7FF), rng(c, 0xE000, 0x10FFFF))


# ---- the encoding forms ----------------------------------------------------------
def enc(T, c):
    """guarded encodings of the scalar c: [(condition, [units])]"""
    if T == U32_:
        return [(z3.BoolVal(True), [c])]
    if T == U16:
        d = c - 0x10000
        return [(z3.ULT(c, 0x10000), [z3.Extract(15, 0, c)]),
                (z3.UGE(c, 0x10000), [z3.Extract(15, 0, 0xD800 + z3.LShR(d, 10)), z3.Extract(15, 0, 0xDC00 + (d & 0x3FF))])]
    b = lambda lead, sh: z3.Extract(7, 0, lead | z3.LShR(c, sh))
    t = lambda sh: z3.Extract(7, 0, 0x80 | (z3.LShR(c, sh) & 0x3F))
    return [(z3.ULT(c, 0x80), [z3.Extract(7, 0, c)]),
            (rng(c, 0x80, 0x7FF), [b(0xC0, 6), t(0)]),
            (rng(c, 0x800, 0xFFFF), [b(0xE0, 12), t(6), t(0)]),
            (rng(c, 0x10000, 0x10FFFF), [b(0xF0, 18), t(12), t(6), t(0)])]


def proper(F, p):
    """p (non-empty) is a proper prefix of the encoding of some scalar"""
    if F == U32_ or not p:
        return z3.BoolVal(False)
    if F == U16:
        return rng(p[0], 0xD800, 0xDBFF) if len(p) == 1 else z3.BoolVal(False)
    a = p[0]
    if len(p) == 1:
        return rng(a, 0xC2, 0xF4)
    s = z3.And(rng(p[1], 0x80, 0xBF), z3.Implies(a == 0xE0, rng(p[1], 0xA0, 0xBF)), z3.Implies(a == 0xED, rng(p[1], 0x80, 0x9F)),
               z3.Implies(a == 0xF0, rng(p[1], 0x90, 0xBF)), z3.Implies(a == 0xF4, rng(p[1], 0x80, 0x8F)))
    if len(p) == 2:
        return z3.And(rng(a, 0xE0, 0xF4), s)
    if len(p) == 3:
        return z3.And(rng(a, 0xF0, 0xF4), s, rng(p[2], 0x80, 0xBF))
    return z3.BoolVal(False)


def complete(F, u):
    """u is the encoding of one scalar"""
    if F == U32_:
        return scalar(u[0]) if len(u) == 1 else z3.BoolVal(False)
    if F == U16:
        if len(u) == 1:
            return z3.Not(rng(u[0], 0xD800, 0xDFFF))
        return z3.And(proper(F, u[:1]), rng(u[1], 0xDC00, 0xDFFF)) if len(u) == 2 else z3.BoolVal(False)
    if len(u) == 1:
        return rng(u[0], 0, 0x7F)
    lead = {2: (0xC2, 0xDF), 3: (0xE0, 0xEF), 4: (0xF0, 0xF4)}.get(len(u))
    if lead is None:
        return z3.BoolVal(False)
    return z3.And(rng(u[0], *lead), proper(F, u[:-1]), rng(u[-1], 0x80, 0xBF), *([proper(F, u[:1] + [u[1]])] if len(u) > 2 else []),
                  *([_second(u)] if len(u) == 3 else []))


def _second(u):
    return z3.And(z3.Implies(u[0] == 0xE0, rng(u[1], 0xA0, 0xBF)), z3.Implies(u[0] == 0xED, rng(u[1], 0x80, 0x9F)))


def dec(F, u):
    """the scalar that u (complete) encodes"""
    x = [x32(v) for v in u]
    if F == U32_ or len(u) == 1:
        return x[0]
    if F == U16:
        return 0x10000 + ((x[0] - 0xD800) << 10) + (x[1] - 0xDC00)
    r = x[0] & {2: 0x1F, 3: 0x0F, 4: 0x07}[len(u)]
    for v in x[1:]:
        r = (r << 6) | (v & 0x3F)
    return r


def splits(n, longest):
    """ways to cut n units into characters"""
    if n == 0:
        return [[]]
    return [[k] + r for k in range(1, min(n, longest) + 1) for r in splits(n - k, longest)]


FFFD = {U8: [0xEF, 0xBF, 0xBD], U16: [0xFFFD], U32_: [0xFFFD]}


def units_are(out, want):
    return z3.BoolVal(False) if len(out) != len(want) else z3.And([x == w for x, w in zip(out, want)] or [z3.BoolVal(True)])


def marked(T, out, most, tail=()):
    """out is U+FFFD once or more (at most `most` times), then tail"""
    w = FFFD[T]
    n = len(out) - len(tail)
    if n <= 0 or n % len(w) or n // len(w) > most:
        return z3.BoolVal(False)
    return units_are(out, w * (n // len(w)) + list(tail))


def error_text(F, T, p, c, out):
    """what a step may write for the unit c after the pending p when p + [c] begins no character: U+FFFD, then c itself when
    the conversion resumes with it. For UTF-16 and UTF-32 there is one U+FFFD for each ill-formed unit, and no other choice."""
    if F == U32_ or (F == U16 and not p):
        return marked(T, out, 1)
    own = [z3.And(complete(F, [c]), cond, marked(T, out, 9, u)) for cond, u in enc(T, x32(c))]
    if F == U16:
        own = [z3.And(cond, marked(T, out, 1, u)) for cond, u in enc(T, x32(c))]
        return z3.If(complete(F, [c]), z3.Or(own), marked(T, out, 1))
    return z3.Or(marked(T, out, 9), *own)


# ---- one transcoder ------------------------------------------------------------
class Coder:
    def __init__(self, mod, rep, F, T):
        self.mod, self.rep, self.F, self.T = mod, rep, F, T
        self.K = {U8: 3, U16: 1, U32_: 0}[F]
        self.pfx = f"C15.{BITS[F]}to{BITS[T]}."
        fs = {}
        for n in mod.find(rf"^verif::X<{F}, {T}>::"):
            fs[re.match(r"verif::X<[^>]*>::(\w+)\(", mod.dem(n)).group(1)] = mod.func(n)
        self.f = fs
        self.quiet = Report()
        self.size = self.const("size")
        self.cap = self.const("capacity")
        self.p = [z3.BitVec(f"p{i}", BITS[F]) for i in range(self.K)]
        self.c = z3.BitVec("c", BITS[F])
        self.mask = [[0xFF] * self.size for _ in range(self.K + 1)]

    def exec(self, rep=None):
        ex = Exec(self.mod, rep or self.quiet, BVD, prefix=self.pfx)
        ex.max_unroll = 12

        def push(ex, st, a, w, n):
            v = a[1]
            st.g("out", st.ghost["out"] + (ex.D.z(v, BITS[self.T]),))
            return [(st, None)]
        ex.contract(r"^verif::Sink<.*>::push_back\(", push)
        return ex

    def const(self, nm):
        ex = self.exec()
        r = ex.run(self.f[nm], State(), [], top=True)
        return int(r[0][1])

    def obj(self, ex, st, pre):
        o = ex.alloc(st, self.size, "transcoder")
        b = [z3.BitVec(f"{pre}{i}", 8) for i in range(self.size)]
        st.wr(o.r).cells = {i: (1, x) for i, x in enumerate(b)}
        return o, b

    def bytes(self, ex, st, o):
        out = []
        for i in range(self.size):
            v = ex.load(st, Ptr(o.r, o.o + i), ("i", 8), "spec")
            cells = st.mem[o.r].cells
            if isinstance(v, Undef) or isinstance(v, Bundle):
                v = z3.BitVec(ex.uniq("undef"), 8)
            if isinstance(v, (int, bool)):
                v = bv(int(v), 8)
            if v.size() != 8:
                raise Unsupported("object byte")
            out.append(v)
        return out

    def refs(self):
        """bytes the constructor and the steps over p leave behind, per length of p"""
        ex = self.exec()
        st = State()
        st.g("out", ())
        o, _ = self.obj(ex, st, "u")
        paths = [s for s, _ in ex.run(self.f["create"], st, [o], top=True)]
        self.created = paths
        self.ref = []
        for k in range(self.K + 1):
            self.ref.append(self.merge(ex, paths, o, k))
            if k == self.K:
                break
            nxt = []
            for s in paths:
                s = s.copy()
                s.assume(proper(self.F, self.p[:k + 1]))
                if ex.feasible(s):
                    nxt += [t for t, _ in ex.run(self.f["step"], s, [o, self.p[k]], top=True)]
            if not nxt:
                raise Unsupported("no path over a proper prefix")
            paths = nxt

    def merge(self, ex, paths, o, k):
        base = None
        for s in paths:
            b = self.bytes(ex, s, o)
            cond = z3.And(s.pc) if s.pc else z3.BoolVal(True)
            base = b if base is None else [z3.If(cond, x, y) for x, y in zip(b, base)]
        return [z3.simplify(x) for x in base]

    def at(self, k, p):
        sub = list(zip(self.p[:k], p))
        return [z3.substitute(r, *sub) if sub else r for r in self.ref[k]]

    def R(self, k, p, b):
        return z3.And([x & m == y & m for x, y, m in zip(b, self.at(k, p), self.mask[k]) if m] or [z3.BoolVal(True)])

    def boolfn(self, ex, st, nm, o):
        for s2, v in ex.run(self.f[nm], st.copy(), [o], top=True):
            if ex.feasible(s2):
                yield s2, (v if z3.is_expr(v) else z3.BoolVal(bool(v)))

    def start(self, ex, k, pre="b"):
        st = State()
        st.g("out", ())
        o, b = self.obj(ex, st, pre)
        st.assume(proper(self.F, self.p[:k]) if k else z3.BoolVal(True), self.R(k, self.p[:k], b))
        return st, o, b

    def rel(self, ex, st, name, o, k, p, cond=None):
        """oblige R_k; when that fails, drop the bits that differ (until the masks are final)"""
        b = self.bytes(ex, st, o)
        while True:
            phi = self.R(k, p, b)
            if cond is not None:
                phi = z3.Implies(cond, phi)
            if self.final:
                ex.oblige(st, name, phi)
                return
            r, m = ex.check(st, z3.Not(phi), 20000)
            if r == z3.unsat:
                return
            if r == z3.unknown:
                raise Unsupported("mask search")
            ev = lambda e: m.eval(e, model_completion=True).as_long()
            before = list(self.mask[k])
            for i, (x, y) in enumerate(zip(b, self.at(k, p))):
                self.mask[k][i] &= 0xFF & ~(ev(x) ^ ev(y))
            if before == self.mask[k]:
                raise Unsupported("mask search does not progress")
            self.changed = True

    def outputs(self, ex, st, mode, ret, o2):
        if mode in ("step", "stepi", "end", "endi"):
            return list(st.ghost["out"])
        if not isinstance(ret, Ptr) or ret.r != o2.r or not isinstance(ret.o, int):
            raise Unsupported("output iterator")
        w = BITS[self.T] // 8
        n = ret.o // w
        out = []
        for i in range(n):
            v = ex.load(st, Ptr(o2.r, i * w), ("i", 8 * w), "spec")
            if isinstance(v, Undef):
                ex.oblige(st, "output-written", z3.BoolVal(False))
                raise Dead()
            out.append(ex.D.z(v, 8 * w))
        return out

    def hints(self, units, extra=()):
        w = BITS[self.F] // 8

        def h(m):
            bs = b"".join(m.eval(u, model_completion=True).as_long().to_bytes(w, "little") for u in units)
            bads = {1: [b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x90\x80"], 2: [b"\x00\xdc", b"\x00\xd8", b"\xff\xdb"], 4: [b"\x00\xd8\x00\x00"]}[w]
            asc = b"A" + bytes(w - 1)
            return [[TAG[self.F], x] for x in (bs, bs + asc, asc + bs, *[b + bs + t for b in bads for t in (b"", asc)])]
        return h

    def ob(self, ex, st, name, phi):
        if self.final:
            ex.oblige(st, name, phi)

    def step(self, ex, k, mode):
        F, T, p, c = self.F, self.T, self.p[:k], self.c
        st, o, b = self.start(ex, k)
        nm = f"{mode}.pending{k}."
        ex.hint = self.hints(p + [c])
        ex.fnstack = [f"icubaby::transcoder<{F}, {T}>::operator()" + {"step": " (back_insert_iterator)", "stepi": " through icubaby::iterator", "stepa": " (array iterator)"}[mode]]
        args = [o, c]
        o2 = None
        if mode == "stepa":
            o2 = ex.alloc(st, self.cap * BITS[T] // 8, "out")
            args.append(o2)
        rets = []
        for s0, wf0 in list(self.boolfn(ex, st, "wf", o)):
            for s1, rv in ex.run(self.f[mode], s0, args, top=True):
                if ex.feasible(s1):
                    rets.append((s1, rv, wf0))
        if not rets and not any(x[2] == FAILED for x in ex.buf):
            raise Unsupported("no path")
        comp, prop = complete(F, p + [c]), proper(F, p + [c])
        good = z3.Or(comp, prop)
        for s1, rv, wf0 in rets:
            out = self.outputs(ex, s1, mode, rv, o2)
            # an encoding of the scalar just completed
            cp = dec(F, p + [c])
            ok = z3.Or([z3.And(cond, *[x == y for x, y in zip(out, u)]) for cond, u in enc(T, cp) if len(u) == len(out)] or [z3.BoolVal(False)])
            self.ob(ex, s1, nm + "exact", z3.Implies(comp, ok))
            self.ob(ex, s1, nm + "holds-back", z3.Implies(prop, z3.BoolVal(len(out) == 0)))
            self.ob(ex, s1, nm + "error-marked", z3.Or(good, error_text(F, T, p, c, out)))
            for s2, wf1 in self.boolfn(ex, s1, "wf", o):
                self.ob(ex, s2, nm + "well_formed", wf1 == z3.And(wf0, good))
            for s2, part in self.boolfn(ex, s1, "part", o):
                resumes = [z3.Implies(z3.And(z3.Not(good), proper(F, [c])), part)] if F == U16 else []
                # a unit already written is not pending as well
                resumes.append(z3.Implies(z3.And(z3.Not(good), part), marked(T, out, 9)))
                self.ob(ex, s2, nm + "partial", z3.And(z3.Implies(comp, z3.Not(part)), z3.Implies(prop, part),
                                                     z3.Implies(part, z3.Or(good, proper(F, [c]))), *resumes))
                if k + 1 <= self.K:
                    self.rel(ex, s2, nm + "state-pending", o, k + 1, p + [c], prop)
                self.rel(ex, s2, nm + "state-empty", o, 0, [], z3.And(z3.Not(prop), z3.Not(part)))
                if self.K:
                    self.rel(ex, s2, nm + "state-restart", o, 1, [c], z3.And(z3.Not(good), part))

    def end(self, ex, k, mode):
        F, T, p = self.F, self.T, self.p[:k]
        st, o, b = self.start(ex, k)
        nm = f"{mode}.pending{k}."
        ex.hint = self.hints(p)
        ex.fnstack = [f"icubaby::transcoder<{F}, {T}>::end_cp" + {"end": " (back_insert_iterator)", "endi": " through icubaby::iterator", "enda": " (array iterator)"}[mode]]
        args = [o]
        o2 = None
        if mode == "enda":
            o2 = ex.alloc(st, self.cap * BITS[T] // 8, "out")
            args.append(o2)
        live = False
        for s0, wf0 in list(self.boolfn(ex, st, "wf", o)):
            for s1, rv in ex.run(self.f[mode], s0, args, top=True):
                if not ex.feasible(s1):
                    continue
                live = True
                out = self.outputs(ex, s1, mode, rv, o2)
                if k == 0:
                    ex.oblige(s1, nm + "no-output", z3.BoolVal(not out))
                else:
                    ex.oblige(s1, nm + "error-marked", marked(T, out, 9 if F == U8 else 1))
                for s2, wf1 in self.boolfn(ex, s1, "wf", o):
                    ex.oblige(s2, nm + "well_formed", wf1 == (wf0 if k == 0 else z3.BoolVal(False)))
        if not live:
            raise Unsupported("no path")

    def capacity(self, ex, k):
        """a step followed by end_cp fits the buffer transcode_view gives it (each store is checked against it)"""
        st, o, b = self.start(ex, k)
        ex.hint = self.hints(self.p[:k] + [self.c])
        ex.fnstack = [f"icubaby::transcoder<{self.F}, {self.T}>: output of one step and end_cp"]
        o2 = ex.alloc(st, self.cap * BITS[self.T] // 8, "out")
        for s1, rv in ex.run(self.f["stependa"], st, [o, self.c, o2], top=True):
            if ex.feasible(s1):
                n = len(self.outputs(ex, s1, "stependa", rv, o2))
                ex.oblige(s1, f"capacity.pending{k}", z3.BoolVal(n <= self.cap))

    def observers(self, ex, k):
        """partial() is p != []; a fresh transcoder is well-formed"""
        st, o, b = self.start(ex, k)
        ex.hint = self.hints(self.p[:k])
        ex.fnstack = [f"icubaby::transcoder<{self.F}, {self.T}>::partial"]
        for s2, part in self.boolfn(ex, st, "part", o):
            ex.oblige(s2, f"partial.pending{k}", part == z3.BoolVal(k > 0))
        if k == 0:
            ex.fnstack = [f"icubaby::transcoder<{self.F}, {self.T}>::transcoder"]
            st = State()
            st.g("out", ())
            o, _ = self.obj(ex, st, "u")
            for s1, _ in ex.run(self.f["create"], st, [o], top=True):
                self.rel(ex, s1, "create.state", o, 0, [])
                for s2, wf in self.boolfn(ex, s1, "wf", o):
                    ex.oblige(s2, "create.well_formed", wf)

    def prove(self):
        self.final = False
        self.refs()
        t0 = time.time()
        for it in range(40):
            self.changed = False
            if time.time() - t0 > 60:
                raise Unsupported("mask search: time")
            ex = self.exec()
            for k in range(self.K + 1):
                self.step(ex, k, "step")
            if not self.changed:
                break
        else:
            raise Unsupported("mask search")
        self.final = True
        ex = self.exec(self.rep)
        for k in range(self.K + 1):
            self.step(ex, k, "step")
            if any(x[2] == FAILED for x in ex.buf):
                ex.flush()
                return False   # the rest rests on this
            for mode in ("stepi", "stepa"):
                self.step(ex, k, mode)
            for mode in ("end", "endi", "enda"):
                self.end(ex, k, mode)
            self.capacity(ex, k)
            self.observers(ex, k)
        for n in ("operator()", "end_cp", "well_formed", "partial"):
            self.rep.functions[f"icubaby::transcoder<{self.F}, {self.T}>::{n}"] = "under contract"
        ex.fnstack = []
        ex.flush()
        return True


def lemmas(rep):
    """the specification itself: decode after encode is the identity, encodings are complete, prefix-free"""
    from ..sym import Exec
    c = z3.BitVec("c", 32)

    def ob(name, phi):
        s = z3.Solver()
        s.set("timeout", SLOW_MS)
        s.add(z3.Not(phi))
        t = time.time()
        r = s.check()
        rep.add("C15.lemma." + name, "encoding forms", PROVED if r == z3.unsat else FAILED if r == z3.sat else UNDECIDED, "z3", time.time() - t, "")
    for T in (U8, U16, U32_):
        n = BITS[T]
        ob(f"roundtrip{n}", z3.Implies(scalar(c), z3.And([z3.Implies(g, z3.And(complete(T, u), dec(T, u) == c)) for g, u in enc(T, c)])))
        ob(f"total{n}", z3.Implies(scalar(c), z3.Or([g for g, _ in enc(T, c)])))
        for k in range(1, {U8: 4, U16: 2, U32_: 1}[T] + 1):
            u = [z3.BitVec(f"u{i}", n) for i in range(k)]
            ob(f"decodes{n}.{k}", z3.Implies(complete(T, u), z3.And(scalar(dec(T, u)), z3.Or([z3.And(g, *[x == y for x, y in zip(u, v)]) for g, v in enc(T, dec(T, u)) if len(v) == k]))))
            ob(f"prefixfree{n}.{k}", z3.Implies(complete(T, u), z3.And([z3.Not(complete(T, u[:j])) for j in range(1, k)] + [proper(T, u[:j]) for j in range(1, k)])))
            ob(f"proper{n}.{k}", z3.Not(z3.And(complete(T, u), proper(T, u))))


def prove(rep, work):
    mod = ir.Module(ir.emit(os.path.join(VERIF, "tu/ucs.cpp"), work))
    lemmas(rep)
    from .c15view import ViewProof
    for F in (U8, U16, U32_):
        for T in (U8, U16, U32_):
            try:
                ViewProof(mod, rep, F, T).prove()
            except Unsupported as e:
                rep.undecided(f"C15.view{BITS[F]}to{BITS[T]}", f"icubaby::ranges::transcode_view<{F}, {T}>", str(e))
    for F in (U8, U16, U32_):
        for T in (U8, U16, U32_):
            try:
                if not Coder(mod, rep, F, T).prove():
                    return
            except Unsupported as e:
                rep.undecided(f"C15.{BITS[F]}to{BITS[T]}", f"icubaby::transcoder<{F}, {T}>", str(e))
