"""Symbolic execution of LLVM IR with contracts: the obligation generator of the deductive part.

Every function is executed from its IR; a call is replaced by the callee's contract where one is registered and
executed otherwise. Loops are cut at their header with an invariant (LoopSpec) or executed when every branch is decided.
Obligations go to z3; `sat` is a failed obligation, `unknown` an undecided one.
"""
import re, time, itertools
import z3
from .common import *
from . import ir

TEXT, NULL = "text", "null"
FAST_MS, SLOW_MS = 4000, 20000


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Lin:
    """const + sum(coeff * term), term a z3 expression."""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=()):
        self.c, self.t = c, tuple(t)

    @staticmethod
    def of(x):
        return x if isinstance(x, Lin) else Lin(x) if isinstance(x, int) else Lin(0, ((1, x),))

    def add(self, o, k=1):
        o = Lin.of(o)
        d = {}
        for c, e in self.t:
            d[e.get_id()] = [c, e]
        for c, e in o.t:
            if e.get_id() in d:
                d[e.get_id()][0] += k * c
            else:
                d[e.get_id()] = [k * c, e]
        r = Lin(self.c + k * o.c, [(c, e) for c, e in d.values() if c])
        return r.c if not r.t else r

    def scale(self, k):
        r = Lin(self.c * k, [(c * k, e) for c, e in self.t if c * k])
        return r.c if not r.t else r

    def z(self):
        r = z3.IntVal(self.c) if self.c or not self.t else None
        for c, e in self.t:
            if z3.is_bv(e):
                e = z3.BV2Int(e)
            x = e if c == 1 else c * e
            r = x if r is None else r + x
        return r

    def __repr__(self):
        return f"{self.c}+{self.t}"


def ladd(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    return Lin.of(a).add(b, k)


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o=0):
        self.r, self.o = r, o

    def __repr__(self):
        return f"&{self.r}[{self.o}]"

    def addr(self):
        """z3 Int address of a text pointer (null is 0)."""
        if self.r == NULL:
            return z3.IntVal(0)
        return zi(self.o)


def zi(x):
    if isinstance(x, Lin):
        return x.z()
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


NULLP = Ptr(NULL, 0)


class Region:
    """Bytes laid out as scalar cells at concrete offsets."""
    __slots__ = ("size", "cells", "name", "const")
    kind = "cells"

    def __init__(self, size, name="", cells=None, const=False):
        self.size, self.name, self.cells, self.const = size, name, dict(cells or {}), const

    def copy(self):
        return Region(self.size, self.name, self.cells, self.const)


class Array:
    """elem-sized records, fields held in z3 arrays: fields[off] = (size, kind, z3 array); kind 'i' or 'p' (text pointer)."""
    __slots__ = ("elem", "fields", "n", "name")
    kind = "array"

    def __init__(self, elem, fields, n, name=""):
        self.elem, self.fields, self.n, self.name = elem, dict(fields), n, name

    def copy(self):
        return Array(self.elem, self.fields, self.n, self.name)


class State:
    __slots__ = ("mem", "pc", "ghost", "dirty", "readable", "own", "facts")

    def __init__(self):
        self.mem, self.pc, self.ghost, self.dirty, self.readable, self.own = {}, [], {}, set(), [], set()
        self.facts = {}

    def copy(self):
        s = State.__new__(State)
        s.mem, s.pc, s.ghost, s.dirty, s.readable, s.own = dict(self.mem), list(self.pc), dict(self.ghost), set(self.dirty), list(self.readable), set()
        s.facts = dict(self.facts)
        self.own = set()
        return s

    def assume(self, *ps):
        for p in ps:
            if isinstance(p, bool):
                if p:
                    continue
                p = z3.BoolVal(False)
            self.pc.append(p)
        return self

    def wr(self, rid):
        """Region for writing (copy on write)."""
        if rid not in self.own:
            self.mem[rid] = self.mem[rid].copy()
            self.own.add(rid)
        return self.mem[rid]

    def g(self, k, v):
        self.ghost[k] = v
        self.dirty.add(("ghost", k))


M = z3.Array("M", z3.IntSort(), z3.IntSort())  # the immutable text memory
SeqI = z3.SeqSort(z3.IntSort())
Tf = z3.Function("T", z3.IntSort(), z3.IntSort(), SeqI)  # T(a, n): the n bytes of text at a


def is01(e):
    """If(b,1,0) -> b"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = e.arg(1), e.arg(2)
        if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0:
            return e.arg(0)
        if z3.is_bv_value(a) and z3.is_bv_value(b) and a.as_long() == 1 and b.as_long() == 0:
            return e.arg(0)
    return None


class IntD:
    """Machine integers as mathematical integers in [0, 2^n); wrap-around is modelled, never assumed away."""
    bv = False

    def __init__(self, ex):
        self.ex = ex

    def fresh(self, st, name, n):
        v = z3.Int(self.ex.uniq(name))
        if n == 1:
            return z3.Bool(self.ex.uniq(name))
        st.assume(v >= 0, v < (1 << n))
        return v

    def signed(self, st, a, n):
        """value as a signed integer expression"""
        h = 1 << (n - 1)
        if isinstance(a, int):
            return a - (1 << n) if a >= h else a
        if self.ex.entails(st, a < h):
            return a
        return z3.If(a >= h, a - (1 << n), a)

    def canon(self, st, s, n):
        """signed-or-unsigned mathematical value -> [0, 2^n)"""
        if isinstance(s, int):
            return s % (1 << n)
        m = 1 << n
        if self.ex.entails(st, z3.And(s >= 0, s < m)):
            return s
        if self.ex.entails(st, z3.And(s >= -m, s < m)):
            return z3.If(s < 0, s + m, s)
        if self.ex.entails(st, z3.And(s >= 0, s < 2 * m)):
            return z3.If(s >= m, s - m, s)
        return s % m

    def bin(self, st, op, a, b, n, flags, where):
        ex = self.ex
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if n == 1:
            A = zb(a == 1) if isinstance(a, int) else a
            B = zb(b == 1) if isinstance(b, int) else b
            r = {"xor": lambda: z3.Xor(A, B), "and": lambda: z3.And(A, B), "or": lambda: z3.Or(A, B)}.get(op)
            if r is None:
                raise Unsupported("i1 " + op)
            r = z3.simplify(r())
            return z3.is_true(r) if z3.is_true(r) or z3.is_false(r) else r
        if isinstance(a, int) and isinstance(b, int):
            return conc_bin(op, a, b, n, flags, ex, st, where)
        m = 1 << n
        if "nsw" in flags and op in ("add", "sub", "mul"):
            sa, sb = self.signed(st, a, n), self.signed(st, b, n)
            r = sa + sb if op == "add" else sa - sb if op == "sub" else sa * sb
            h = 1 << (n - 1)
            ex.oblige(st, where + ".signed-overflow", z3.And(r >= -h, r < h))
            return self.canon(st, r, n)
        if op == "add":
            r = a + b
            if isinstance(b, int) and b >= m // 2:
                return self.canon(st, a + (b - m), n)
            return self.canon(st, r, n)
        if op == "sub":
            return self.canon(st, a - b, n)
        if op == "mul":
            if ex.nl and not isinstance(a, int) and not isinstance(b, int):
                return self.canon(st, ex.nl.mul(ex, st, a, b), n)
            return self.canon(st, a * b, n)
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not isinstance(b, int):
                ex.oblige(st, where + ".div-by-zero", b != 0)
            elif b == 0:
                ex.oblige(st, where + ".div-by-zero", z3.BoolVal(False))
            if op[0] == "s":
                if isinstance(b, int) and b < m // 2:
                    sa = self.signed(st, a, n)
                    if ex.entails(st, sa >= 0):
                        return sa / b if op == "sdiv" else sa % b
                    if op == "sdiv":
                        q = z3.If(sa >= 0, sa / b, -((-sa) / b))
                        return self.canon(st, q, n)
                    return self.canon(st, z3.If(sa >= 0, sa % b, -((-sa) % b)), n)
                raise Unsupported("signed division by a variable")
            if ex.nl and not isinstance(b, int):
                return (ex.nl.div if op == "udiv" else ex.nl.rem)(ex, st, zi(a), b)
            a, b = zi(a), zi(b)
            return a / b if op == "udiv" else a % b
        if op == "shl" and isinstance(b, int):
            return self.canon(st, a * (1 << b), n)
        if op == "lshr" and isinstance(b, int):
            return a / (1 << b)
        if op == "ashr" and isinstance(b, int):
            return self.canon(st, self.signed(st, a, n) / (1 << b), n)
        if op == "and":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                r, i = 0, 0
                while b >> i:
                    if (b >> i) & 1:
                        j = i
                        while (b >> j) & 1:
                            j += 1
                        x = a if i == 0 else a / (1 << i)
                        r = r + (x % (1 << (j - i)) if j < n else x) * (1 << i)
                        i = j
                    else:
                        i += 1
                return r if not isinstance(r, int) else r
        if op == "xor":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == m - 1:
                    return (m - 1) - a
                x = is01(a)
                if b == 1 and x is not None:
                    return z3.If(x, z3.IntVal(0), z3.IntVal(1))
                if b == 1:
                    return z3.If(a % 2 == 1, a - 1, a + 1)
        if op == "or":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 0:
                return a
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    continue
                for k in (4, 6, 8, 12, 16, 18, 24, 32):
                    if k < n and ex.entails(st, z3.And(zi(x) % (1 << k) == 0, zi(y) < (1 << k))):
                        return x + y
        if n <= 32 and op in ("and", "or", "xor"):
            f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
            return z3.BV2Int(f(z3.Int2BV(zi(a), n), z3.Int2BV(zi(b), n)))
        raise Unsupported(f"{op} on symbolic integers at {where}")

    def icmp(self, st, pred, a, b, n):
        if n == 1:
            A, B = zb(bool(a)) if isinstance(a, (int, bool)) else a, zb(bool(b)) if isinstance(b, (int, bool)) else b
            if pred in ("eq", "ne"):
                r = z3.simplify(A == B)
                if pred == "ne":
                    r = z3.simplify(z3.Not(r))
                return z3.is_true(r) if z3.is_true(r) or z3.is_false(r) else r
            raise Unsupported("i1 icmp " + pred)
        if pred[0] == "s":
            a, b = self.signed(st, a, n), self.signed(st, b, n)
        r = cmp(pred, a, b)
        return r

    def ext(self, st, v, a, b, signed):
        if a == 1:
            if isinstance(v, (bool, int)):
                return ((1 << b) - 1 if signed else 1) if v else 0
            return z3.If(v, z3.IntVal((1 << b) - 1 if signed else 1), z3.IntVal(0))
        if signed:
            return self.canon(st, self.signed(st, v, a), b)
        return v

    def trunc(self, st, v, a, b):
        if isinstance(v, int):
            v %= 1 << b
            return bool(v) if b == 1 else v
        if b == 1:
            x = is01(v)
            if x is not None:
                return x
            return v % 2 == 1
        if self.ex.entails(st, v < (1 << b)):
            return v
        return v % (1 << b)

    def ite(self, c, a, b):
        return z3.If(c, zi(a), zi(b))

    def eqc(self, e, k):
        return e == k

    def toint(self, v, n=None):
        return zi(v)


def cmp(pred, a, b):
    p = pred[-2:] if pred not in ("eq", "ne") else pred
    f = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[p]
    r = f()
    if isinstance(r, bool):
        return r
    r = z3.simplify(r) if z3.is_expr(r) else r
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def conc_bin(op, a, b, n, flags, ex, st, where):
    m = 1 << n
    sg = lambda x: x - m if x >= m // 2 else x
    if "nsw" in flags and op in ("add", "sub", "mul"):
        r = {"add": sg(a) + sg(b), "sub": sg(a) - sg(b), "mul": sg(a) * sg(b)}[op]
        if not -(m // 2) <= r < m // 2:
            ex.oblige(st, where + ".signed-overflow", z3.BoolVal(False))
        return r % m
    if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
        ex.oblige(st, where + ".div-by-zero", z3.BoolVal(False))
        return 0
    if op in ("shl", "lshr", "ashr") and b >= n:
        ex.oblige(st, where + ".shift", z3.BoolVal(False))
        return 0
    if op == "sdiv":
        q = abs(sg(a)) // abs(sg(b))
        return (q if (sg(a) < 0) == (sg(b) < 0) else -q) % m
    if op == "srem":
        q = abs(sg(a)) % abs(sg(b))
        return (q if sg(a) >= 0 else -q) % m
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "udiv": lambda: a // b, "urem": lambda: a % b, "and": lambda: a & b,
            "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: sg(a) >> b}[op]() % m


class BVD:
    """Machine integers as bit vectors."""
    bv = True

    def __init__(self, ex):
        self.ex = ex

    def z(self, v, n):
        if isinstance(v, (bool, int)):
            return z3.BitVecVal(int(v), n)
        return v

    def fresh(self, st, name, n):
        if n == 1:
            return z3.Bool(self.ex.uniq(name))
        return z3.BitVec(self.ex.uniq(name), n)

    def norm(self, r):
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def bin(self, st, op, a, b, n, flags, where):
        ex = self.ex
        if n == 1:
            return IntD.bin(self, st, op, a, b, n, flags, where)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return conc_bin(op, int(a), int(b), n, flags, ex, st, where)
        a, b = self.z(a, n), self.z(b, n)
        if "nsw" in flags:
            if op == "add":
                c = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == "sub":
                c = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            elif op == "mul":
                c = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            else:
                c = z3.BoolVal(True)
            ex.oblige(st, where + ".signed-overflow", c)
        if op in ("udiv", "urem", "sdiv", "srem"):
            ex.oblige(st, where + ".div-by-zero", b != 0)
        if op in ("shl", "lshr", "ashr"):
            ex.oblige(st, where + ".shift", z3.ULT(b, n))
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
             "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b), "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
             "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]
        return self.norm(f())

    def icmp(self, st, pred, a, b, n):
        if n == 1:
            return IntD.icmp(self, st, pred, a, b, n)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                s = lambda x: x - (1 << n) if x >= (1 << (n - 1)) else x
                a, b = s(a), s(b)
            return cmp(pred, a, b)
        a, b = self.z(a, n), self.z(b, n)
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b),
             "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]
        r = z3.simplify(f())
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def ext(self, st, v, a, b, signed):
        if a == 1:
            if isinstance(v, (bool, int)):
                return ((1 << b) - 1 if signed else 1) if v else 0
            return z3.If(v, z3.BitVecVal((1 << b) - 1 if signed else 1, b), z3.BitVecVal(0, b))
        if isinstance(v, int):
            return (v - (1 << a) if signed and v >= (1 << (a - 1)) else v) % (1 << b)
        return self.norm(z3.SignExt(b - a, v) if signed else z3.ZeroExt(b - a, v))

    def trunc(self, st, v, a, b):
        if isinstance(v, int):
            v %= 1 << b
            return bool(v) if b == 1 else v
        if b == 1:
            x = is01(v)
            if x is not None:
                return x
            r = z3.simplify(z3.Extract(0, 0, v) == 1)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        return self.norm(z3.Extract(b - 1, 0, v))

    def ite(self, c, a, b):
        n = a.size() if z3.is_expr(a) else b.size() if z3.is_expr(b) else None
        if n is None:
            raise Unsupported("ite of constants in BV mode")
        return z3.If(c, self.z(a, n), self.z(b, n))

    def eqc(self, e, k):
        return e == k


class LoopSpec:
    """Loop contract. Subclass: roles/inv/variant get (ex, st, view)."""
    ghosts = ()
    typed_uninitialised = False     # a cell that the loop is the first to write, with a pointer to text, holds an arbitrary one before

    def roles(self, ex, st, view):
        yield {}

    def inv(self, ex, st, view, roles):
        return []

    def facts(self, ex, st, view, roles):
        return []

    def variant(self, ex, st, view, roles):
        return None

    def at_exit(self, ex, st, view, roles):
        return []

    def through(self, ex, st, view):
        """a state that comes back to the loop test only to leave: executed on instead of cut"""
        return False


LIVE = []   # the generators at work, for the inputs their failed obligations suggest


class Retry(Exception):
    pass


class Exec:
    nl = None               # arithmetic of two variables (vv/arith.py); z3's own without it
    discovering = False     # running a loop body only to find out what it modifies

    def __init__(self, mod, rep, dom=IntD, prefix="", timeout=SLOW_MS):
        self.mod, self.rep, self.prefix, self.timeout = mod, rep, prefix, timeout
        self.D = dom(self)
        self.n = itertools.count()
        self.solver = z3.Solver()
        self.solver.set("timeout", FAST_MS)
        self.stack = []
        self.contracts = []      # (regex, handler)
        self.loops = []          # (regex on demangled function, index or None, LoopSpec)
        self._hc = {}
        self.buf = []            # obligation buffer
        self.depth = 0
        self.max_unroll = 80
        self.weak, self.weak_base = set(), set()
        self.cache = {}
        self.used_contracts = set()
        self.executed = set()
        self.literals = {}
        self.textbase = []
        self.steps = 0
        self.max_steps = 3_000_000
        LIVE.append(self)
        del LIVE[:-16]
        self.hint = None         # model -> harness case
        self.deadline = None
        self.globals_mut = {}
        self.fnstack = []

    # ---- names, solver -----------------------------------------------------
    def uniq(self, s):
        return f"{s}!{next(self.n)}"

    def sync(self, st):
        k = 0
        pc = st.pc
        while k < len(self.stack) and k < len(pc) and self.stack[k] is pc[k]:
            k += 1
        if k < len(self.stack):
            self.solver.pop(len(self.stack) - k)
            del self.stack[k:]
        for p in pc[k:]:
            self.solver.push()
            self.solver.add(p)
            self.stack.append(p)

    def check(self, st, phi, ms=FAST_MS):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the proof used up")
        self.sync(st)
        self.solver.push()
        self.solver.set("timeout", ms)
        self.solver.add(phi)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        self.solver.pop()
        return r, m

    def feasible(self, st, phi=None):
        if phi is None:
            phi = z3.BoolVal(True)
        return self.check(st, phi)[0] != z3.unsat

    def entails(self, st, phi):
        if isinstance(phi, bool):
            return phi
        s = z3.simplify(phi)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        key = (tuple(p.get_id() for p in st.pc), s.get_id())
        if key in self.cache:
            return self.cache[key][0]
        r = self.check(st, z3.Not(phi), 1500)[0] == z3.unsat
        self.cache[key] = (r, list(st.pc), s)  # keep references so ids stay valid
        return r

    def oblige(self, st, name, phi, kind="post"):
        t = time.time()
        if isinstance(phi, bool):
            phi = z3.BoolVal(phi)
        status, detail, hints = PROVED, "", []
        s = z3.simplify(phi)
        if not z3.is_true(s):
            r, m = self.check(st, z3.Not(phi), self.timeout)
            if r == z3.unknown:
                r, m = self.second(st, phi)
            if r == z3.sat and self.nl:
                r, m = self.nl.exact(self, st, phi, m)
            if r == z3.sat:
                status = FAILED
                detail = f"z3 counterexample for {str(s)[:300]}"
                if self.depends_on_weak(st, phi):
                    status = UNDECIDED
                    detail = "the counterexample depends on a loop-carried value that the loop contract does not speak of; " + detail
                try:
                    mm = {str(d): str(m[d])[:80] for d in m.decls() if m[d] is not None and "!" in str(d)}
                    detail += " with " + str(mm)[:900]
                    if self.hint:
                        h = self.hint(m)
                        if h:
                            hints = h if all(isinstance(x, (list, tuple)) for x in h) else [h]
                except Exception as e:
                    detail += f" (model: {e!r})"
            elif r == z3.unknown:
                if m is not None and self.hint:
                    h = self.hint(m)
                    hints = [] if not h else h if all(isinstance(x, (list, tuple)) for x in h) else [h]
                status, detail = UNDECIDED, "solver returned unknown for " + str(s)[:300]
        self.buf.append((self.prefix + name, self.fnstack[0] if self.fnstack else "?", status, "z3", time.time() - t, detail, hints))
        if status == PROVED and not z3.is_true(s) and not z3.is_quantifier(s):
            st.assume(phi)
        return status == PROVED

    def second(self, st, phi):
        """Another attempt with a fresh solver (different seed and tactic)."""
        for cfg in ({"smt.random_seed": 7}, {"smt.arith.solver": 2}):
            s = z3.Solver()
            s.set("timeout", self.timeout)
            try:
                for k, v in cfg.items():
                    s.set(k, v)
            except z3.Z3Exception:
                pass
            s.add(*st.pc)
            s.add(z3.Not(phi))
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                return r, (s.model() if r == z3.sat else None)
        return z3.unknown, None

    def flush(self):
        """Hand the buffered obligations to the report, merged by name (worst status)."""
        rank = {PROVED: 0, UNDECIDED: 1, FAILED: 2}
        d = {}
        for n, f, s, b, t, det, h in self.buf:
            o = d.get((n, f))
            if o is None:
                d[(n, f)] = [s, b, t, det, list(h), 1]
            else:
                o[2] += t
                o[5] += 1
                if rank[s] > rank[o[0]]:
                    o[0], o[3] = s, det
                o[4] += h
        for (n, f), (s, b, t, det, h, k) in d.items():
            self.rep.add(n, f, s, b, t, det, h)
        self.buf = []
        for c in sorted(self.used_contracts):
            self.rep.functions.setdefault(c, "assumed or separately proved contract at the call")
        for e in sorted(self.executed):
            self.rep.functions.setdefault(e, "body executed inside a caller under contract")

    # ---- memory ------------------------------------------------------------
    def alloc(self, st, size, name="", cells=None):
        rid = f"r{next(self.n)}"
        st.mem[rid] = Region(size, name, cells)
        st.own.add(rid)
        return Ptr(rid, 0)

    def alloc_type(self, st, ty, name=""):
        return self.alloc(st, self.mod.size(ty), name)

    def array(self, st, elem, fields, n, name=""):
        rid = f"a{next(self.n)}"
        fs = {}
        for off, (size, kind) in fields.items():
            fs[off] = (size, kind, z3.Array(self.uniq(f"{name}_{off}"), z3.IntSort(), z3.IntSort()))
        st.mem[rid] = Array(elem, fs, n, name)
        st.own.add(rid)
        return Ptr(rid, 0)

    def text(self, st, name, length=None):
        """A readable run of text: returns (Ptr, length term)."""
        a = z3.Int(self.uniq(name + "_a"))
        n = z3.Int(self.uniq(name + "_n")) if length is None else length
        st.assume(a > 0, zi(n) >= 0, a + zi(n) < 2**62)
        if length is None:
            st.assume(n < 2**60)
        st.readable.append((a, zi(n)))
        return Ptr(TEXT, Lin.of(a)), n

    def literal(self, st, data):
        """Address of constant bytes in the text memory; contents are known facts."""
        if data not in self.literals:
            self.literals[data] = z3.Int(f"lit!{len(self.literals)}")
        a = self.literals[data]
        if ("lit", data) not in st.facts:
            st.facts[("lit", data)] = True
            st.assume(a > 0, a < 2**62)
            for i, b in enumerate(data):
                st.assume(z3.Select(M, a + i) == b if i else z3.Select(M, a) == b)
            st.readable.append((a, z3.IntVal(len(data))))
        return Ptr(TEXT, Lin.of(a))

    def global_ptr(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return Ptr(("fn", name), 0)
        if name in self.mod.aliases:
            return self.global_ptr(st, self.mod.aliases[name])
        g = self.mod.ginit(name)
        if g is None:
            raise Unsupported("global " + name)
        ty, init, const = g
        r = self.mod.resolve(ty)
        if const and init is not None and r[0] == "array" and r[2] == ("i", 8) and not self.D.bv and init[0] in ("str", "zero"):
            data = init[1] if init[0] == "str" else bytes(r[1])
            return self.literal(st, data)
        rid = "g:" + name
        if rid not in st.mem:
            reg = Region(self.mod.size(ty), name, None, const)
            st.mem[rid] = reg
            if init is not None and (const or name in self.globals_mut):
                self.init_cells(st, reg, 0, ty, init)
        return Ptr(rid, 0)

    def init_cells(self, st, reg, off, ty, v):
        r = self.mod.resolve(ty)
        if v[0] == "undef":
            return
        if r[0] == "struct":
            offs = self.mod.layout(ty)[2]
            for i, (f, o) in enumerate(zip(r[1], offs)):
                self.init_cells(st, reg, off + o, f, ("zero",) if v[0] == "zero" else v[1][i][1])
        elif r[0] == "array":
            s = self.mod.size(r[2])
            for i in range(r[1]):
                x = ("zero",) if v[0] == "zero" else ("c", v[1][i]) if v[0] == "str" else v[1][i][1]
                self.init_cells(st, reg, off + i * s, r[2], x)
        else:
            reg.cells[off] = (self.mod.size(r), self.const(st, r, v))

    def const(self, st, ty, v):
        k = v[0]
        if k == "c":
            return bool(v[1]) if ty == ("i", 1) else v[1]
        if k == "zero":
            r = self.mod.resolve(ty)
            if r[0] == "i":
                return False if r[1] == 1 else 0
            if r[0] == "ptr":
                return NULLP
            if r[0] == "struct":
                return [self.const(st, f, v) for f in r[1]]
            if r[0] == "array":
                return [self.const(st, r[2], v) for _ in range(r[1])]
            raise Unsupported("zero of " + str(r))
        if k == "null":
            return NULLP
        if k == "undef":
            r = self.mod.resolve(ty)
            if r[0] == "struct":
                return [self.const(st, f, v) for f in r[1]]
            return UNDEF
        if k == "g":
            return self.global_ptr(st, v[1])
        if k == "agg":
            return [self.const(st, t, x) for t, x in v[1]]
        if k == "ce":
            if v[1] == "gep":
                return self.gep(st, v[2], self.const(st, ("ptr",), v[3]), [(t, self.const(st, t, x)) for t, x in v[4]])
            if v[1] in ("bitcast",):
                return self.const(st, v[2], v[3])
        raise Unsupported(f"constant {v}")

    def gep(self, st, ty, base, idx):
        if not isinstance(base, Ptr):
            raise Unsupported("gep on non-pointer")
        off = base.o
        first = True
        t = ty
        for it, i in idx:
            n = it[1]
            if first:
                k = self.mod.size(t)
                first = False
            else:
                r = self.mod.resolve(t)
                if r[0] == "struct":
                    off = ladd(off, self.mod.layout(t)[2][i])
                    t = r[1][i]
                    continue
                t = r[2]
                k = self.mod.size(t)
            if isinstance(i, int):
                s = i - (1 << n) if i >= (1 << (n - 1)) else i
                off = ladd(off, s * k)
            elif z3.is_bv(i):
                off = ladd(off, Lin(0, ((k, i),)))
            else:
                s = self.D.signed(st, i, n)
                off = ladd(off, self.lin(s).scale(k) if isinstance(self.lin(s), Lin) else self.lin(s) * k)
        if base.r == NULL:
            if isinstance(off, int) and off == 0:
                return base
            return Ptr(TEXT, off)  # null plus something; only meaningful for zero
        return Ptr(base.r, off)

    def lin(self, e):
        """z3 Int expression -> Lin (decomposes sums, so that pointer differences cancel)."""
        if isinstance(e, (int, Lin)):
            return e
        r = Lin(0)

        def go(x, k):
            nonlocal r
            if z3.is_int_value(x):
                r = Lin.of(r.add(k * x.as_long()))
            elif z3.is_add(x):
                for c in x.children():
                    go(c, k)
            elif z3.is_sub(x):
                go(x.arg(0), k)
                for c in x.children()[1:]:
                    go(c, -k)
            elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
                go(x.arg(1), k * x.arg(0).as_long())
            elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(1)):
                go(x.arg(0), k * x.arg(1).as_long())
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
                go(x.arg(0), -k)
            else:
                r = Lin.of(r.add(Lin(0, ((k, x),))))
        go(e, 1)
        return r.c if not r.t else r

    def elem(self, st, reg, off, where):
        """offset in an array region -> (index Lin, field offset)"""
        off = Lin.of(off)
        if any(c % reg.elem for c, _ in off.t):
            raise Unsupported("misaligned symbolic offset into " + reg.name)
        f = off.c % reg.elem
        i = Lin(off.c // reg.elem, [(c // reg.elem, e) for c, e in off.t])
        return (i.c if not i.t else i), f

    def load(self, st, p, ty, where):
        r = self.mod.resolve(ty)
        if r[0] in ("struct", "array"):
            return [self.load(st, Ptr(p.r, ladd(p.o, o)), t, where) for o, t in self.mod.flatten(ty)] if r[0] == "struct" else UNDEF
        size = self.mod.size(r)
        if not isinstance(p, Ptr):
            raise Unsupported("load through " + repr(p))
        if p.r == NULL:
            self.oblige(st, where + ".null-deref", z3.BoolVal(False))
            raise Dead()
        if p.r == TEXT:
            if size != 1:
                raise Unsupported(f"{size}-byte load from text at {where}")
            return self.load_text(st, p.addr(), where)
        if isinstance(p.r, tuple):
            raise Unsupported("load from function")
        reg = st.mem[p.r]
        if reg.kind == "array":
            i, f = self.elem(st, reg, p.o, where)
            self.oblige(st, where + ".in-bounds", z3.And(zi(i) >= 0, zi(i) < zi(reg.n)))
            if f not in reg.fields or reg.fields[f][0] != size:
                raise Unsupported(f"load of {size} at field {f} of {reg.name}")
            sz, kind, arr = reg.fields[f]
            v = z3.Select(arr, zi(i))
            if kind == "p":
                return Ptr(TEXT, Lin.of(v))
            if kind == "v":
                ln = z3.Select(reg.fields[0][2], zi(i))
                if not any(b is v or (z3.is_expr(b) and b.eq(v)) for b, _ in st.readable):
                    st.assume(v >= 0, ln >= 0, ln < 2**60, v + ln < 2**62, z3.Implies(ln > 0, v > 0))
                    st.readable.append((v, ln))
                return Ptr(TEXT, Lin.of(v))
            if callable(kind):
                return kind(st, v)
            st.assume(v >= 0, v < (1 << (8 * size)))
            return v
        if not isinstance(p.o, int) and not reg.const:
            k = self.concretize(st, p.o)
            if k is not None:
                p = Ptr(p.r, k)
        if not isinstance(p.o, int):
            return self.load_table(st, reg, p, r, size, where)
        if p.o < 0 or p.o + size > reg.size:
            self.oblige(st, where + ".in-bounds", z3.BoolVal(False))
            raise Dead()
        c = reg.cells.get(p.o)
        if c is not None and c[0] == size:
            return self.coerce(st, c[1], r)
        if c is None and not any(o < p.o + size and o + s > p.o for o, (s, _) in reg.cells.items()):
            return UNDEF
        return self.mixed_load(st, reg, p, r, size, where)

    def mixed_load(self, st, reg, p, r, size, where):
        if r[0] == "i":
            parts = sorted((o, c) for o, c in reg.cells.items() if p.o <= o < p.o + size)
            if parts and parts[0][0] == p.o and sum(c[0] for _, c in parts) == size and all(isinstance(c[1], int) for _, c in parts):
                v = 0
                for o, (s, x) in parts:
                    v |= int(x) << (8 * (o - p.o))
                return v
            # padding bytes undefined, or part of a larger cell
            for o, (s, x) in reg.cells.items():
                if o <= p.o and o + s >= p.o + size and isinstance(x, int):
                    return (x >> (8 * (p.o - o))) & ((1 << (8 * size)) - 1)
                if o <= p.o and o + s >= p.o + size and self.D.bv and z3.is_bv(x):
                    return self.D.norm(z3.Extract(8 * (p.o - o + size) - 1, 8 * (p.o - o), x))
            if parts and parts[0][0] == p.o and self.D.bv:
                v, bits = None, 0
                pos = p.o
                for o, (s, x) in parts:
                    if o != pos or isinstance(x, (Ptr, Undef)):
                        break
                    pos = o + s
                    xx = self.D.z(int(x) if isinstance(x, bool) else x, 8 * s)
                    v = xx if v is None else z3.Concat(xx, v)
                else:
                    if pos < p.o + size:
                        v = z3.Concat(z3.BitVec(self.uniq("pad"), 8 * (p.o + size - pos)), v)
                    return z3.simplify(v)
            if parts:
                return Bundle([(o - p.o, s, x) for o, (s, x) in parts])
        raise Unsupported(f"mixed-size load of {size} at {reg.name}+{p.o} ({where})")

    def coerce(self, st, v, r):
        if isinstance(v, (Undef, Bundle)):
            return v
        if r[0] == "ptr":
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int) and v == 0:
                return NULLP
            if isinstance(v, int) or z3.is_int(v):
                return Ptr(TEXT, self.lin(v))
        elif r[0] == "i":
            if isinstance(v, bool) and r[1] > 1:
                return int(v)
            if z3.is_expr(v) and z3.is_bool(v) and r[1] > 1:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if not self.D.bv else z3.If(v, z3.BitVecVal(1, r[1]), z3.BitVecVal(0, r[1]))
        return v

    def load_text(self, st, a, where):
        v = z3.Select(M, z3.simplify(a))
        ok = self.oblige(st, where + ".readable", z3.Or([z3.And(b <= a, a < b + n) for b, n in st.readable] or [z3.BoolVal(False)]))
        st.assume(v >= 0, v < 256)
        return v

    def load_table(self, st, reg, p, r, size, where):
        off = Lin.of(p.o)
        if len(off.t) != 1:
            raise Unsupported(f"symbolic offset into {reg.name} at {where}")
        k, e = off.t[0]
        if k <= 0:
            raise Unsupported("negative stride")
        bvw = e.size() if z3.is_bv(e) else None
        cnt = (reg.size - off.c - size) // k + 1
        self.oblige(st, where + ".in-bounds", z3.ULT(e, cnt) if bvw else z3.And(e >= 0, e < cnt))
        res = None
        vals = []
        for i in range(cnt):
            c = reg.cells.get(off.c + i * k)
            if c is None or c[0] != size:
                raise Unsupported("table load from " + reg.name)
            vals.append(c[1])
        if any(isinstance(v, (Ptr, Undef)) for v in vals):
            raise Unsupported("table of pointers")
        n = 8 * size
        mk = (lambda v: self.D.z(v, n)) if self.D.bv else zi
        if any(z3.is_expr(v) for v in vals):
            res = mk(vals[-1])
            for i in range(cnt - 2, -1, -1):
                res = z3.If(e == i, mk(vals[i]), res)
            return res
        # constants: a balanced tree over the runs of equal values
        runs = [i for i in range(cnt) if i == 0 or vals[i] != vals[i - 1]]

        def tree(lo, hi):
            if hi - lo == 1:
                return mk(vals[runs[lo]])
            mid = (lo + hi) // 2
            return z3.If(z3.ULT(e, runs[mid]) if bvw else e < runs[mid], tree(lo, mid), tree(mid, hi))
        return tree(0, len(runs))

    def store(self, st, p, v, ty, where):
        r = self.mod.resolve(ty)
        if r[0] == "struct":
            offs = self.mod.layout(ty)[2]
            for f, o, x in zip(r[1], offs, v):
                self.store(st, Ptr(p.r, ladd(p.o, o)), x, f, where)
            return
        size = self.mod.size(r)
        if not isinstance(p, Ptr):
            raise Unsupported("store through " + repr(p))
        if p.r == NULL:
            self.oblige(st, where + ".null-deref", z3.BoolVal(False))
            raise Dead()
        if p.r == TEXT or isinstance(p.r, tuple):
            raise Unsupported("store into immutable text at " + where)
        if isinstance(v, bool) and r[1] > 1:
            v = int(v)
        reg = st.wr(p.r)
        if reg.kind == "array":
            i, f = self.elem(st, reg, p.o, where)
            self.oblige(st, where + ".in-bounds", z3.And(zi(i) >= 0, zi(i) < zi(reg.n)))
            if f not in reg.fields or reg.fields[f][0] != size:
                raise Unsupported(f"store of {size} at field {f} of {reg.name}")
            sz, kind, arr = reg.fields[f]
            if kind in ("p", "v"):
                if not isinstance(v, Ptr) or v.r not in (TEXT, NULL):
                    raise Unsupported("store of a non-text pointer into an array")
                v = v.addr()
            elif isinstance(v, (Undef, Ptr, Bundle)):
                raise Unsupported("store of undefined into an array")
            reg.fields[f] = (sz, kind, z3.Store(arr, zi(i), zi(v)))
            st.dirty.add((p.r, "arr", f))
            return
        if not isinstance(p.o, int):
            raise Unsupported(f"store at a symbolic offset of {reg.name} ({where})")
        if p.o < 0 or p.o + size > reg.size:
            self.oblige(st, where + ".in-bounds", z3.BoolVal(False))
            raise Dead()
        self.put(st, p.r, reg, p.o, size, v)

    def put(self, st, rid, reg, off, size, v):
        if isinstance(v, Bundle):
            for o, s, x in v.parts:
                self.put(st, rid, reg, off + o, s, x)
            return
        if off not in reg.cells or reg.cells[off][0] != size:
            for o in [o for o, (s, _) in reg.cells.items() if o < off + size and o + s > off]:
                s, x = reg.cells.pop(o)
                st.dirty.add((rid, o, s))
                if o < off or o + s > off + size:
                    # partial overwrite: keep what can be kept
                    if isinstance(x, int) and not isinstance(x, bool):
                        for b in range(s):
                            if not off <= o + b < off + size:
                                reg.cells[o + b] = (1, (x >> (8 * b)) & 255)
                    elif self.D.bv and z3.is_bv(x):
                        for b in range(s):
                            if not off <= o + b < off + size:
                                reg.cells[o + b] = (1, z3.simplify(z3.Extract(8 * b + 7, 8 * b, x)))
        reg.cells[off] = (size, v)
        st.dirty.add((rid, off, size))

    def memcpy(self, st, d, s, n, where):
        if isinstance(n, Lin) or not isinstance(n, int):
            n2 = self.concretize(st, n)
            if n2 is None:
                raise Unsupported("memcpy of symbolic length at " + where)
            n = n2
        if n == 0:
            return
        if s.r == TEXT:
            for i in range(n):
                self.store(st, Ptr(d.r, ladd(d.o, i)), self.load_text(st, zi(ladd(s.o, i)), where), ("i", 8), where)
            return
        if s.r == NULL or d.r == NULL:
            self.oblige(st, where + ".null-deref", z3.BoolVal(False))
            raise Dead()
        sr = st.mem[s.r]
        cells = []
        if sr.kind == "array":
            f0 = self.elem(st, sr, s.o, where)[1]
            if f0 + n > sr.elem and (f0 or n % sr.elem) or any(f < f0 + n < f + x[0] or f < f0 < f + x[0] for f, x in sr.fields.items()):
                raise Unsupported("partial element copy")
            if f0 + n <= sr.elem:
                for f, (sz, kind, arr) in sr.fields.items():
                    if f0 <= f < f0 + n:
                        t = ("ptr",) if kind in ("p", "v") else ("i", 8 * sz)
                        cells.append((f - f0, sz, self.load(st, Ptr(s.r, ladd(s.o, f - f0)), t, where)))
            for e in range(n // sr.elem if f0 + n > sr.elem else 0):
                for f, (sz, kind, arr) in sr.fields.items():
                    t = ("ptr",) if kind in ("p", "v") else ("i", 8 * sz)
                    cells.append((e * sr.elem + f, sz, self.load(st, Ptr(s.r, ladd(s.o, e * sr.elem + f)), t, where)))
        else:
            if not isinstance(s.o, int):
                raise Unsupported("memcpy from a symbolic offset")
            if s.o < 0 or s.o + n > sr.size:
                self.oblige(st, where + ".in-bounds", z3.BoolVal(False))
                raise Dead()
            for o, (sz, v) in sorted(sr.cells.items(), key=lambda x: x[0] if isinstance(x[0], int) else -1):
                if s.o <= o and o + sz <= s.o + n:
                    cells.append((o - s.o, sz, v))
                elif o < s.o + n and o + sz > s.o:
                    raise Unsupported("memcpy splits a cell at " + where)
        if d.r == TEXT:
            raise Unsupported("memcpy into text")
        dr = st.wr(d.r)
        if dr.kind == "array":
            for o, sz, v in cells:
                self.store(st, Ptr(d.r, ladd(d.o, o)), v, ("ptr",) if isinstance(v, Ptr) else ("i", 8 * sz), where)
            return
        if not isinstance(d.o, int):
            raise Unsupported("memcpy to a symbolic offset")
        if d.o < 0 or d.o + n > dr.size:
            self.oblige(st, where + ".in-bounds", z3.BoolVal(False))
            raise Dead()
        for o in [o for o, (z, _) in dr.cells.items() if o < d.o + n and o + z > d.o]:
            z = dr.cells.pop(o)[0]
            st.dirty.add((d.r, o, z))
        for o, sz, v in cells:
            self.put(st, d.r, dr, d.o + o, sz, v)

    def concretize(self, st, e):
        if isinstance(e, int):
            return e
        if isinstance(e, Lin):
            e = e.z()
        s = z3.simplify(e)
        if z3.is_int_value(s) or z3.is_bv_value(s):
            return s.as_long()
        r, m = self.check(st, z3.BoolVal(True))
        if r != z3.sat:
            return None
        v = m.eval(e, model_completion=True)
        if not (z3.is_int_value(v) or z3.is_bv_value(v)):
            return None
        k = v.as_long()
        return k if self.entails(st, e == k) else None

    # ---- content of text -----------------------------------------------------
    def content(self, st, a, n):
        """Sequence of the n text bytes at a (Ptr or term)."""
        a = a.addr() if isinstance(a, Ptr) else zi(a)
        k = n if isinstance(n, int) else self.concretize(st, n) if self.small(st, n) else None
        if k is not None and k <= 16:
            if k == 0:
                return z3.Empty(SeqI)
            us = [z3.Unit(z3.Select(M, z3.simplify(a + i))) for i in range(k)]
            return us[0] if k == 1 else z3.Concat(us)
        t = Tf(z3.simplify(a), z3.simplify(zi(n)))
        st.assume(z3.Length(t) == zi(n))
        return t

    def small(self, st, n):
        return self.entails(st, zi(n) <= 16)

    # ---- execution -------------------------------------------------------------
    def handler(self, name):
        h = self._hc.get(name)
        if h is None:
            d = self.mod.dem(name)
            h = False
            for rx, fn in self.contracts:
                if rx.search(d):
                    h = fn
                    break
            if h is False and name in BUILTIN:
                h = BUILTIN[name]
            if h is False and name not in self.mod.funcs:
                for rx, fn in EXTERN:
                    if rx.search(d):
                        h = fn
                        break
            if h is False and name.startswith("llvm."):
                h = llvm_intrinsic
            self._hc[name] = h
        return h

    def contract(self, rx, fn):
        self.contracts.append((re.compile(rx), fn))

    def loop(self, rx, idx, spec):
        self.loops.append((re.compile(rx), idx, spec))

    def call(self, st, name, args, where="", retty=None):
        """Returns [(state, return value)]."""
        h = self.handler(name)
        if h:
            self.used_contracts.add(self.mod.dem(name)[:200])
            r = h(self, st, args, where, name)
            if r is None:
                r = [(st, UNDEF)]
            return r
        f = self.mod.func(name)
        if f is None:
            raise Unsupported("no body and no contract: " + self.mod.dem(name)[:160])
        return self.run(f, st, args)

    def run(self, f, st, args, top=False):
        self.depth += 1
        self.fnstack.append(f.demangled[:160])
        if not top:
            self.executed.add(f.demangled[:160])
        if self.depth > 80:
            raise Unsupported("call depth: " + " < ".join(short(x) for x in self.fnstack[-6:]))
        try:
            regs = {}
            for (t, a, nm), v in zip(f.params, args):
                if "byval" in a:
                    # callee gets its own copy
                    cp = self.alloc(st, self.mod.size(a["byval"]), nm)
                    self.memcpy(st, cp, v, self.mod.size(a["byval"]), f.name + ".byval")
                    v = cp
                regs[nm] = v
            f.blocks
            fr = Frame(f)
            return self.flow(fr, st, regs, f.entry, None)
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def flow(self, fr, st, regs, block, prev):
        """Execute from a block start to all function exits; returns [(state, value)]."""
        out = []
        work = [(st, regs, block, prev, 0)]
        while work:
            st, regs, block, prev, idx = work.pop()
            f = fr.f
            if idx == 0:
                if block in f.loops:
                    if block in fr.cut and prev in f.loops[block]:
                        fr.cut[block].append((st, regs, prev))
                        continue
                    if prev is None or prev not in f.loops[block]:
                        spec = self.find_loop(f, block)
                        if spec is not None and block not in fr.nocut:
                            out += self.cut(fr, st, regs, block, prev, spec)
                            continue
                        st.facts[("unroll", id(fr), block)] = 0
                    else:
                        k = st.facts.get(("unroll", id(fr), block), 0) + 1
                        if k > self.max_unroll:
                            raise Unsupported(f"loop without contract in {f.demangled[:120]} ({block})")
                        st.facts[("unroll", id(fr), block)] = k
                if fr.leave is not None and block not in fr.leave:
                    fr.exits.append((st, regs, block, prev))
                    continue
                # phis
                ins = f.blocks[block]
                new = {}
                i = 0
                while i < len(ins) and ins[i].op == "phi":
                    for v, b in ins[i].a:
                        if b == prev:
                            new[ins[i].dst] = self.val(st, regs, ins[i].ty, v)
                            break
                    i += 1
                if new:
                    regs = dict(regs)
                    regs.update(new)
                idx = i
            try:
                for nx in self.block(fr, st, regs, block, prev, idx):
                    if nx[0] == "ret":
                        out.append((nx[1], nx[2]))
                    else:
                        work.append(nx[1:])
            except Dead:
                pass
        return out

    def find_loop(self, f, block):
        i = f.loop_order.index(block)
        for rx, idx, spec in self.loops:
            if (idx is None or idx == i) and rx.search(f.demangled):
                return spec
        return None

    def val(self, st, regs, ty, v):
        if v[0] == "l":
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported("register %" + v[1])
        return self.const(st, ty, v)

    def block(self, fr, st, regs, block, prev, idx):
        f = fr.f
        ins_list = f.blocks[block]
        regs = dict(regs)
        n = len(ins_list)
        while idx < n:
            ins = ins_list[idx]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step budget")
            op = ins.op
            where = f"{short(f.demangled)}"
            if ins.extra is not None:
                raise Unsupported("instruction " + ins.text[:100])
            if op == "call":
                res = self.do_call(fr, st, regs, ins, where)
                if len(res) == 1:
                    st, rv = res[0]
                    if ins.dst is not None:
                        regs[ins.dst] = rv
                    idx += 1
                    continue
                o = []
                for s2, rv in res:
                    r2 = dict(regs)
                    if ins.dst is not None:
                        r2[ins.dst] = rv
                    o.append(("go", s2, r2, block, prev, idx + 1))
                return o
            if op == "br":
                if ins.a[1] is None:
                    return [("go", st, regs, ins.a[0], block, 0)]
                c = self.val(st, regs, ("i", 1), ins.a[0])
                return self.branch(st, regs, block, c, ins.a[1], ins.a[2], where)
            if op == "ret":
                return [("ret", st, None if ins.a[0] is None else self.val(st, regs, ins.ty, ins.a[0]))]
            if op == "switch":
                v = self.val(st, regs, ins.ty, ins.a[0])
                if isinstance(v, Undef):
                    raise Unsupported("switch on undefined value")
                if isinstance(v, (int, bool)):
                    for c, l in ins.a[2]:
                        if c % (1 << ins.ty[1]) == int(v):
                            return [("go", st, regs, l, block, 0)]
                    return [("go", st, regs, ins.a[1], block, 0)]
                o = []
                conds = []
                for c, l in ins.a[2]:
                    e = v == c
                    conds.append(e)
                    if self.feasible(st, e):
                        s2 = st.copy().assume(e)
                        o.append(("go", s2, regs, l, block, 0))
                d = z3.Not(z3.Or(conds)) if conds else z3.BoolVal(True)
                if self.feasible(st, d):
                    o.append(("go", st.copy().assume(d), regs, ins.a[1], block, 0))
                return o
            if op == "unreachable":
                self.oblige(st, where + ".unreachable", z3.BoolVal(False))
                return []
            if op == "select":
                c, x, y = ins.a
                c = self.val(st, regs, ("i", 1), c)
                x, y = self.val(st, regs, ins.ty, x), self.val(st, regs, ins.ty, y)
                if isinstance(c, (bool, int)):
                    regs[ins.dst] = x if c else y
                elif ins.ty == ("i", 1):
                    regs[ins.dst] = z3.simplify(z3.If(c, zb(bool(x)) if isinstance(x, (bool, int)) else x, zb(bool(y)) if isinstance(y, (bool, int)) else y))
                elif ins.ty[0] == "i" and not isinstance(x, (Undef, Bundle)) and not isinstance(y, (Undef, Bundle)):
                    if self.D.bv:
                        regs[ins.dst] = z3.If(c, self.D.z(x, ins.ty[1]), self.D.z(y, ins.ty[1]))
                    else:
                        regs[ins.dst] = z3.If(c, zi(x), zi(y))
                else:
                    o = []
                    for cc, v in ((c, x), (z3.Not(c), y)):
                        if self.feasible(st, cc):
                            r2 = dict(regs)
                            r2[ins.dst] = v
                            o.append(("go", st.copy().assume(cc), r2, block, prev, idx + 1))
                    return o
                idx += 1
                continue
            regs[ins.dst] = self.simple(fr, st, regs, ins, where) if ins.dst is not None else self.simple(fr, st, regs, ins, where)
            idx += 1
        raise Unsupported("block without terminator")

    def branch(self, st, regs, block, c, t, e, where):
        if isinstance(c, Undef):
            self.oblige(st, where + ".branch-on-undefined", z3.BoolVal(False))
            raise Dead()
        if isinstance(c, (bool, int)):
            return [("go", st, regs, t if c else e, block, 0)]
        ft = self.feasible(st, c)
        fe = self.feasible(st, z3.Not(c))
        if ft and fe:
            s2 = st.copy()
            return [("go", s2.assume(z3.Not(c)), dict(regs), e, block, 0), ("go", st.copy().assume(c), regs, t, block, 0)]
        if ft:
            return [("go", st.assume(c), regs, t, block, 0)]
        if fe:
            return [("go", st.assume(z3.Not(c)), regs, e, block, 0)]
        return []

    def simple(self, fr, st, regs, ins, where):
        op = ins.op
        V = lambda t, v: self.val(st, regs, t, v)
        if op == "alloca":
            n = V(("i", 64), ins.a[0])
            if not isinstance(n, int):
                raise Unsupported("variable-length alloca")
            return self.alloc(st, self.mod.size(ins.ty) * n, f"{fr.f.name}.{ins.dst}")
        if op == "load":
            return self.load(st, V(("ptr",), ins.a[0]), ins.ty, where)
        if op == "store":
            self.store(st, V(("ptr",), ins.a[1]), V(ins.ty, ins.a[0]), ins.ty, where)
            return None
        if op == "getelementptr":
            return self.gep(st, ins.ty, V(("ptr",), ins.a[0]), [(t, V(t, v)) for t, v in ins.a[1]])
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1])
            n = ins.ty[1]
            if isinstance(a, PtrInt) or isinstance(b, PtrInt):
                if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                    d = self.pdiff(st, a.p, b.p, where)
                    return d
                if op == "and" or op == "add" or op == "sub":
                    raise Unsupported("integer arithmetic on a pointer")
            if op == "and" and isinstance(a, Undef) and isinstance(b, int) and n > 1:
                a = self.D.fresh(st, "indeterminate", n)   # the read half of writing a bit-field: any bits
            if isinstance(a, (Undef, Bundle)) or isinstance(b, (Undef, Bundle)):
                return UNDEF
            if isinstance(a, Lin):
                return self.lindiv(st, a, b, op, n, where)
            return self.D.bin(st, op, a, b, n, ins.flags, where)
        if op == "icmp":
            pred, a, b = ins.a
            a, b = V(ins.ty, a), V(ins.ty, b)
            if isinstance(a, PtrInt):
                a = a.p
            if isinstance(b, PtrInt):
                b = b.p
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.pcmp(st, pred, a, b, where)
            if isinstance(a, Undef) or isinstance(b, Undef):
                return UNDEF
            a, b = (zi(x) if isinstance(x, Lin) else x for x in (a, b))
            return self.D.icmp(st, pred, a, b, ins.ty[1])
        if op in ("zext", "sext"):
            v = V(ins.a[0], ins.a[1])
            if isinstance(v, Undef):
                return v
            return self.D.ext(st, zi(v) if isinstance(v, Lin) else v, ins.a[0][1], ins.ty[1], op == "sext")
        if op == "trunc":
            v = V(ins.a[0], ins.a[1])
            if isinstance(v, Undef):
                return v
            return self.D.trunc(st, zi(v) if isinstance(v, Lin) else v, ins.a[0][1], ins.ty[1])
        if op == "ptrtoint":
            return PtrInt(V(ins.a[0], ins.a[1]))
        if op == "inttoptr":
            v = V(ins.a[0], ins.a[1])
            if isinstance(v, PtrInt):
                return v.p
            raise Unsupported("inttoptr")
        if op in ("bitcast", "freeze"):
            return V(ins.a[0], ins.a[1])
        if op == "extractvalue":
            v = V(ins.ty, ins.a[0])
            for i in ins.a[1]:
                if isinstance(v, Undef):
                    return v
                v = v[i]
            return v
        if op == "insertvalue":
            v = V(ins.ty, ins.a[0])
            e = V(ins.a[1], ins.a[2])

            def put(x, ix):
                if isinstance(x, Undef):
                    raise Unsupported("insertvalue into undef")
                x = list(x)
                x[ix[0]] = e if len(ix) == 1 else put(x[ix[0]], ix[1:])
                return x
            return put(v, ins.a[3])
        raise Unsupported("instruction " + ins.text[:100])

    def lindiv(self, st, a, b, op, n, where):
        """arithmetic on a pointer difference"""
        if isinstance(b, int) and op == "sdiv":
            if a.c % b == 0 and all(c % b == 0 for c, _ in a.t):
                r = Lin(a.c // b, [(c // b, e) for c, e in a.t])
                return self.D.canon(st, r.z(), n) if not self.D.bv else r
        if isinstance(b, Lin):
            b = b.z()
        if self.D.bv:
            raise Unsupported("pointer difference in bit-vector mode")
        return self.D.bin(st, op, self.D.canon(st, a.z(), n), b, n, (), where)

    def pdiff(self, st, a, b, where):
        if a.r == NULL and b.r == NULL:
            return 0
        if a.r != b.r:
            if {a.r, b.r} <= {TEXT, NULL}:
                d = z3.simplify(a.addr() - b.addr())
                return Lin.of(d) if not z3.is_int_value(d) else d.as_long() % 2**64
            raise Unsupported(f"difference of pointers into different objects at {where}")
        d = ladd(a.o, b.o, -1)
        return d % 2**64 if isinstance(d, int) else d

    def pcmp(self, st, pred, a, b, where):
        for x in (a, b):
            if isinstance(x, Undef):
                return UNDEF
            if isinstance(x, int):
                if x == 0:
                    continue
                raise Unsupported("pointer compared with integer")
        a = NULLP if isinstance(a, int) else a
        b = NULLP if isinstance(b, int) else b
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported("pointer comparison")
        if a.r == b.r or {a.r, b.r} <= {TEXT, NULL}:
            x, y = (a.o, b.o) if a.r == b.r else (self.lin(a.addr()), self.lin(b.addr()))
            d = ladd(x, y, -1)
            if isinstance(d, int):
                return cmp(pred, d, 0)
            return cmp(pred, zi(x), zi(y))
        if pred in ("eq", "ne"):
            return pred == "ne"
        raise Unsupported(f"ordering of pointers into different objects at {where}")

    def do_call(self, fr, st, regs, ins, where):
        callee, args = ins.a
        vals = []
        for t, at, v in args:
            vals.append(self.val(st, regs, t, v) if t != ("meta",) else UNDEF)
        if callee[0] == "g":
            name = callee[1]
        else:
            p = regs.get(callee[1])
            if not isinstance(p, Ptr) or not isinstance(p.r, tuple) or p.r[0] != "fn":
                h = getattr(self, "indirect", None)
                if h:
                    return h(st, p, vals, where)
                raise Unsupported("indirect call at " + where)
            name = p.r[1]
        if name in self.mod.aliases:
            name = self.mod.aliases[name]
        return self.call(st, name, vals, where)

    # ---- loop cutting ------------------------------------------------------------
    def cut(self, fr, st, regs, header, prev, spec):
        f = fr.f
        fn = short(f.demangled)
        lname = f"{fn}.loop{f.loop_order.index(header)}"
        if spec == "unroll":
            fr.nocut = fr.nocut | {header}
            return self.flow(fr, st, regs, header, prev)
        entry_mem = set(st.mem)
        H = set()
        bools = None
        best = None
        tried = 0
        depth0, fn0 = self.depth, list(self.fnstack)
        # discover the modified cells, then try the role assignments
        roles_list = [None]
        ri = 0
        nobool = set()
        derived, noderive = {}, set()     # cells that are a function of another cell whenever the loop head is reached
        late = spec.late = set()      # cells written for the first time in the loop, with pointers to text
        last = False
        while True:
            mark = len(self.buf)
            self.depth, self.fnstack = depth0, list(fn0)
            s0 = st.copy()
            view0 = View(self, fr, s0, regs, H)
            if roles_list == [None]:
                trial = None
            else:
                trial = roles_list[ri]
            s1 = st.copy()
            s1.dirty = set()
            fresh = self.havoc(s1, H, entry_mem, spec, lname, nobool)
            for d, (c, C, t) in derived.items():
                sz, v = s1.mem[c[0]].cells[c[1]]
                s1.wr(d[0]).cells[d[1]] = (d[2], z3.substitute(t, (C, v)))
            for r_, o_ in late:
                if (r_, o_, 8) in H:
                    a_ = z3.Int(self.uniq("h_late"))
                    s1.assume(a_ >= 0, a_ < 2**62)
                    s1.wr(r_).cells[o_] = (8, Ptr(TEXT, Lin.of(a_)))
            view1 = View(self, fr, s1, regs, H)
            if trial is not None:
                for phi in spec.facts(self, s0, view0, trial):
                    s0.assume(phi)
                for nm, phi in spec.inv(self, s0, view0, trial):
                    self.oblige(s0, f"{lname}.init.{nm}", phi)
                if len(roles_list) > 1 and not last and any(b[2] != PROVED for b in self.buf[mark:]):
                    # not this assignment; if none is left, the first is reported in full
                    del self.buf[mark:]
                    ri += 1
                    if ri == len(roles_list) and best is None:
                        ri, last = 0, True
                    if ri < len(roles_list):
                        continue
                    self.buf += best[1]
                    sub, rets, trial = best[2:]
                    break
                for nm, phi in spec.inv(self, s1, view1, trial):
                    s1.assume(phi)
                for phi in spec.facts(self, s1, view1, trial):
                    s1.assume(phi)
                v0 = spec.variant(self, s1, view1, trial)
                self.note_weak(s1, H, derived, [p for _, p in spec.inv(self, s1, view1, trial)] + list(spec.facts(self, s1, view1, trial)) + ([zi(v0)] if v0 is not None else []))
                if not self.feasible(s1):
                    self.buf.append((self.prefix + f"{lname}.vacuity", fn, UNDECIDED, "z3", 0, "the loop invariant is contradictory", []))
            sub = Frame(f)
            sub.cut = dict(fr.cut)
            sub.cut[header] = []
            sub.leave = f.loops[header]
            sub.nocut = fr.nocut
            sub.exits = []
            s1.dirty = set()
            self.enter_phis = None
            disc0 = self.discovering
            self.discovering = disc0 or trial is None
            # the header is entered as from outside: bypass the loop test by marking it cut and running with prev=None handled here
            try:
                rets = self.loop_body(sub, s1, regs, header, prev)
            except Unsupported:
                raise
            finally:
                self.discovering = disc0
            for k in range(8):
                thr = [x for x in sub.cut[header] if spec.through(self, x[0], View(self, fr, x[0], x[1], H)) or self.leaves(f, sub, x, header)]
                if not thr or f.blocks[header][0].op == "phi":
                    break
                sub.cut[header] = [x for x in sub.cut[header] if not any(x is y for y in thr)]
                disc0, self.discovering = self.discovering, disc0 or trial is None
                for s2, r2, p2 in thr:
                    rets += self.loop_body(sub, s2, r2, header, p2)
                self.discovering = disc0
            backs = sub.cut[header]
            if trial is None and not backs and not H and not self.discovering:
                # from this state the body is never completed: no invariant is needed
                self.depth, self.fnstack = depth0, list(fn0)
                del self.buf[mark:]
                keep, fr.nocut = fr.nocut, fr.nocut | {header}
                try:
                    return self.flow(fr, st, regs, header, prev)
                finally:
                    fr.nocut = keep
            # dirty cells
            D = set()
            for s2, r2, _ in backs:
                D |= {d for d in s2.dirty if d[0] in entry_mem or d[0] == "ghost"}
            def kept(d):
                """a constant, or a pointer to an object or function, that every iteration leaves as it was"""
                c0 = st.mem[d[0]].cells.get(d[1]) if d[0] in st.mem and st.mem[d[0]].kind == "cells" else None
                if c0 is not None and isinstance(c0[1], int) and c0[0] == d[2]:
                    ends = [s2.mem[d[0]].cells.get(d[1]) for s2, _, _ in backs]
                    if not all(c is not None and c[0] == c0[0] and (isinstance(c[1], int) or z3.is_expr(c[1]) and (z3.is_int(c[1]) or z3.is_bv(c[1]))) for c in ends):
                        return False
                    if any(isinstance(c[1], int) and c[1] != c0[1] for c in ends):
                        return False
                    return all(isinstance(c[1], int) or self.entails(s2, c[1] == c0[1]) for c, (s2, _, _) in zip(ends, backs))
                if c0 is None or not isinstance(c0[1], Ptr) or not isinstance(c0[1].o, int):
                    return False
                if not isinstance(c0[1].r, tuple) and (c0[1].r not in st.mem or st.mem[c0[1].r].kind != "cells"):
                    return False
                for s2, _, _ in backs:
                    c = s2.mem[d[0]].cells.get(d[1])
                    if c is None or not isinstance(c[1], Ptr) or c[1].r != c0[1].r or not isinstance(c[1].o, int) or c[1].o != c0[1].o:
                        return False
                return True
            D = {d for d in D if d in H or not kept(d)}
            if not D <= H:
                H |= D
                del self.buf[mark:]
                roles_list = [None]
                ri = 0
                continue
            def is_late(d):
                if d[0] not in st.mem or st.mem[d[0]].kind != "cells" or d[1] in ("arr", "n") or d[2] != 8 or (d[0], d[1]) in late:
                    return False
                c0 = st.mem[d[0]].cells.get(d[1])
                if c0 is not None and not isinstance(c0[1], Undef):
                    return False
                ends = [s2.mem[d[0]].cells.get(d[1]) for s2, _, _ in backs]
                return any(c and isinstance(c[1], Ptr) and c[1].r == TEXT for c in ends)
            more = {(d[0], d[1]) for d in D if is_late(d)} if spec.typed_uninitialised else set()
            if more:
                late = spec.late = late | more
                del self.buf[mark:]
                continue
            # derived cells
            lost = {d for d, (c, C, t) in derived.items() if any(not self.derives(s2, d, c, C, t) for s2, _, _ in backs)}
            if lost:
                noderive |= lost
                derived = {}
                del self.buf[mark:]
                continue
            if trial is None and not derived and len(backs):
                derived = self.derive(st, s1, backs, H, noderive)
                if derived:
                    del self.buf[mark:]
                    continue
            # inferred 0/1 cells
            bad = set()
            for key in fresh["bools"]:
                for s2, r2, _ in backs:
                    c = s2.mem[key[0]].cells.get(key[1])
                    if c is None or isinstance(c[1], (Ptr, Undef, Bundle)) or not self.entails(s2, z3.And(zi(c[1]) >= 0, zi(c[1]) <= 1) if not isinstance(c[1], int) else 0 <= c[1] <= 1):
                        bad.add(key)
            if bad:
                nobool |= bad
                del self.buf[mark:]
                continue
            # pointer cells keep their region
            for key in fresh["ptrs"]:
                for s2, r2, _ in backs:
                    c = s2.mem[key[0]].cells.get(key[1])
                    want = fresh["ptrs"][key]
                    if c is not None and isinstance(c[1], Ptr) and c[1].r != want and not {c[1].r, want} <= {TEXT, NULL}:
                        raise Unsupported(f"{lname}: a pointer changes its object")
            if trial is None:
                self.depth, self.fnstack = depth0, list(fn0)
                spec.late = late
                roles_list = list(itertools.islice(spec.roles(self, st, View(self, fr, st, regs, H)), 24))
                del self.buf[mark:]
                if not roles_list:
                    # perhaps a short loop over constants: run it out
                    keep, fr.nocut, lim = fr.nocut, fr.nocut | {header}, self.max_unroll
                    self.max_unroll = min(lim, 12)
                    try:
                        return self.flow(fr, st, regs, header, prev)
                    except Unsupported as e:
                        if "loop without contract" not in str(e):
                            raise
                        raise Unsupported(f"{lname}: no variables fit the roles of the loop contract")
                    finally:
                        fr.nocut, self.max_unroll = keep, lim
                ri = 0
                continue
            for s2, r2, _ in backs:
                view2 = View(self, fr, s2, r2, H)
                for phi in spec.facts(self, s2, view2, trial):
                    s2.assume(phi)
                for nm, phi in spec.inv(self, s2, view2, trial):
                    self.oblige(s2, f"{lname}.preserved.{nm}", phi)
                v1 = spec.variant(self, s2, view2, trial)
                if v0 is not None:
                    self.oblige(s2, f"{lname}.decreases", z3.And(zi(v0) >= 0, zi(v1) < zi(v0)))
            # continue after the loop
            self.depth, self.fnstack = depth0, list(fn0)
            bads = sum(1 for b in self.buf[mark:] if b[2] != PROVED)
            if bads and len(roles_list) > 1:
                if best is None or bads < best[0]:
                    best = (bads, self.buf[mark:], sub, rets, trial)
                if ri + 1 < len(roles_list) and not last:
                    ri += 1
                    del self.buf[mark:]
                    continue
                del self.buf[mark:]
                self.buf += best[1]
                sub, rets, trial = best[2:]
            break
        out = list(rets)
        for s2, r2, b, p in sub.exits:
            s2.dirty |= st.dirty | H
            for phi in spec.at_exit(self, s2, View(self, fr, s2, r2, H), trial) if trial is not None else ():
                s2.assume(phi)
            out += self.flow(fr, s2, r2, b, p)
        for s2, _ in rets:
            s2.dirty |= st.dirty | H
        return out

    def note_weak(self, st, H, derived, phis):
        """Remember the loop-carried values about which the invariant says nothing. A counterexample that depends on one may come from
        the invariant being too weak for the way the loop is written, not from the code: see oblige."""
        said = set()
        for p in phis:
            if z3.is_expr(p):
                said |= consts(p)
        for d in H:
            if d[0] == "ghost" or d in derived or len(d) != 3 or d[1] in ("arr", "n") or d[0] not in st.mem or st.mem[d[0]].kind != "cells":
                continue
            c = st.mem[d[0]].cells.get(d[1])
            v = c[1] if c else None
            if isinstance(v, Ptr) and not isinstance(v.o, int):
                v = ladd(v.o, 0).z() if isinstance(v.o, Lin) else None
            if z3.is_expr(v):
                self.weak |= {n for n in consts(v) if n.startswith("h_")} - said
        self.weak_base |= {p.get_id() for p in st.pc}

    def depends_on_weak(self, st, phi):
        if not self.weak:
            return False
        return bool(consts(phi) & self.weak) or any(p.get_id() not in self.weak_base and consts(p) & self.weak for p in st.pc)

    def cellexpr(self, st, key):
        c = st.mem[key[0]].cells.get(key[1]) if key[0] in st.mem and st.mem[key[0]].kind == "cells" else None
        if c is None or c[0] != key[2] or isinstance(c[1], bool):
            return None
        v = c[1]
        if isinstance(v, int):
            return z3.BitVecVal(v, 8 * key[2]) if self.D.bv else z3.IntVal(v)
        return v if z3.is_expr(v) and (z3.is_int(v) or z3.is_bv(v)) else None

    def derives(self, st, d, c, C, t):
        """d == t[C := c] in st"""
        vd, vc = self.cellexpr(st, d), self.cellexpr(st, c)
        return vd is not None and vc is not None and vd.sort() == t.sort() and vc.sort() == C.sort() and self.entails(st, vd == z3.substitute(t, (C, vc)))

    def derive(self, st, head, backs, H, noderive):
        """Cells that hold a function of another cell at the end of every iteration and on entry (a value computed ahead for the next round):
        found by generalising the term of the one over the term of the other, then checked."""
        keys = [d for d in H if d[0] != "ghost" and len(d) == 3 and d[1] not in ("arr", "n") and isinstance(d[2], int)]
        hv = {d: self.cellexpr(head, d) for d in keys}
        keys = [d for d in sorted(keys, key=str) if hv[d] is not None and z3.is_const(hv[d]) and self.cellexpr(st, d) is not None]
        names = {str(hv[d]) for d in keys}
        out = {}
        s2 = backs[0][0]
        for d in keys:
            e = self.cellexpr(s2, d)
            if d in noderive or e is None or z3.is_const(e) or d[2] == 1:
                continue
            for c in keys:
                v = self.cellexpr(s2, c)
                if c == d or c in out or v is None or z3.is_const(v):
                    continue
                C = z3.Const("derived_from", v.sort())
                t = z3.substitute(e, (v, C))
                free = consts(t)
                if "derived_from" not in free or free & names or z3.eq(t, C):
                    continue
                if self.derives(st, d, c, C, t) and all(self.derives(b[0], d, c, C, t) for b in backs):
                    out[d] = (c, C, t)
                    break
        return out

    def leaves(self, f, sub, x, header):
        """Can a state at a back edge only leave the loop, by a loop test that calls nothing (a flag set in the body)?
        Such a state is executed on rather than being asked to satisfy the invariant."""
        st, regs, prev = x
        work = [(header, prev, st, regs, 0)]
        mark = len(self.buf)
        try:
            while work:
                block, prev, st, regs, k = work.pop()
                if block not in f.loops[header]:
                    continue
                ins = f.blocks[block]
                if k > 3 or (k and block == header) or ins[-1].op != "br" or any(i.op in ("call", "store", "select") for i in ins):
                    return False
                if k == 0 and (ins[0].op == "phi" or ins[-1].a[1] is None):
                    return False
                i, new = 0, {}
                while ins[i].op == "phi":
                    for v, b in ins[i].a:
                        if b == prev:
                            new[ins[i].dst] = self.val(st, regs, ins[i].ty, v)
                    i += 1
                regs = dict(regs)
                regs.update(new)
                for nx in self.block(sub, st.copy(), regs, block, prev, i):
                    work.append((nx[3], block, nx[1], nx[2], k + 1))
            return True
        except (Dead, Unsupported):
            return False
        finally:
            del self.buf[mark:]

    def loop_body(self, sub, st, regs, header, prev):
        """Run one iteration; loop exits go to sub.exits, back edges to sub.cut[header]."""
        f = sub.f
        ins = f.blocks[header]
        if ins[0].op == "phi":
            new = {}
            i = 0
            while ins[i].op == "phi":
                if ins[i].ty[0] != "i":
                    raise Unsupported("pointer phi at a cut loop header")
                new[ins[i].dst] = self.D.fresh(st, ins[i].dst, ins[i].ty[1])
                i += 1
            regs = dict(regs)
            regs.update(new)
            idx = i
        else:
            idx = 0
        out = []
        try:
            nxt = self.block(sub, st, regs, header, prev, idx)
        except Dead:
            return out
        for nx in nxt:
            if nx[0] == "ret":
                out.append((nx[1], nx[2]))
            else:
                _, s2, r2, b, p, i2 = nx
                if i2 == 0:
                    out += self.flow(sub, s2, r2, b, p)
                else:
                    out += self.flow_from(sub, s2, r2, b, p, i2)
        return out

    def flow_from(self, sub, st, regs, block, prev, idx):
        out = []
        try:
            nxt = self.block(sub, st, regs, block, prev, idx)
        except Dead:
            return out
        for nx in nxt:
            if nx[0] == "ret":
                out.append((nx[1], nx[2]))
            else:
                _, s2, r2, b, p, i2 = nx
                out += self.flow(sub, s2, r2, b, p) if i2 == 0 else self.flow_from(sub, s2, r2, b, p, i2)
        return out

    def havoc(self, st, H, entry_mem, spec, lname, nobool):
        fresh = {"bools": [], "ptrs": {}}
        for d in sorted(H, key=str):
            if d[0] == "ghost":
                v = st.ghost.get(d[1])
                st.ghost[d[1]] = self.havoc_ghost(st, d[1], v)
                continue
            reg = st.wr(d[0])
            if d[1] == "arr":
                sz, kind, arr = reg.fields[d[2]]
                reg.fields[d[2]] = (sz, kind, z3.Array(self.uniq(f"h_{reg.name}_{d[2]}"), z3.IntSort(), z3.IntSort()))
                continue
            if d[1] == "n":
                reg.n = z3.Int(self.uniq(f"h_{reg.name}_n"))
                st.assume(reg.n >= 0, reg.n < 2**58)
                continue
            if reg.kind == "array":
                continue
            c = reg.cells.get(d[1])
            if c is None:
                continue
            sz, v = c
            if isinstance(v, Ptr):
                if v.r in (TEXT, NULL):
                    a = z3.Int(self.uniq(f"h_{reg.name}_{d[1]}"))
                    st.assume(a >= 0, a < 2**62)
                    nv = Ptr(TEXT, Lin.of(a))
                    fresh["ptrs"][(d[0], d[1])] = v.r
                elif isinstance(v.r, tuple):
                    reg.cells.pop(d[1])
                    continue
                elif st.mem[v.r].kind == "array":
                    i = z3.Int(self.uniq(f"h_{reg.name}_{d[1]}"))
                    el = st.mem[v.r].elem
                    nv = Ptr(v.r, Lin(0, ((el, i),)))
                    fresh["ptrs"][(d[0], d[1])] = v.r
                else:
                    reg.cells.pop(d[1])  # scratch pointer, rewritten before use
                    continue
            elif isinstance(v, (Undef, Bundle)):
                reg.cells.pop(d[1])
                continue
            elif isinstance(v, PtrInt):
                reg.cells.pop(d[1])
                continue
            elif z3.is_expr(v) and v.sort().kind() == z3.Z3_SEQ_SORT or isinstance(v, tuple):
                nv = self.havoc_ghost(st, reg.name, v)
            else:
                nv = self.D.fresh(st, f"h_{reg.name}_{d[1]}", 8 * sz)
                if (d[0], d[1]) not in nobool and sz == 1:
                    e = is01(v) if z3.is_expr(v) else None
                    if (isinstance(v, int) and v in (0, 1)) or e is not None or (z3.is_expr(v) and not self.D.bv and self.entails(st, v <= 1)):
                        if not self.D.bv:
                            st.assume(nv <= 1)
                            fresh["bools"].append((d[0], d[1]))
            reg.cells[d[1]] = (sz, nv)
        return fresh

    def havoc_ghost(self, st, name, v):
        if isinstance(v, int):
            x = z3.Int(self.uniq("g_" + name))
            return x
        if isinstance(v, bool):
            return z3.Bool(self.uniq("g_" + name))
        if z3.is_expr(v):
            return z3.Const(self.uniq("g_" + name), v.sort())
        raise Unsupported("ghost " + name)


def consts(e):
    """names of the uninterpreted constants in a term"""
    seen, out, work = set(), set(), [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            work.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        work += x.children()
    return out


_short = {}


def short(d):
    """function name without arguments and template arguments"""
    r = _short.get(d)
    if r is None:
        out, depth, par = "", 0, 0
        x = d.replace("(anonymous namespace)::", "").replace("operator()", "operator[call]").replace("operator<<", "operator[shl]").replace("operator<", "operator[lt]").replace("operator->", "operator[arrow]").replace("operator>", "operator[gt]").replace("{lambda(", "{lambda[")
        for ch in x:
            if ch == "<":
                depth += 1
            elif ch == ">" and depth:
                depth -= 1
            elif depth == 0:
                if ch == "(":
                    break
                out += ch
        r = _short[d] = out.split(" ")[-1][:90] or d[:90]
    return r


class Frame:
    def __init__(self, f):
        self.f = f
        self.cut = {}
        self.nocut = frozenset()
        self.leave = None
        self.exits = []


class Dead(Exception):
    pass


class PtrInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Bundle:
    """Several cells loaded as one integer (argument coercion)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


class View:
    """What a loop contract sees: locals by name, modified cells, ghosts."""

    def __init__(self, ex, fr, st, regs, H):
        self.ex, self.fr, self.st, self.regs, self.H = ex, fr, st, regs, H

    def local(self, name, off=0):
        p = self.regs.get(name)
        if not isinstance(p, Ptr):
            return None
        c = self.st.mem[p.r].cells.get(p.o + off)
        return c[1] if c else None

    def cell(self, key):
        c = self.st.mem[key[0]].cells.get(key[1])
        return c[1] if c else None

    def name(self, key):
        n = self.st.mem[key[0]].name
        return n.rsplit(".", 1)[-1] if n.startswith(self.fr.f.name) else n

    def modified(self, pred):
        """keys of modified scalar cells whose value satisfies pred, locals of this function first"""
        out = []
        for d in sorted(self.H, key=str):
            if d[0] == "ghost" or d[1] in ("arr", "n"):
                continue
            if d[0] not in self.st.mem or self.st.mem[d[0]].kind != "cells":
                continue
            c = self.st.mem[d[0]].cells.get(d[1])
            if c is not None and pred(c[1], c[0]):
                out.append((d[0], d[1]))
        return out

    def locals(self, pred):
        """all cells of this function's locals satisfying pred: [(name, key)]"""
        out = []
        for nm, p in self.regs.items():
            if isinstance(p, Ptr) and p.r in self.st.mem and isinstance(p.o, int):
                reg = self.st.mem[p.r]
                if reg.kind == "cells":
                    for o, (s, v) in reg.cells.items():
                        if isinstance(o, int) and pred(v, s) and (p.r, o) not in [k for _, k in out]:
                            out.append((nm, (p.r, o)))
        return out


# ---- library contracts (assumed) ---------------------------------------------
def llvm_intrinsic(ex, st, args, where, name):
    if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.donothing", "llvm.experimental.noalias", "llvm.prefetch", "llvm.va_")):
        return [(st, UNDEF)]
    if name.startswith(("llvm.memcpy", "llvm.memmove")):
        ex.memcpy(st, args[0], args[1], args[2], where)
        return [(st, UNDEF)]
    if name.startswith("llvm.memset"):
        p, v, n = args[:3]
        if not isinstance(n, int) or not isinstance(p.o, int):
            raise Unsupported("memset of symbolic extent")
        if p.r == NULL:
            raise Unsupported("memset null")
        if n == 0:
            return [(st, UNDEF)]
        reg = st.wr(p.r)
        if reg.kind != "cells" or not isinstance(v, int):
            raise Unsupported("memset")
        lay = None
        for o in [o for o, (z, _) in reg.cells.items() if isinstance(o, int) and o < p.o + n and o + z > p.o]:
            z = reg.cells.pop(o)[0]
            st.dirty.add((p.r, o, z))
        # word-sized zero cells; byte cells otherwise
        o = p.o
        while o < p.o + n:
            k = 8 if v == 0 and o % 8 == 0 and o + 8 <= p.o + n else 1
            ex.put(st, p.r, reg, o, k, v if k == 1 else 0)
            o += k
        return [(st, UNDEF)]
    if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
        raise Unsupported(name)
    if name.startswith("llvm.is.constant"):
        return [(st, False)]
    if name.startswith("llvm.expect"):
        return [(st, args[0])]
    if name.startswith("llvm.trap"):
        ex.oblige(st, where + ".trap", z3.BoolVal(False))
        raise Dead()
    m = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", name)
    if m and not ex.D.bv and m.group(1) == "u":
        n = int(m.group(3))
        a, b = zi(args[0]), zi(args[1])
        r = {"add": a + b, "sub": a - b, "mul": a * b}[m.group(2)]
        ov = z3.simplify(z3.Or(r < 0, r >= 2**n))
        return [(st, [ex.D.canon(st, r, n), ov])]
    if name.startswith("llvm.objectsize"):
        raise Unsupported(name)
    raise Unsupported(name)


def no_return(kind):
    def h(ex, st, args, where, name):
        ex.oblige(st, f"{where}.{kind}", z3.BoolVal(False))
        raise Dead()
    return h


def assert_fail(ex, st, args, where, name):
    ex.oblige(st, f"{where}.assert", z3.BoolVal(False))
    raise Dead()


def cclass(chars, val=1):
    def h(ex, st, args, where, name):
        c = args[0]
        if isinstance(c, int):
            return [(st, 1 if c in chars else 0)]
        runs = []
        for x in sorted(chars):
            if runs and runs[-1][1] == x - 1:
                runs[-1][1] = x
            else:
                runs.append([x, x])
        if ex.D.bv:
            phi = z3.Or([z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in runs])
            return [(st, z3.If(phi, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))]
        phi = z3.Or([z3.And(c >= a, c <= b) for a, b in runs])
        return [(st, z3.If(phi, z3.IntVal(1), z3.IntVal(0)))]
    return h


def tolower_h(ex, st, args, where, name):
    c = args[0]
    if isinstance(c, int):
        return [(st, c + 32 if 65 <= c <= 90 else c)]
    if ex.D.bv:
        return [(st, z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c))]
    return [(st, z3.If(z3.And(c >= 65, c <= 90), c + 32, c))]


def toupper_h(ex, st, args, where, name):
    c = args[0]
    if isinstance(c, int):
        return [(st, c - 32 if 97 <= c <= 122 else c)]
    return [(st, z3.If(z3.And(c >= 97, c <= 122), c - 32, c))]


def strlen_h(ex, st, args, where, name):
    p = args[0]
    if isinstance(p, Ptr) and p.r == TEXT:
        for data, a in ex.literals.items():
            d = z3.simplify(p.addr() - a)
            if z3.is_int_value(d) and 0 <= d.as_long() < len(data) and 0 in data[d.as_long():]:
                return [(st, data.index(0, d.as_long()) - d.as_long())]
        # a pointer known to be one of the literals
        for data, a in list(ex.literals.items()):
            if 0 in data and ex.entails(st, p.addr() == a):
                return [(st, data.index(0))]
        # split over the literals if they cover it
        opts = [(data, a) for data, a in ex.literals.items() if 0 in data]
        if opts and ex.entails(st, z3.Or([p.addr() == a for _, a in opts])):
            out = []
            for data, a in opts:
                if ex.feasible(st, p.addr() == a):
                    out.append((st.copy().assume(p.addr() == a), data.index(0)))
            return out
    if ex.discovering:
        n = z3.Int(ex.uniq("strlen"))
        st.assume(n >= 0, n < 2**30)
        return [(st, n)]
    raise Unsupported("strlen of an unknown string at " + where)


def memcmp_h(ex, st, args, where, name):
    a, b, n = args
    if isinstance(n, Lin):
        n = n.z()
    for p in (a, b):
        if not isinstance(p, Ptr) or p.r not in (TEXT, NULL):
            raise Unsupported("memcmp outside text")
    k = n if isinstance(n, int) else ex.concretize(st, n)
    if k == 0:
        return [(st, 0)]
    A, B = a.addr(), b.addr()
    for x in (A, B):
        ex.oblige(st, where + ".readable", z3.Or(zi(n) == 0, *[z3.And(bb <= x, x + zi(n) <= bb + m) for bb, m in st.readable]))
    eq = ex.content(st, a, n) == ex.content(st, b, n) if k is None or k > 16 else z3.And([z3.Select(M, z3.simplify(A + i)) == z3.Select(M, z3.simplify(B + i)) for i in range(k)])
    o = []
    if ex.feasible(st, eq):
        o.append((st.copy().assume(eq), 0))
    if ex.feasible(st, z3.Not(eq)):
        s2 = st.copy().assume(z3.Not(eq))
        r = z3.Int(ex.uniq("cmp"))
        s2.assume(r > 0, r < 2**32)
        o.append((s2, r))
    return o


def memchr_h(ex, st, args, where, name):
    p, c, n = args
    if isinstance(n, Lin):
        n = n.z()
    k = n if isinstance(n, int) else ex.concretize(st, n)
    if not isinstance(p, Ptr) or p.r not in (TEXT, NULL) or k is None or k > 64:
        raise Unsupported("memchr of unbounded text at " + where)
    if k == 0:
        return [(st, Ptr(NULL, 0))]
    A = p.addr()
    ex.oblige(st, where + ".readable", z3.Or([z3.And(bb <= A, A + k <= bb + m) for bb, m in st.readable]))
    b = c % 256 if isinstance(c, int) else zi(c) % 256
    out = []
    for i in range(k + 1):
        hit = z3.Select(M, z3.simplify(A + i)) == b
        if i == k:
            out.append((st, Ptr(NULL, 0)))
            break
        if ex.feasible(st, hit):
            out.append((st.copy().assume(hit), Ptr(TEXT, ladd(p.o, i)) if p.r == TEXT else p))
        st = st.copy().assume(z3.Not(hit))
        if not ex.feasible(st, z3.BoolVal(True)):
            break
    return out


A_Z, a_z, D0_9 = set(range(65, 91)), set(range(97, 123)), set(range(48, 58))
BUILTIN = {
    "__assert_fail": assert_fail, "abort": no_return("abort"), "_ZSt9terminatev": no_return("terminate"),
    "isalpha": cclass(A_Z | a_z), "isdigit": cclass(D0_9), "isalnum": cclass(A_Z | a_z | D0_9),
    "isxdigit": cclass(D0_9 | set(range(65, 71)) | set(range(97, 103))), "islower": cclass(a_z), "isupper": cclass(A_Z),
    "isspace": cclass({9, 10, 11, 12, 13, 32}), "isprint": cclass(set(range(32, 127))), "isgraph": cclass(set(range(33, 127))),
    "iscntrl": cclass(set(range(32)) | {127}), "ispunct": cclass(set(range(33, 127)) - A_Z - a_z - D0_9),
    "tolower": tolower_h, "toupper": toupper_h, "strlen": strlen_h, "memchr": memchr_h, "memcmp": memcmp_h, "bcmp": memcmp_h,
}
EXTERN = [
    (re.compile(r"^std::__throw_|__cxa_throw|^std::__glibcxx_assert_fail"), no_return("throws")),
]
