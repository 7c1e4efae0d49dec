"""Products, quotients and remainders of two variables as functions of which only the facts below are used, so that every
obligation stays linear. Each fact is one of the schemas that lemmas() proves of the true operations."""
import z3
from .common import *
from .sym import *

I = z3.IntSort()
MUL, DIV, REM = z3.Function("mul", I, I, I), z3.Function("div", I, I, I), z3.Function("rem", I, I, I)
SMALL = 36


def isv(x):
    return isinstance(x, int) or z3.is_int_value(x)


def val(x):
    return x if isinstance(x, int) else x.as_long()


def mul_facts(a, b):
    """for a small a: the product is linear in b"""
    T = MUL(a, b)
    return [z3.Implies(a == c, T == c * b) for c in range(SMALL + 1)]


def div_small(a, b):
    """for a small divisor"""
    T, R = DIV(a, b), REM(a, b)
    out = []
    for c in range(1, SMALL + 1):
        q = z3.IntVal(val(a) // c) if isv(a) else a / c
        r = z3.IntVal(val(a) % c) if isv(a) else a % c
        out.append(z3.Implies(b == c, z3.And(T == q, R == r)))
    return out


def div_facts(a, b):
    return [z3.Implies(z3.And(a >= 0, b >= 1), z3.And(DIV(a, b) >= 0, DIV(a, b) <= a, MUL(DIV(a, b), b) == a - REM(a, b), MUL(b, DIV(a, b)) == a - REM(a, b), REM(a, b) >= 0, REM(a, b) < b, REM(a, b) <= a)),
            z3.Implies(z3.And(a >= 0, b > a), z3.And(DIV(a, b) == 0, REM(a, b) == a))]


def div_against(a, b):
    """a small number compared with a / b"""
    return [z3.Implies(z3.And(a >= 0, b >= 1), z3.And(*[(DIV(a, b) < c) == (c * b > a) for c in range(1, SMALL + 1)]))]


def mul_bound(a, b, A, B):
    return [z3.Implies(z3.And(a >= 0, a <= A, b >= 0, b <= B), z3.And(MUL(a, b) >= 0, MUL(a, b) <= A * B))]


def real(phi):
    """with the operations themselves"""
    x, y = z3.Var(0, I), z3.Var(1, I)
    return z3.substitute_funs(phi, (MUL, x * y), (DIV, x / y), (REM, x % y))


class NL:
    def __init__(self, bounds=()):
        self.bounds = bounds

    def small(self, ex, st, x):
        return not isv(x) and ex.entails(st, z3.And(x >= 0, x <= SMALL))

    def mul(self, ex, st, a, b):
        if self.small(ex, st, b) and not self.small(ex, st, a):
            a, b = b, a
        if self.small(ex, st, a):
            st.assume(*mul_facts(a, b))
        st.assume(z3.Implies(z3.And(a >= 0, b >= 0), MUL(a, b) >= 0))
        for A, B in self.bounds:
            st.assume(*mul_bound(a, b, A, B), *mul_bound(b, a, A, B))
        st.assume(MUL(a, b) == MUL(b, a))
        return MUL(a, b)

    def div(self, ex, st, a, b):
        st.assume(*div_facts(a, b))
        if self.small(ex, st, b):
            st.assume(*div_small(a, b))
        elif not isv(a) or True:
            st.assume(*div_against(a, b))
        return DIV(a, b)

    def exact(self, ex, st, phi, m):
        """A counterexample in which products and quotients may be anything: look for one where they are what they are."""
        def values(m):
            """the arguments of the operations as the counterexample has them: what is left is arithmetic of constants"""
            out, seen, todo = [], set(), list(st.pc) + [phi]
            while todo:
                e = todo.pop()
                if e.get_id() in seen or z3.is_quantifier(e) or not z3.is_app(e):
                    continue
                seen.add(e.get_id())
                if e.decl() in (MUL, DIV, REM) and not isv(e.arg(1)):
                    out.append(e.arg(1) == m.eval(e.arg(1), model_completion=True))
                todo += e.children()
            return out
        unknown = False
        for extra in (values(m), []):
            s = z3.Solver()
            s.set("timeout", 8000)
            s.add(*[real(p) for p in st.pc], *[real(p) for p in extra])
            s.add(z3.Not(real(phi)))
            r = s.check()
            if r == z3.sat:
                return r, s.model()
            unknown = r != z3.unsat
        return (z3.unknown, m) if unknown else (z3.unsat, None)

    def rem(self, ex, st, a, b):
        self.div(ex, st, a, b)
        return REM(a, b)


def lemmas(ex, name="arith"):
    """the facts hold of *, div and mod"""
    a, b, A, B = z3.Ints("a b A B")
    st = State()
    for what, facts in (("product", mul_facts(a, b)), ("small-divisor", div_small(a, b)), ("quotient", div_facts(a, b)), ("compare", div_against(a, b)), ("bound", mul_bound(a, b, A, B))):
        for f in facts:
            ex.oblige(st, f"lemma.{name}.{what}", real(f))
