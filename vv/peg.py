"""Decision procedure for parsing expressions: languages as boolean combinations of atoms, compared by derivatives.

A language term is a BDD over atoms; an atom says what the next letter must be and which term the rest must satisfy. Letters are
classes of bytes (ints) and marks (strings). M(e, K) is the set of words of which e matches a prefix (ordered choice, greedy
repetition, no backtracking) such that the rest is in K. All constructions are exact; equality and inclusion are decided by
exploring the derivatives of a term until no new one appears."""
import sys
from .common import *

sys.setrecursionlimit(20000)


class Lang:
    def __init__(self, sets, expr, open_close=None, limit=200000):
        """sets: byte sets to be told apart; expr(key) -> expression of a nonterminal; open_close(acc) -> (marks before, marks after)"""
        sig = {}
        for b in range(256):
            sig.setdefault(tuple(b in s for s in sets), []).append(b)
        self.classes = [frozenset(v) for v in sig.values()]
        self.rep = [self.pick(c) for c in self.classes]
        self.sets = {}
        self.expr, self.oc = expr, open_close or (lambda a: ((), ()))
        self.nodes = [None, None]          # 0 = False, 1 = True
        self.uniq, self.memo = {}, {}
        self.atoms, self.aid = [], {}
        self.dm, self.mm = {}, {}
        self.limit = limit

    @staticmethod
    def pick(c):
        for p in b"a1b/.:-@?#%[]!~":
            if p in c:
                return p
        return min(c)

    # ---- BDD ---------------------------------------------------------------------
    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = r
            if r > 3_000_000:
                raise Unsupported("language term too large")
        return r

    def ite(self, f, g, h):
        if f == 1 or g == h:
            return g
        if f == 0:
            return h
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        n = self.nodes
        v = n[f][0]
        if g > 1 and n[g][0] < v:
            v = n[g][0]
        if h > 1 and n[h][0] < v:
            v = n[h][0]
        f0, f1 = (n[f][1], n[f][2]) if n[f][0] == v else (f, f)
        g0, g1 = (n[g][1], n[g][2]) if g > 1 and n[g][0] == v else (g, g)
        h0, h1 = (n[h][1], n[h][2]) if h > 1 and n[h][0] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def atom(self, a):
        i = self.aid.get(a)
        if i is None:
            i = len(self.atoms)
            self.aid[a] = i
            self.atoms.append(a)
        return self.mk(i, 0, 1)

    # ---- terms -------------------------------------------------------------------
    def cls(self, S):
        r = self.sets.get(S)
        if r is None:
            r = frozenset(i for i, c in enumerate(self.classes) if c & S)
            if any(i in r and not c <= S for i, c in enumerate(self.classes)):
                raise Unsupported("byte set outside the partition")
            self.sets[S] = r
        return r

    def C(self, S, K, plain):
        if not S or K == 0:
            return 0
        return self.atom(("C", S, K, plain))

    def marks(self, ms, K):
        for m in reversed(ms):
            K = self.atom(("M", m, K)) if K else 0
        return K

    def M(self, e, K, mode):
        """mode: 'm' with capture marks, 'p' plain (marks in the word are skipped), 's' strict without marks"""
        k = (id(e), K, mode)
        r = self.mm.get(k)
        if r is None:
            r = self.M_(e, K, mode)
            self.mm[k] = r
            self.mm[("keep", id(e))] = e
        return r

    def fail(self, e):
        return self.NOT(self.M(e, 1, "p"))

    def M_(self, e, K, mode):
        t = e[0]
        if t == "eps":
            return K
        if t == "fail":
            return 0
        if t == "cls":
            return self.C(self.cls(e[1]), K, mode == "p")
        if t == "seq":
            return self.M(e[1], self.M(e[2], K, mode), mode)
        if t == "alt":
            return self.OR(self.M(e[1], K, mode), self.AND(self.fail(e[1]), self.M(e[2], K, mode)))
        if t == "opt":
            return self.OR(self.M(e[1], K, mode), self.AND(self.fail(e[1]), K))
        if t == "nt":
            return self.M(self.expr(e[1]), K, mode)
        if t == "cap":
            if mode != "m":
                return self.M(e[2], K, mode)
            o, c = self.oc(e[1])
            return self.marks(o, self.M(e[2], self.marks(c, K), mode))
        if t == "star":
            return self.star(e[1], 0, e[2], e[3], K, mode)
        if t == "case":
            r = 0
            for S, x in e[1]:
                la = self.C(self.cls(frozenset(b for b in S if b >= 0)), 1, True)
                if -1 in S:
                    la = self.OR(la, self.atom(("END",)))
                r = self.OR(r, self.AND(la, self.M(x, K, mode)))
            return r
        # the specification side: regular expressions
        if t == "ralt":
            r = 0
            for x in e[1:]:
                r = self.OR(r, self.M(x, K, mode))
            return r
        if t == "rstar":
            return self.OR(K, self.atom(("RS", e[1], e[2] if len(e) > 2 else 0, K, mode)))
        if t == "mark":
            return self.marks(e[1:], K) if mode == "m" else K
        raise Unsupported("expression " + t)

    def star(self, e, i, lo, hi, K, mode):
        if i >= hi:
            return K if i >= lo else 0
        i = min(i, lo) if hi >= 0xFFFFFFFF else i
        return self.atom(("S", e, i, lo, hi, K, mode))

    def unfold(self, a):
        """the term an atom stands for, for atoms that are delayed"""
        k = ("u", a)
        r = self.mm.get(k)
        if r is None:
            if a[0] == "S":
                _, e, i, lo, hi, K, mode = a
                r = self.M(e, self.star(e, i + 1, lo, hi, K, mode), mode)
                if i >= lo:
                    r = self.OR(r, self.AND(self.fail(e), K))
            else:
                _, e, _, K, mode = a
                r = self.M(e, self.OR(K, self.atom(a)), mode)
            self.mm[k] = r
        return r

    def datom(self, i, x):
        a = self.atoms[i]
        t = a[0]
        if t == "C":
            if isinstance(x, str):
                return self.mk(i, 0, 1) if a[3] else 0
            return a[2] if x in a[1] else 0
        if t == "M":
            return a[2] if a[1] == x else 0
        if t == "END":
            return self.mk(i, 0, 1) if isinstance(x, str) else 0
        return self.D(self.unfold(a), x)

    def D(self, f, x):
        if f < 2:
            return f
        k = (f, x)
        r = self.dm.get(k)
        if r is None:
            v, lo, hi = self.nodes[f]
            self.dm[k] = None
            r = self.ite(self.datom(v, x), self.D(hi, x), self.D(lo, x))
            self.dm[k] = r
        return r

    def null(self, f):
        if f < 2:
            return f == 1
        k = ("n", f)
        r = self.mm.get(k)
        if r is None:
            v, lo, hi = self.nodes[f]
            a = self.atoms[v]
            self.mm[k] = False
            b = a[0] == "END" or (a[0] in ("S", "RS") and self.null(self.unfold(a)))
            r = self.null(hi if b else lo)
            self.mm[k] = r
        return r

    # ---- decisions ---------------------------------------------------------------
    def witness(self, f, letters, want=1):
        """shortest words in f; returns (list of words, number of states)"""
        seen = {f: None}
        queue = [f]
        out = []
        i = 0
        while i < len(queue):
            s = queue[i]
            i += 1
            if self.null(s):
                w, q = [], s
                while seen[q] is not None:
                    q, x = seen[q]
                    w.append(x)
                out.append(w[::-1])
                if len(out) >= want:
                    break
            for x in letters:
                d = self.D(s, x)
                if d != 0 and d not in seen:
                    seen[d] = (s, x)
                    queue.append(d)
                    if len(seen) > self.limit:
                        raise Unsupported("too many derivatives")
        return out, len(seen)

    def text(self, w):
        return bytes(self.rep[x] for x in w if not isinstance(x, str))


def char_sets(exprs):
    out = set()

    def go(e):
        if e[0] == "cls":
            out.add(e[1])
        if e[0] == "case":
            for S, x in e[1]:
                out.add(frozenset(b for b in S if b >= 0))
                go(x)
            return
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and e[0] not in ("nt", "mark"):
                go(x)
    for e in exprs:
        go(e)
    return out
