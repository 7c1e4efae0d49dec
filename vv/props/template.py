"""Lemmas that tie a marked template to the contract of compose(): every word of the template is the text that compose() writes for
the parts that the word's marks build. The template is walked symbolically: text between the marks of a component is an arbitrary
view, marks have the effect that C02 proves of the acceptors (`expected`), a repetition is cut at the invariant "text so far = text
before the path ++ path_prefix(n)", and at the end the text is compared with `parts_text`, the contract of compose()."""
from .composer import *
from .c02 import expected

ANYBYTE = frozenset(range(256))


def copy_parts(p):
    q = Parts.__new__(Parts)
    q.__dict__.update(p.__dict__)
    return q


def no_parts():
    p = Parts.__new__(Parts)
    no = lambda: Opt(z3.BoolVal(False), NOVIEW)
    a = Auth.__new__(Auth)
    a.userinfo, a.port, a.host = no(), no(), NOVIEW
    q = Path.__new__(Path)
    q.absolute, q.segments = z3.BoolVal(False), Segs(z3.IntVal(0), ZERO, ZERO)
    p.scheme, p.authority, p.path, p.query, p.fragment = no(), Opt(z3.BoolVal(False), a), q, no(), no()
    return p


class Word:
    """what has been read: assumptions, parts built, text, the open component, text before the path"""
    def __init__(self, st):
        self.st, self.parts, self.text, self.open, self.view, self.base = st, no_parts(), E0, None, None, E0

    def copy(self):
        w = Word.__new__(Word)
        w.__dict__.update(self.__dict__)
        w.st, w.parts = self.st.copy(), copy_parts(self.parts)
        return w


def frame_lemma(ex):
    """path_prefix(k) looks at the first k elements only"""
    st = State()
    ln, pt = z3.Const("len0", ARR), z3.Const("ptr0", ARR)
    ab, k, m, x, y = z3.Bool("abs0"), *z3.Ints("k m x y")
    st.assume(k >= 0, m >= 0)
    a, b = Segs(m, ln, pt), Segs(m, z3.Store(ln, m, x), z3.Store(pt, m, y))
    same = lambda i: z3.Implies(i <= m, PFX(ab, a.len, a.ptr, i) == PFX(ab, b.len, b.ptr, i))
    st.assume(*pfx_facts(ex, st, ab, a, k)[:2], *pfx_facts(ex, st, ab, b, k)[:2])
    ex.oblige(st, "lemma.prefix-frame.base", same(z3.IntVal(0)))
    ex.oblige(st, "lemma.prefix-frame.step", z3.Implies(same(k), same(k + 1)))


class Walk:
    def __init__(self, ex, where, paths):
        self.ex, self.where, self.paths, self.n = ex, where, paths, 0

    def fresh(self, st):
        self.n += 1
        v = View(z3.Int(f"len!{self.n}"), z3.Int(f"ptr!{self.n}"))
        st.assume(v.n >= 0, v.n < 2**32, v.a > 0, *empties([v]))
        return v

    def go(self, x, w):
        """words after x"""
        if any(x is p for p in self.paths):
            w = w.copy()
            w.base = w.text
        k = x[0]
        if k == "eps":
            return [w]
        if k == "seq":
            return [v for u in self.go(x[1], w) for v in self.go(x[2], u)]
        if k == "ralt":
            return [v for y in x[1:] for v in self.go(y, w.copy())]
        if k == "cls":
            if len(x[1]) != 1 or w.open:
                raise Unsupported("template character")
            w.text = seqcat(w.text, z3.Unit(z3.IntVal(min(x[1]))))
            return [w]
        if k == "mark":
            for m in x[1:]:
                w = self.mark(w, m)
            return [w]
        if k == "rstar" and w.open:
            if x[1][0] != "cls" or x[1][1] != ANYBYTE or w.view is not None:
                raise Unsupported("template component")
            w.view = self.fresh(w.st)
            w.text = seqcat(w.text, Tf(w.view.a, w.view.n))
            return [w]
        if k == "rstar":
            return self.star(x[1], w)
        raise Unsupported("template " + k)

    def mark(self, w, m):
        if m[0] == "o" and len(m) == 2:
            w.open, w.view = m[1], None
        elif m[0] == "c" and len(m) == 2:
            if w.open != m[1] or w.view is None:
                raise Unsupported("template mark")
            self.effect(w, m[1], w.view)
            w.open = w.view = None
        else:
            self.effect(w, m, None)
        return w

    def effect(self, w, e, sv):
        old = w.parts.path
        w.parts = expected(e, w.parts, sv)
        new = w.parts.path
        s, t = old.segments, new.segments
        if s is not t:
            at = s.n - 1 if e == "V" else s.n
            for q, sg in ((old, s), (new, t)):
                w.st.assume(*pfx_facts(self.ex, w.st, q.absolute, sg, at))
            # lemma.prefix-frame
            w.st.assume(z3.Implies(at >= 0, PFX(new.absolute, s.len, s.ptr, at) == PFX(new.absolute, t.len, t.ptr, at)))

    def inv(self, w):
        q = w.parts.path
        return [("one-segment-at-least", q.segments.n >= 1),
                ("text", w.text == z3.Concat(w.base, PFX(q.absolute, q.segments.len, q.segments.ptr, q.segments.n)))]

    def star(self, body, w):
        ex = self.ex
        for nm, phi in self.inv(w):
            ex.oblige(w.st, f"{self.where}.repetition.init.{nm}", phi)
        w = w.copy()
        self.n += 1
        q = Path.__new__(Path)
        q.absolute = w.parts.path.absolute
        q.segments = Segs(z3.Int(f"n!{self.n}"), z3.Const(f"len_!{self.n}", ARR), z3.Const(f"ptr_!{self.n}", ARR))
        w.parts.path = q
        w.text = seqcat(w.base, PFX(q.absolute, q.segments.len, q.segments.ptr, q.segments.n))
        w.st.assume(q.segments.n >= 1)
        for v in self.go(body, w.copy()):
            for nm, phi in self.inv(v) + [("path-kind", v.parts.path.absolute == q.absolute)]:
                ex.oblige(v.st, f"{self.where}.repetition.preserved.{nm}", phi)
            for f in ("scheme", "authority", "query", "fragment"):
                if getattr(v.parts, f) is not getattr(w.parts, f):
                    raise Unsupported("a repetition sets " + f)
        return [w]


def template_is_composed(rep, mod, template, paths, prefix, name):
    ex = Exec(mod, rep, prefix=prefix)
    ex.fnstack = ["specification"]
    frame_lemma(ex)
    W = Walk(ex, name, paths)
    for i, w in enumerate(W.go(template, Word(State()))):
        ex.oblige(w.st, f"{name}.text", w.text == parts_text(ex, w.st, w.parts))
    ex.flush()
    return len(ex.buf)


# ---- the other direction: the text of given parts is a word of a template ------------
class Given:
    def __init__(self, st):
        self.st, self.text, self.base, self.i, self.open, self.used, self.cond = st, E0, E0, z3.IntVal(0), None, frozenset(), []

    def copy(self):
        w = Given.__new__(Given)
        w.__dict__.update(self.__dict__)
        w.st, w.cond = self.st.copy(), list(self.cond)
        return w


class Guided:
    """walks a template with the components of the parts p: a component's node takes the component (which must be known to match it),
    the node `segment` takes the next segment, a repetition keeps "text = text before the path ++ separator ++ path_prefix(i)". `when`:
    under which condition on the parts an alternative of the template is taken. A walk describes p exactly when the components it
    took are those that p has and all segments were taken."""
    RULES = {"S": "scheme", "U": "userinfo", "H": "host", "P": "port", "Q": "query", "F": "query"}

    def __init__(self, ex, where, p, paths, segment, rules, when, IN):
        self.ex, self.where, self.p, self.paths, self.segment, self.rules, self.when, self.IN, self.n = ex, where, p, paths, segment, rules, when, IN, 0

    def component(self, c):
        a = self.p.authority.v
        return {"S": self.p.scheme, "U": a.userinfo, "H": Opt(self.p.authority.has, a.host), "P": a.port, "Q": self.p.query, "F": self.p.fragment}[c]

    def lead(self, i):
        q = self.p.path
        return z3.If(z3.And(i > 0, self.p.authority.has, z3.Not(q.absolute)), lit("/"), E0)

    def so_far(self, w, i):
        q = self.p.path
        return z3.Concat(w.base, self.lead(i), PFX(q.absolute, q.segments.len, q.segments.ptr, i))

    def go(self, x, w):
        if any(x is p for p in self.paths):
            w = w.copy()
            w.base = w.text
        for node, cond in self.when:
            if x is node:
                w = w.copy()
                w.st.assume(cond)
                w.cond.append(cond)
        if w.open and x[0] != "mark" and (id(x) in self.rules or x[0] != "seq"):
            return self.take(x, w)
        k = x[0]
        if x is self.segment:
            q = self.p.path
            v = q.segments.at(w.i)
            w = w.copy()
            w.st.assume(*empties([v]), *pfx_facts(self.ex, w.st, q.absolute, q.segments, w.i)[:2])
            self.ex.oblige(w.st, f"{self.where}.component.segment", z3.Implies(w.i < q.segments.n, self.IN["segment"](v.a, v.n)))
            w.text, w.i = seqcat(w.text, Tf(v.a, v.n)), w.i + 1
            return [w]
        if k == "eps":
            return [w]
        if k == "seq":
            return [v for u in self.go(x[1], w) for v in self.go(x[2], u)]
        if k == "ralt":
            return [v for y in x[1:] for v in self.go(y, w.copy())]
        if k == "cls" and len(x[1]) == 1:
            w.text = seqcat(w.text, z3.Unit(z3.IntVal(min(x[1]))))
            return [w]
        if k == "mark" and len(x) == 2 and len(x[1]) == 2:
            w = w.copy()
            w.open = x[1][1] if x[1][0] == "o" else None
            return [w]
        if k == "rstar":
            return self.star(x[1], w)
        raise Unsupported("template " + k)

    def take(self, x, w):
        c, o = w.open, self.component(w.open)
        if self.rules.get(id(x)) != self.RULES[c]:
            raise Unsupported("component rule of the template")
        w = w.copy()
        # the component is present (cond, below) and matches the rule of the template
        has = z3.And(o.has, self.p.authority.has) if c in "UP" else o.has
        w.st.assume(has, *empties([o.v]))
        w.cond.append(has)
        self.ex.oblige(w.st, f"{self.where}.component.{c}", self.IN[self.RULES[c]](o.v.a, o.v.n))
        w.text, w.used = seqcat(w.text, Tf(o.v.a, o.v.n)), w.used | {c}
        return [w]

    def star(self, body, w):
        ex, n = self.ex, self.p.path.segments.n
        inv = lambda w: [("range", z3.And(w.i >= 0, w.i <= n)), ("text", w.text == self.so_far(w, w.i))]
        for nm, phi in inv(w):
            ex.oblige(w.st, f"{self.where}.repetition.init.{nm}", phi)
        w0, w = w, w.copy()
        self.n += 1
        w.i = z3.Int(f"i!{self.n}")
        w.text = self.so_far(w, w.i)
        w.st.assume(w.i >= w0.i, w.i <= n)
        b = w.copy()
        b.st.assume(b.i < n)
        for v in self.go(body, b):
            for nm, phi in inv(v) + [("progress", v.i == b.i + 1)]:
                ex.oblige(v.st, f"{self.where}.repetition.preserved.{nm}", phi)
        return [w]

    def finish(self, w):
        """assumes that this walk is the one for p; returns the condition on p"""
        n, out = self.p.path.segments.n, list(w.cond)
        w.st.assume(w.i == n)
        if z3.is_int_value(w.i):
            out.append(n == w.i)
        for c in self.RULES:
            if c not in w.used:
                o = self.component(c)
                no = z3.Not(z3.And(o.has, self.p.authority.has) if c in "UP" else o.has)
                w.st.assume(no)
                out.append(no)
        return z3.And(*out)


def parts_are_words(rep, mod, templates, paths, segment, rules, when, IN, spec, facts, prefix, name):
    """templates(p): [(template, condition on the parts p for taking it, further obligation or None)]"""
    ex = Exec(mod, rep, prefix=prefix)
    ex.fnstack = ["specification"]
    st = State()
    p = Parts.__new__(Parts)
    def view(x):
        v = View(z3.Int(x + "_len"), z3.Int(x + "_ptr"))
        st.assume(v.n >= 0, v.n < 2**32, v.a > 0)
        return v
    opt = lambda x: Opt(z3.Bool("has_" + x), view(x))
    a, q = Auth.__new__(Auth), Path.__new__(Path)
    a.userinfo, a.host, a.port = opt("userinfo"), view("host"), opt("port")
    q.absolute, q.segments = z3.Bool("absolute"), Segs(z3.Int("count"), z3.Const("seg_len", ARR), z3.Const("seg_ptr", ARR))
    st.assume(q.segments.n >= 0)
    p.scheme, p.authority, p.path, p.query, p.fragment = opt("scheme"), Opt(z3.Bool("has_authority"), a), q, opt("query"), opt("fragment")
    k = z3.Int("k_seg")
    # what valid() says; its quantified part (every segment is in the segment rule) is what the node `segment` of the templates asks for
    st.assume(spec(ex, st, p), *facts(ex, st, p), *pfx_facts(ex, st, q.absolute, q.segments, z3.IntVal(0))[:2])
    conds = []
    for template, taken, extra in templates(p):
        G = Guided(ex, name, p, paths, segment, rules, when(p), IN)
        w0 = Given(st.copy().assume(taken))
        w0.cond.append(taken)
        for w in G.go(template, w0):
            cond = G.finish(w)
            conds.append(cond)
            s, z = z3.Solver(), w.st
            s.set(timeout=2000)
            s.add(*z.pc)
            if s.check() == z3.unsat:
                continue              # no valid parts have this shape
            ex.oblige(w.st, f"{name}.text", w.text == parts_text(ex, w.st, p))
            if extra is not None:
                ex.oblige(w.st, f"{name}.no-double-slash", extra(ex, w, p))
    ex.oblige(st, f"{name}.complete", z3.Or(*conds))
    ex.flush()
