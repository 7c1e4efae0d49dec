"""C02: the components split()/split_reference() report are the ones RFC 3986 gives the input."""
from .urigram import *
from ..model import *

OC = {"nop": ((), ()), "A": ((), ("A",)), "E": ((), ("E",)), "B": ((), ("B",))}
OC.update({x: (("o" + x,), ("c" + x,)) for x in "SUHPQFVW"})


def expected(eff, b, sv):
    """what RFC 3986's component `eff` does to the parts b"""
    p = Parts.__new__(Parts)
    p.__dict__.update(b.__dict__)
    some = Opt(z3.BoolVal(True), sv)
    if eff in "SQF":
        setattr(p, {"S": "scheme", "Q": "query", "F": "fragment"}[eff], some)
    elif eff in "UHP":
        old = b.authority.v
        a = Auth.__new__(Auth)
        has = b.authority.has
        a.userinfo = Opt(z3.And(has, old.userinfo.has), old.userinfo.v)
        a.port = Opt(z3.And(has, old.port.has), old.port.v)
        a.host = View(z3.If(has, old.host.n, 0), z3.If(has, old.host.a, 0))
        if eff == "H":
            a.host = sv
        else:
            setattr(a, "userinfo" if eff == "U" else "port", some)
        p.authority = Opt(z3.BoolVal(True), a)
    elif eff in "AEBVW":
        q = Path.__new__(Path)
        s = b.path.segments
        q.absolute = z3.BoolVal(True) if eff in "AB" else b.path.absolute
        q.segments = s
        if eff in "AEW":
            n, a = (sv.n, sv.a) if eff == "W" else (z3.IntVal(0), z3.IntVal(0))
            q.segments = Segs(s.n + 1, z3.Store(s.len, s.n, n), z3.Store(s.ptr, s.n, a))
        if eff == "V":
            q.segments = Segs(s.n, z3.Store(s.len, s.n - 1, sv.n), z3.Store(s.ptr, s.n - 1, sv.a))
        p.path = q
    return p


def run_acceptor(U, key, pre):
    """paths of acceptor `key` on arbitrary parts satisfying pre: [(state, before, view)]"""
    G, L = U.G, U.L
    ex = G.ex
    fn, cells = G.accs[key]
    f = U.mod.func(fn)
    st = G.base.copy()
    r = G.result.r
    st.wr(r).cells.clear()
    put_parts(ex, st, L, r, 0, "result")
    b = Parts(ex, st, L, Ptr(r, 0))
    st.assume(pre(b))
    p, n = ex.text(st, "matched")
    args = []
    if cells is not None:
        o = ex.alloc(st, max([8] + [c[0] + c[1] for c in cells]), "closure")
        for off, size, v in cells:
            ex.put(st, o.r, st.wr(o.r), off, size, v)
        args.append(o)
    st.dirty = set()
    ex.fnstack = [U.mod.dem(fn)[:160]]
    out = [s for s, _ in ex.run(f, st, args + [n, p], top=True) if ex.feasible(s)]
    if not out:
        raise Unsupported("acceptor does not return")
    return out, b, View(n, p.addr())


def effects(U):
    """contract of every acceptor: the one effect it has on the parts"""
    G, L, ex = U.G, U.L, U.G.ex
    out = {}
    vector_contracts(ex)
    for i, key in enumerate(G.accs):
        d = U.mod.dem(key[0])
        t = time.time()
        found = None
        try:
            mark = len(ex.buf)
            some, b, sv = run_acceptor(U, key, lambda b: b.path.segments.n > 0)
            for eff in ["nop"] + list("SUHPQFAEBVW"):
                e = expected(eff, b, sv)
                if all(all(ex.entails(s, phi) for _, phi in Parts(ex, s, L, Ptr(G.result.r, 0)).same_fields(e)) for s in some):
                    found = eff
                    break
            if found is None:
                raise Unsupported("effect not recognised")
            for s in some:
                for nm, phi in Parts(ex, s, L, Ptr(G.result.r, 0)).same_fields(e):
                    ex.oblige(s, f"acceptor.{i + 1}.{found}.{nm}", phi)
            if found != "V":
                none, b, sv = run_acceptor(U, key, lambda b: b.path.segments.n == 0)
                e = expected(found, b, sv)
                for s in none:
                    for nm, phi in Parts(ex, s, L, Ptr(G.result.r, 0)).same_fields(e):
                        ex.oblige(s, f"acceptor.{i + 1}.{found}.empty-path.{nm}", phi)
        except Unsupported as e:
            ex.buf = ex.buf[:mark]
            U.rep.undecided(U.prefix + f"acceptor.{i + 1}", d[:200], str(e))
            out = None
            continue
        U.rep.functions[d[:200]] = "under contract"
        if out is not None:
            out[key] = found
    ex.flush()
    return out


def prove(rep, work):
    U = UriGrammar(rep, work, "C02.")
    ok = [U.split(w, ("default", "result")) for w in KINDS]
    if not U.explore() or not all(ok):
        return
    eff = effects(U)
    if eff is None:
        return
    END = ("END",)
    lang = U.lang([R.URI_reference], lambda a: OC[eff[a]])
    letters = list(range(len(lang.classes))) + R.MARKS
    for w, (nm, spec) in KINDS.items():
        P, Q = lang.M(U.starts[w], lang.atom(END), "m"), lang.M(spec, lang.atom(END), "m")
        U.decide(lang, lang.AND(P, lang.NOT(Q)), letters, f"{w}.components-as-in-{nm}", f"uri::{w}", 3)
