"""What C01-C05 share: the grammar contracts of uri.cpp, the contracts of split() and split_reference(), language decisions."""
import itertools, os, time, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir, model, rules, rfc3986 as R
from ..grammar import Grammar
from ..peg import Lang, char_sets

TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "the derivative procedure of vv/peg.py and the transcription of RFC 3986 Appendix A in vv/rfc3986.py",
           "contracts assumed for std::vector<std::string_view> (growth, copy, move), the ctype functions in the \"C\" locale (glibc: no class contains a negative char)"]
ASSUMPTIONS = ["input shorter than 2^32 bytes (the repetition counter of rule::star is unsigned)", "allocation succeeds",
               "opaque match functions consume a prefix of their text and leave the rule unchanged; std::function and the vector of acceptors as contracted in vv/rules.py"]
KINDS = {"split": ("URI", R.URI), "split_reference": ("URI-reference", R.URI_reference)}


class UriGrammar:
    def __init__(self, rep, work, prefix):
        self.rep, self.prefix = rep, prefix
        self.L = model.Layout(work)
        self.mod = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/uri.cpp"), work))
        rules.combinators(rep, self.mod, work, prefix + "combinators.")
        self.G = Grammar(self.mod, rep, prefix)
        self.G.start()
        self.starts = {}     # split / split_reference -> expression matched
        self.default_ok = {}

    # ---- split -------------------------------------------------------------------
    def split(self, which, checks):
        """contract of split / split_reference: result engaged iff the grammar expression matches all of `in`, and then it is the
        object the acceptors filled, which started out as default parts"""
        G, L = self.G, self.L
        ex = G.ex
        model.vector_contracts(ex)
        f = one(self.mod, rf"^uri::{which}\(std::basic_string_view")
        info = {}

        def on_done(ex, st, e, length, data):
            regs = [r for r in {c for c in G.alias}]
            if len(regs) != 1:
                raise Unsupported("split: acceptors do not share one result object")
            r = regs[0]
            info.setdefault("exprs", []).append(e)
            b = model.Parts(ex, st, L, Ptr(r, 0))
            if "default" in checks:
                ex.oblige(st, f"{which}.starts-from-default", z3.And(z3.Not(b.scheme.has), z3.Not(b.authority.has), z3.Not(b.path.absolute), b.path.segments.n == 0,
                                                                    z3.Not(b.query.has), z3.Not(b.fragment.has)))
            ex.oblige(st, f"{which}.whole-input", z3.And(zi(length) == info["n"], z3.Or(info["n"] == 0, data.addr() == info["a"])))
            no = st.copy()
            no.ghost["done"] = False
            yes = st.copy()
            yes.ghost["done"] = True
            for o in list(yes.wr(r).cells):
                del yes.wr(r).cells[o]
            model.put_parts(ex, yes, L, r, 0, "parsed")
            yes.ghost["parsed"] = model.Parts(ex, yes, L, Ptr(r, 0))
            return [(yes, True), (no, False)]
        G.on_done = on_done
        G.alias_ok = True
        G.alias = {}

        def setup(st):
            p, n = ex.text(st, "in")
            info["n"], info["a"] = n, p.addr()
            ret = ex.alloc(st, L.size_parts + 8, "ret")
            st.mem[G.result.r] = G.base.mem[G.result.r]
            return [ret, n, p], ret

        def post(ex, st, rv, ret):
            if "done" not in st.ghost:
                raise Unsupported("a path of split() that does not ask done()")
            h = model.flag(st, Ptr(ret.r, L.size_parts))
            ex.oblige(st, f"{which}.result-iff-matched", h == z3.BoolVal(st.ghost["done"]))
            if st.ghost["done"] and "result" in checks:
                for nm, phi in model.Parts(ex, st, L, ret).same_fields(st.ghost["parsed"]):
                    ex.oblige(st, f"{which}.returns-the-parse.{nm}", phi)
        r = verify(ex, f, setup, post, title=f"uri::{which}(string_view)", name=which)
        G.on_done = None
        G.alias_ok = False
        if r is None:
            return False
        es = info["exprs"]
        if len(set(map(repr, es))) != 1:
            self.rep.undecided(self.prefix + which + ".grammar", f"uri::{which}", "different expressions on different paths")
            return False
        self.starts[which] = es[0]
        return True

    def explore(self):
        """contracts of all grammar functions reachable from what has been collected"""
        G = self.G
        work = list(G.todo)
        ok = True
        while work:
            k = work.pop()
            if k in G.nodes:
                continue
            before = set(G.todo)
            t = time.time()
            d = self.mod.dem(k[0])
            mark = len(G.ex.buf)
            try:
                G.nodes[k] = G.expr_of(k)
            except Unsupported as e:
                G.ex.buf = G.ex.buf[:mark]
                self.rep.undecided(self.prefix + "grammar." + short(d), d[:200], str(e))
                G.nodes[k] = None
                ok = False
                continue
            self.rep.functions[d[:200]] = "under contract"
            self.rep.add(self.prefix + "grammar." + self.nodename(k), d[:200], PROVED, "symbolic execution", time.time() - t, self.show(G.nodes[k])[:200])
            work += [x for x in G.todo if x not in before]
        G.ex.flush()
        return ok

    def nodename(self, k):
        d = self.mod.dem(k[0])
        i = 1 + sum(1 for x in self.G.nodes if x != k and short(self.mod.dem(x[0])) == short(d))
        return short(d) + (f".{i}" if i > 1 else "")

    def show(self, e):
        if e[0] == "nt":
            return short(self.mod.dem(e[1][0]))
        if e[0] == "cls":
            return "[" + "".join(chr(c) if 32 < c < 127 else "\\x%02x" % c for c in sorted(e[1]))[:24] + "]"
        if e[0] == "cap":
            return "{" + self.show(e[2]) + "}"
        if e[0] == "case":
            return "case(" + ", ".join(f"{len(s)} bytes: {self.show(x)}" for s, x in e[1]) + ")"
        return "(" + " ".join([e[0]] + [self.show(x) if isinstance(x, tuple) else str(x) for x in e[1:]]) + ")"

    # ---- languages -----------------------------------------------------------------
    def lang(self, spec, oc=None, extra=()):
        n = self.G.nodes
        if any(v is None for v in n.values()):
            raise Unsupported("a grammar function has no contract")
        return Lang(char_sets(list(n.values()) + list(self.starts.values()) + list(spec) + list(extra)), lambda k: n[k], oc)

    def decide(self, lang, term, letters, name, function, want=2, hint=None, many=False):
        """obligation: the language `term` (of counterexamples) is empty"""
        t = time.time()
        try:
            words, states = lang.witness(term, letters, want)
        except Unsupported as e:
            self.rep.add(self.prefix + name, function, UNDECIDED, "derivatives", time.time() - t, str(e))
            return None
        hints = [(hint or (lambda w: [lang.text(w)]))(w) for w in words]
        if many:
            hints = [h for x in hints for h in x]
        det = "" if not words else "counterexamples: " + ", ".join(repr(lang.text(w)) + (" " + " ".join(x for x in w if isinstance(x, str)) if any(isinstance(x, str) for x in w) else "") for w in words)
        self.rep.add(self.prefix + name, function, FAILED if words else PROVED, "derivatives", time.time() - t, det or f"{states} derivatives", hints)
        return not words

    def termination(self, lang):
        """no repetition body matches the empty string (otherwise star() does not end)"""
        bodies = {}

        def go(e):
            if e[0] == "star" and e[3] > 0:
                bodies[repr(e[1])] = e[1]
            if e[0] == "case":
                for _, x in e[1]:
                    go(x)
                return
            for x in e[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str) and e[0] != "nt":
                    go(x)
        for e in list(self.G.nodes.values()) + list(self.starts.values()):
            go(e)
        t = time.time()
        bad = []
        for b in bodies.values():
            term = lang.D(lang.M(b, lang.marks(("$",), 1), "s"), "$")
            w, _ = lang.witness(term, range(len(lang.classes)), 1)
            if w:
                bad.append(self.show(b))
        self.rep.add(self.prefix + "grammar.repetition-bodies-consume", f"{len(bodies)} repetition bodies", UNDECIDED if bad else PROVED, "derivatives", time.time() - t, "; ".join(bad))
