"""C03: compose() of a parse is the original text."""
from .composer import *
from .c02 import effects, OC
from .template import template_is_composed

# What compose() can write, with the marks of the parts it writes: every word of this language equals the text that compose()
# writes (by its contract) for the parts that the word's marks build. ANY text may stand between the marks.
ANY = R.star(R.cls(range(256)))


def cap(m):
    return R.cap(ANY, m)


seg_text = R.alt(cap("V"), R.EPS)
nexts = R.star(R.alt(R.cat("/", R.alt(R.mk("A"), R.mk("E")), seg_text), R.cat("/", cap("W"))))
nexts_rel = R.star(R.alt(R.cat("/", R.mk("E"), seg_text), R.cat("/", cap("W"))))
abs_path = R.alt(R.cat("/", R.alt(R.mk("A"), R.mk("B", "E")), seg_text, nexts), R.cat("/", R.mk("B"), cap("W"), nexts))
rel_path = R.alt(R.cat(R.mk("E"), seg_text, nexts_rel), R.cat(cap("W"), nexts_rel))
COMPOSED = R.cat(R.opt(cap("S"), ":"),
                 R.alt(R.cat("//", R.opt(cap("U"), "@"), cap("H"), R.opt(":", cap("P")), R.opt(abs_path)), R.opt(R.alt(abs_path, rel_path))),
                 R.opt("?", cap("Q")), R.opt("#", cap("F")))


def prove(rep, work):
    U = UriGrammar(rep, work, "C03.")
    compose_contracts(rep, U.mod, U.L, "C03.")
    template_is_composed(rep, U.mod, COMPOSED, (abs_path, rel_path), "C03.", "lemma.template")
    ok = [U.split(w, ("default", "result")) for w in KINDS]
    if not U.explore() or not all(ok):
        return
    eff = effects(U)
    if eff is not None:
        text_is_composed(U, eff, KINDS)


def text_is_composed(U, eff, which):
    lang = U.lang([COMPOSED], lambda a: OC[eff[a]])
    letters = list(range(len(lang.classes))) + R.MARKS
    for w in which:
        P, Q = lang.M(U.starts[w], lang.atom(("END",)), "m"), lang.M(COMPOSED, lang.atom(("END",)), "m")
        U.decide(lang, lang.AND(P, lang.NOT(Q)), letters, f"{w}.text-is-what-compose-writes", f"uri::{w}", 3)
