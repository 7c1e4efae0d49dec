"""C01: split()/split_reference() accept exactly the RFC 3986 language."""
from .urigram import *


def prove(rep, work):
    U = UriGrammar(rep, work, "C01.")
    ok = [U.split(w, ()) for w in KINDS]
    if not U.explore() or not all(ok):
        return
    END = ("END",)
    lang = U.lang([R.URI_reference])
    U.termination(lang)
    letters = range(len(lang.classes))
    for w, (nm, spec) in KINDS.items():
        e = U.starts[w]
        P, Q = lang.M(e, lang.atom(END), "s"), lang.M(spec, lang.atom(END), "s")
        U.decide(lang, lang.AND(P, lang.NOT(Q)), letters, f"{w}.accepts-only-{nm}", f"uri::{w}")
        U.decide(lang, lang.AND(Q, lang.NOT(P)), letters, f"{w}.accepts-every-{nm}", f"uri::{w}")
    # the parts of the grammar, for the report: the same decision per rule that has a counterpart in Appendix A
