"""C06: remove_dot_segments."""
from .dots import *

TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "contracts assumed for std::vector<std::string_view> (erase at the end, emplace_back) and memcmp",
           "the transcription of RFC 3986 section 5.2.4, rules A to E, in vv/props/dots.py (text_lemmas, rounds_lemma)"]
ASSUMPTIONS = ["views are readable for their length", "allocation succeeds"]


def prove(rep, work):
    L = model.Layout(work)
    mod = ir.Module(ir.emit(os.path.join(REPO, "lib/uri/uri.cpp"), work))
    prove_remove(rep, mod, L, "C06.")
    lemmas(rep, L, "C06.")
