"""C16: the rule combinators."""
import os, z3
from ..common import *
from ..sym import *
from ..lib import *
from .. import ir, rules
from ..rules import *

TRUSTED = ["clang 18 (C++ to LLVM IR), the IR semantics of vv/sym.py, z3", "contracts assumed for std::vector of acceptors, std::function and opaque match functions (a match function matches a prefix of the text it is given or fails)"]
ASSUMPTIONS = ["text shorter than 2^32 - 1 bytes", "star: min <= max, and either every match of the element consumes a byte or max is finite", "allocation succeeds; vector iterators and libstdc++ layouts as documented in DESIGN.md"]


def prove(rep, work):
    tu = ir.Module(ir.emit(os.path.join(VERIF, "tu/rule.cpp"), work))
    R = Rules(tu, rep, "C16.")
    R.all_templates()
    prove_values(rep, tu, "C16.")
    combinators(rep, ir.Module(ir.emit(os.path.join(REPO, "lib/uri/uri.cpp"), work)), work, "C16.uri.")
