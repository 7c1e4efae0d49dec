"""C05: valid parts compose to a URI that splits into the same components."""
from .composer import *
from .c02 import effects, OC
from .c03 import text_is_composed
from .c04 import valid_contracts, parts_spec, path_facts, path_facts_lemmas, IN
from .template import parts_are_words

COMPONENT = "SUHPQF"
MARKS = [b + x for x in COMPONENT for b in "oc"]
any_path = R.alt(R.cat("/", R.segment, R.star(R.cat("/", R.segment))), R.cat(R.segment, R.star(R.cat("/", R.segment))), R.EPS)
auth = R.cat("//", R.opt(R.cap(R.userinfo, "U"), "@"), R.cap(R.host, "H"), R.opt(":", R.cap(R.port, "P")), R.path_abempty_plain)
head = R.cat(R.cap(R.scheme, "S"), ":")
tail = R.cat(R.opt("?", R.cap(R.query, "Q")), R.opt("#", R.cap(R.fragment, "F")))
two = R.cat("//", R.star(R.cls(range(256))))


def valid_texts(lang):
    """what compose() writes for valid parts (contracts of valid() and compose()), with the component marks"""
    end = lang.M(tail, lang.atom(("END",)), "m")
    noauth = lang.AND(lang.M(any_path, end, "m"), lang.NOT(lang.M(two, 1, "p")))
    return lang.M(head, lang.OR(lang.M(auth, end, "m"), noauth), "m")


def templates(p):
    """the languages of valid_texts(), and under which condition on the parts their alternatives are taken"""
    def rest(ex, w, p):
        # what follows the scheme does not begin with "//": its path does not (valid()), and what follows the path begins with "?" or "#"
        return z3.Not(z3.PrefixOf(lit("//"), seqcat(*parts_pieces(ex, w.st, p)[3:])))
    return [(R.cat(head, auth, tail), p.authority.has, None), (R.cat(head, any_path, tail), z3.Not(p.authority.has), rest)]


def when(p):
    s, ab = p.path.segments, p.path.absolute
    return [(any_path[1], z3.And(s.n > 0, ab)), (any_path[2], z3.And(s.n > 0, z3.Not(ab)))]


def valid_parts_are_words(rep, mod, prefix):
    rules = {id(R.scheme): "scheme", id(R.userinfo): "userinfo", id(R.host): "host", id(R.port): "port", id(R.query): "query"}
    parts_are_words(rep, mod, templates, (R.path_abempty_plain, any_path), R.segment, rules, when, IN, parts_spec, lambda ex, st, p: path_facts(ex, st, p.path),
                    prefix, "lemma.valid-parts-are-words")


def hint(lang, w):
    """parts with the components of the marked word"""
    k, cur, path, i = {}, None, b"", 0
    for x in w:
        if isinstance(x, str):
            cur = x[1] if x[0] == "o" else None
            if x[0] == "o":
                k[cur] = b""
        elif cur:
            k[cur] += bytes([lang.rep[x]])
        else:
            path += bytes([lang.rep[x]])
    # path: what is left once the delimiters of the components are removed
    path = path[1:] if "S" in k else path
    if "H" in k:
        path = path.replace(b"//", b"", 1) if path.startswith(b"//") else path
        if "U" in k:
            path = path[1:]
        if "P" in k:
            path = path[1:]
    if "F" in k:
        path = path[:-1]
    if "Q" in k:
        path = path[:-1]
    out = []
    for ab in ((True, False) if path.startswith(b"/") else (False,)):
        segs = (path[1:] if ab else path).split(b"/") if path else []
        out.append(model_case(k, ab, segs))
        if "H" in k and path.startswith(b"/") and ab:
            out.append(model_case(k, False, segs))
    return out


def model_case(k, ab, segs):
    return case_of(scheme=k.get("S"), userinfo=k.get("U"), host=k.get("H"), port=k.get("P"), absolute=ab, query=k.get("Q"), fragment=k.get("F"), segments=segs)


def prove(rep, work):
    U = UriGrammar(rep, work, "C05.")
    compose_contracts(rep, U.mod, U.L, "C05.")
    valid_contracts(U)
    path_facts_lemmas(U)
    valid_parts_are_words(rep, U.mod, "C05.")
    if not U.split("split", ("default", "result")) or not U.explore():
        return
    eff = effects(U)
    if eff is None:
        return
    text_is_composed(U, eff, ["split"])
    lang = U.lang([head, auth, any_path, tail, two], lambda a: OC[eff[a]] if eff[a] in COMPONENT else ((), ()))
    letters = list(range(len(lang.classes))) + MARKS
    V, P = valid_texts(lang), lang.M(U.starts["split"], lang.atom(("END",)), "m")
    U.decide(lang, lang.AND(V, lang.NOT(P)), letters, "split.reads-back-valid-parts", "uri::split", 3, hint=lambda w: hint(lang, w), many=True)
    # the specification side: the RFC gives these texts the same components, and there is such a text for every component combination
    Q = lang.M(R.cat(R.cap(R.scheme, "S"), ":", R.alt(auth, R.path_absolute_plain, R.path_rootless_plain, R.EPS), tail), lang.atom(("END",)), "m")
    U.decide(lang, lang.XOR(V, Q), letters, "specification.valid-texts-are-the-RFC-URIs", "specification", 1)
