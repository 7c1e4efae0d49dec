"""RFC 3986 Appendix A, transcribed, with component marks. The specification side of C01-C05.

Marks: "oX"/"cX" around component X (S scheme, U userinfo, H host, P port, Q query, F fragment); for the path the events
"A" (append an empty segment, path is absolute), "E" (append an empty segment), "B" (path is absolute), "oV" "cV" (text of the last
segment), "oW" "cW" (append a segment with this text)."""


def cls(s):
    return ("cls", frozenset(s.encode() if isinstance(s, str) else s))


def cat(*xs):
    xs = [x if isinstance(x, tuple) else lit(x) for x in xs]
    r = xs[-1]
    for x in reversed(xs[:-1]):
        r = ("seq", x, r)
    return r


def lit(s):
    """ABNF literal: case-insensitive"""
    r = [("cls", frozenset({c, ord(chr(c).lower()), ord(chr(c).upper())})) for c in s.encode()]
    return r[0] if len(r) == 1 else cat(*r)


def alt(*xs):
    return ("ralt",) + tuple(x if isinstance(x, tuple) else lit(x) for x in xs)


EPS = ("eps",)


def opt(*x):
    return alt(cat(*x), EPS)


def star(x):
    return ("rstar", x)


def rep(x, lo, hi):
    """lo*hi x"""
    r = EPS
    for i in range(hi, 0, -1):
        r = cat(x, r) if i <= lo else alt(cat(x, r), EPS)
    return r


def plus(x):
    return cat(x, star(x))


def mk(*ms):
    return ("mark",) + ms


AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
DG = "0123456789"
ALPHA, DIGIT = cls(AL), cls(DG)
HEXDIG = cls(DG + "ABCDEFabcdef")
unreserved = cls(AL + DG + "-._~")
sub_delims = cls("!$&'()*+,;=")
pct_encoded = cat("%", HEXDIG, HEXDIG)
pchar = alt(unreserved, pct_encoded, sub_delims, ":", "@")
segment = star(pchar)
segment_nz = plus(pchar)
segment_nz_nc = plus(alt(unreserved, pct_encoded, sub_delims, "@"))
query = star(alt(pchar, "/", "?"))
fragment = query
scheme = cat(ALPHA, star(alt(ALPHA, DIGIT, "+", "-", ".")))
userinfo = star(alt(unreserved, pct_encoded, sub_delims, ":"))
dec_octet = alt(DIGIT, cat(cls("123456789"), DIGIT), cat("1", DIGIT, DIGIT), cat("2", cls("01234"), DIGIT), cat("25", cls("012345")))
IPv4address = cat(dec_octet, ".", dec_octet, ".", dec_octet, ".", dec_octet)
h16 = rep(HEXDIG, 1, 4)
ls32 = alt(cat(h16, ":", h16), IPv4address)
h16c = cat(h16, ":")


def upto(n):
    """[ *n( h16 ":" ) h16 ]"""
    return opt(rep(h16c, 0, n), h16)


IPv6address = alt(cat(rep(h16c, 6, 6), ls32),
                  cat("::", rep(h16c, 5, 5), ls32),
                  cat(opt(h16), "::", rep(h16c, 4, 4), ls32),
                  cat(upto(1), "::", rep(h16c, 3, 3), ls32),
                  cat(upto(2), "::", rep(h16c, 2, 2), ls32),
                  cat(upto(3), "::", h16c, ls32),
                  cat(upto(4), "::", ls32),
                  cat(upto(5), "::", h16),
                  cat(upto(6), "::"))
IPvFuture = cat("v", plus(HEXDIG), ".", plus(alt(unreserved, sub_delims, ":")))
IP_literal = cat("[", alt(IPv6address, IPvFuture), "]")
reg_name = star(alt(unreserved, pct_encoded, sub_delims))
host = alt(IP_literal, IPv4address, reg_name)
port = star(DIGIT)


def cap(x, m):
    return cat(mk("o" + m), x, mk("c" + m))


# segments with their events; an empty segment needs no text event
def val(x):
    return alt(cap(x, "V"), EPS) if x is segment else cap(x, "V")


def first_abs(x):
    return alt(cat("/", mk("A"), val(x)), cat("/", mk("B", "E"), val(x)), cat("/", mk("B"), cap(x, "W")))


next_abs = alt(cat("/", alt(mk("A"), mk("E")), val(segment)), cat("/", cap(segment, "W")))
next_rel = alt(cat("/", mk("E"), val(segment)), cat("/", cap(segment, "W")))


def first_rel(x):
    return alt(cap(x, "W"), cat(mk("E"), cap(x, "V")))


path_abempty = alt(cat(first_abs(segment), star(next_abs)), EPS)
empty_seg = EPS
path_absolute = alt(cat(first_abs(segment_nz), star(next_abs)),
                    cat("/", alt(mk("A"), mk("A", "oV", "cV"), mk("B", "E"), mk("B", "oW", "cW"))))
path_rootless = cat(first_rel(segment_nz), star(next_rel))
path_noscheme = cat(first_rel(segment_nz_nc), star(next_rel))
path_abempty_plain = star(cat("/", segment))
path_absolute_plain = cat("/", opt(segment_nz, star(cat("/", segment))))
path_rootless_plain = cat(segment_nz, star(cat("/", segment)))
authority = cat(opt(cap(userinfo, "U"), "@"), cap(host, "H"), opt(":", cap(port, "P")))
tail = cat(opt("?", cap(query, "Q")), opt("#", cap(fragment, "F")))
hier_part = alt(cat("//", authority, path_abempty), path_absolute, path_rootless, EPS)
relative_part = alt(cat("//", authority, path_abempty), path_absolute, path_noscheme, EPS)
URI = cat(cap(scheme, "S"), ":", hier_part, tail)
relative_ref = cat(relative_part, tail)
URI_reference = alt(URI, relative_ref)
MARKS = ["oS", "cS", "oU", "cU", "oH", "cH", "oP", "cP", "oQ", "cQ", "oF", "cF", "A", "E", "B", "oV", "cV", "oW", "cW"]
