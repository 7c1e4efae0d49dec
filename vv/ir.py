"""Textual LLVM IR (clang 18, opaque pointers): emission from the real sources and a lazy parser."""
import os, re
from .common import *

CXX = ["clang++-18", "-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-fno-exceptions",
       "-fno-threadsafe-statics", "-D_GLIBCXX_ASSERTIONS", "-DURI_FUZZTEST=0"]


def emit(src, work, extra=(), name=None, incs=()):
    """Compile one translation unit to IR; returns the path."""
    out = os.path.join(work, (name or os.path.basename(src)) + ".ll")
    cmd = [*CXX, *extra, *[f"-I{i}" for i in incs], f"-I{REPO}/include", "-S", "-emit-llvm", src, "-o", out]
    rc, so, se, _ = run(cmd, timeout=300)
    if rc != 0:
        raise Unsupported(f"clang++ does not compile {src}: {se[:1500]}")
    return out


# ---- types ---------------------------------------------------------------
# ('i',n) ('ptr',) ('void',) ('struct',(t..),packed) ('array',n,t) ('named',s) ('vec',n,t) ('fp',name) ('meta',) ('label',) ('func',)

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\.)*")|
  (?P<lid>%(?:"[^"]*"|[-\w.$]+))|
  (?P<gid>@(?:"[^"]*"|[-\w.$]+))|
  (?P<md>!(?:"[^"]*"|[-\w.]*))|
  (?P<attr>\#\d+)|
  (?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+)|
  (?P<q>"[^"]*")|
  (?P<dots>\.\.\.)|
  (?P<word>[A-Za-z_][\w.]*)|
  (?P<p>[(){}\[\]<>,=*:|])
)''', re.X)

PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone", "writeonly", "returned",
               "immarg", "inreg", "nofree", "nest", "swiftself", "nonnull", "allocptr", "inalloca", "dead_on_unwind", "writable", "noalias"}
RET_SKIP = {"dso_local", "linkonce_odr", "internal", "weak_odr", "private", "external", "hidden", "protected", "default", "fastcc", "ccc",
            "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "local_unnamed_addr", "unnamed_addr", "dso_preemptable"}


class P:
    """Token cursor over one logical line."""

    def __init__(self, s):
        self.s = s
        self.t = []
        i, n = 0, len(s)
        while i < n:
            m = TOK.match(s, i)
            if not m:
                if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                    break
                raise Unsupported(f"IR token: {s[i:i+60]!r}")
            k = m.lastgroup
            self.t.append((k, m.group(k)))
            i = m.end()
        self.i = 0

    def peek(self, d=0):
        return self.t[self.i + d][1] if self.i + d < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported(f"IR: expected {x!r} at {self.peek()!r} in {self.s[:160]!r}")


def ptype(p):
    w = p.peek()
    if p.kind() == "lid":
        t = ("named", p.next()[1:].strip('"'))
    elif w == "ptr":
        p.next()
        t = ("ptr",)
        if p.eat("addrspace"):
            p.need("("); p.next(); p.need(")")
    elif w == "void":
        p.next(); t = ("void",)
    elif w in ("float", "double", "x86_fp80", "half", "fp128"):
        t = ("fp", p.next())
    elif w == "label":
        p.next(); t = ("label",)
    elif w == "metadata":
        p.next(); t = ("meta",)
    elif w and re.fullmatch(r"i\d+", w):
        t = ("i", int(p.next()[1:]))
    elif w == "{":
        p.next(); t = ("struct", tuple(pfields(p, "}")), False)
    elif w == "<":
        p.next()
        if p.peek() == "{":
            p.next(); f = tuple(pfields(p, "}")); p.need(">"); t = ("struct", f, True)
        else:
            n = int(p.next()); p.need("x"); e = ptype(p); p.need(">"); t = ("vec", n, e)
    elif w == "[":
        p.next(); n = int(p.next()); p.need("x"); e = ptype(p); p.need("]"); t = ("array", n, e)
    elif w == "opaque":
        p.next(); t = ("opaque",)
    elif w == "token":
        p.next(); t = ("token",)
    else:
        raise Unsupported(f"IR type at {w!r} in {p.s[:120]!r}")
    # function type
    while p.peek() == "(":
        depth = 0
        while True:
            x = p.next()
            depth += x == "("
            depth -= x == ")"
            if depth == 0:
                break
        t = ("func", t)
    return t


def pfields(p, end):
    f = []
    while not p.eat(end):
        f.append(ptype(p))
        p.eat(",")
    return f


def pattrs(p):
    """Skip parameter attributes; returns dict of interesting ones."""
    a = {}
    while True:
        w = p.peek()
        if w in PARAM_ATTRS:
            a[w] = True
            p.next()
        elif w == "align":
            p.next()
            if p.eat("("):
                p.next(); p.need(")")
            else:
                p.next()
        elif w in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "allocsize", "range", "memory", "initializes"):
            p.next(); p.need("(")
            if w in ("byval", "sret", "elementtype"):
                a[w] = ptype(p)
                p.need(")")
            else:
                d, toks = 1, []
                while d:
                    x = p.next()
                    toks.append(x)
                    d += x == "("
                    d -= x == ")"
                if w == "dereferenceable":
                    a[w] = toks[0]
        elif p.kind() == "attr" or p.kind() == "q":
            p.next()
        else:
            return a


# operands: ('c',int) ('l',name) ('g',name) ('null',) ('undef',) ('zero',) ('agg',[(ty,op)]) ('str',bytes) ('ce',opname,...)
def pval(p, ty):
    k, w = p.kind(), p.peek()
    if k == "lid":
        return ("l", p.next()[1:].strip('"'))
    if k == "gid":
        return ("g", p.next()[1:].strip('"'))
    if k == "num":
        w = p.next()
        if ty[0] == "fp":
            return ("fp", w)
        return ("c", int(w) % (1 << ty[1]) if ty[0] == "i" else int(w))
    if k == "str":
        return ("str", unesc(p.next()[2:-1]))
    if w in ("true", "false"):
        p.next()
        return ("c", 1 if w == "true" else 0)
    if w == "null":
        p.next(); return ("null",)
    if w in ("undef", "poison"):
        p.next(); return ("undef",)
    if w == "zeroinitializer":
        p.next(); return ("zero",)
    if w in ("{", "[", "<"):
        o = p.next()
        packed = False
        if o == "<" and p.peek() == "{":
            p.next(); packed = True
            o = "{"
        end = {"{": "}", "[": "]", "<": ">"}[o]
        xs = []
        while not p.eat(end):
            t = ptype(p)
            xs.append((t, pval(p, t)))
            p.eat(",")
        if packed:
            p.need(">")
        return ("agg", xs)
    if w == "getelementptr":
        p.next()
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        if p.eat("inrange"):
            p.need("(")
            while not p.eat(")"):
                p.next()
        p.need("(")
        t = ptype(p); p.need(",")
        bt = ptype(p); b = pval(p, bt)
        idx = []
        while p.eat(","):
            p.eat("inrange")
            it = ptype(p)
            idx.append((it, pval(p, it)))
        p.need(")")
        return ("ce", "gep", t, b, idx)
    if w in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext"):
        p.next(); p.need("(")
        t = ptype(p); v = pval(p, t); p.need("to"); t2 = ptype(p); p.need(")")
        return ("ce", w, t, v, t2)
    if w in ("sub", "add", "mul"):
        p.next()
        while p.peek() in ("nuw", "nsw"):
            p.next()
        p.need("("); t = ptype(p); a = pval(p, t); p.need(","); t2 = ptype(p); b = pval(p, t2); p.need(")")
        return ("ce", "bin", w, t, a, b)
    raise Unsupported(f"IR operand {w!r} in {p.s[:160]!r}")


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode("utf8"); i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "flags", "text", "extra")

    def __init__(self, op, dst, text):
        self.op, self.dst, self.text = op, dst, text
        self.ty = self.a = self.extra = None
        self.flags = ()

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.lines = mod, name, lines
        p = P(header)
        p.next()  # define/declare
        while p.peek() in RET_SKIP or p.kind() == "word" and p.peek() in PARAM_ATTRS or p.peek() in ("align", "dereferenceable", "dereferenceable_or_null", "range"):
            if p.peek() in RET_SKIP:
                p.next()
            else:
                pattrs(p)
        self.ret = ptype(p)
        p.next()
        p.need("(")
        self.params = []
        self.vararg = False
        while not p.eat(")"):
            if p.eat("..."):
                self.vararg = True
                continue
            t = ptype(p)
            a = pattrs(p)
            nm = p.next()[1:].strip('"') if p.kind() == "lid" else None
            self.params.append((t, a, nm))
            p.eat(",")
        self._blocks = None
        n = 0
        # unnamed parameters take numbers
        for i, (t, a, nm) in enumerate(self.params):
            if nm is None:
                self.params[i] = (t, a, str(n))
                n += 1
            elif nm.isdigit():
                n = int(nm) + 1
        self.first_label = None

    @property
    def demangled(self):
        return self.mod.dem(self.name)

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks, order = {}, []
        cur = None
        buf = None
        for line in self.lines:
            if buf is not None:
                buf += " " + line.strip()
                if "]" in line:
                    line, buf = buf, None
                else:
                    continue
            s = line.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("(?:[^"]*)"|[-\w.$]+):', line)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []
                order.append(cur)
                continue
            if s.startswith("switch ") and "]" not in s:
                buf = s
                continue
            if cur is None:
                cur = "entry"
                blocks[cur] = []
                order.append(cur)
            blocks[cur].append(s)
        self.order = order
        self.entry = order[0]
        self._blocks = {b: [pinstr(x) for x in ls] for b, ls in blocks.items()}
        self._cfg()

    def _cfg(self):
        succ = {}
        for b, ins in self._blocks.items():
            t = ins[-1]
            if t.op == "br":
                succ[b] = [t.a[0]] if t.a[1] is None else [t.a[1], t.a[2]]
            elif t.op == "switch":
                succ[b] = [t.a[1]] + [l for _, l in t.a[2]]
            else:
                succ[b] = []
        self.succ = succ
        # dominators by simple iteration over reverse postorder; natural loops from back edges
        rpo, seen = [], set()

        def dfs(b):
            stack = [(b, iter(succ[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    rpo.append(x)
                    stack.pop()
        dfs(self.entry)
        rpo.reverse()
        idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        dom = {self.entry: {self.entry}}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ds = [dom[q] for q in pred[b] if q in dom]
                if not ds:
                    continue
                d = set.intersection(*ds) | {b}
                if dom.get(b) != d:
                    dom[b] = d
                    changed = True
        self.loops = {}  # header -> set of blocks
        for b in rpo:
            for s in succ[b]:
                if s in dom.get(b, ()):  # back edge b->s
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += pred[x]
        self.loop_order = [b for b in rpo if b in self.loops]


FLAGS = {"nuw", "nsw", "exact", "inbounds", "disjoint", "nneg", "volatile", "atomic", "tail", "musttail", "notail", "fast", "nnan", "ninf", "nsz",
         "nusw", "samesign"}


def pinstr(s):
    p = P(s.split(", !dbg")[0])
    dst = None
    if p.kind() == "lid" and p.peek(1) == "=":
        dst = p.next()[1:].strip('"')
        p.next()
    flags = []
    while p.peek() in FLAGS:
        flags.append(p.next())
    op = p.next()
    while p.peek() in FLAGS:
        flags.append(p.next())
    ins = Instr(op, dst, s)
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv"):
        ins.ty = ptype(p)
        a = pval(p, ins.ty); p.need(","); b = pval(p, ins.ty)
        ins.a = (a, b)
    elif op == "icmp":
        pred = p.next()
        ins.ty = ptype(p)
        a = pval(p, ins.ty); p.need(","); b = pval(p, ins.ty)
        ins.a = (pred, a, b)
    elif op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze", "fptoui", "uitofp", "sitofp", "fpext", "fptrunc", "fptosi"):
        t = ptype(p)
        v = pval(p, t)
        t2 = t
        if op != "freeze":
            p.need("to"); t2 = ptype(p)
        ins.ty, ins.a = t2, (t, v)
    elif op == "alloca":
        ins.ty = ptype(p)
        n = ("c", 1)
        while p.eat(","):
            if p.eat("align"):
                p.next()
            else:
                t = ptype(p); n = pval(p, t)
        ins.a = (n,)
    elif op == "load":
        ins.ty = ptype(p); p.need(",")
        t = ptype(p)
        ins.a = (pval(p, t),)
    elif op == "store":
        ins.ty = ptype(p)
        v = pval(p, ins.ty); p.need(",")
        t = ptype(p)
        ins.a = (v, pval(p, t))
    elif op == "getelementptr":
        ins.ty = ptype(p); p.need(",")
        t = ptype(p); b = pval(p, t)
        idx = []
        while p.eat(","):
            it = ptype(p)
            if it == ("meta",):
                break
            idx.append((it, pval(p, it)))
        ins.a = (b, idx)
    elif op == "br":
        if p.eat("label"):
            ins.a = (p.next()[1:].strip('"'), None)
        else:
            t = ptype(p); c = pval(p, t); p.need(","); p.need("label"); x = p.next()[1:].strip('"'); p.need(","); p.need("label"); y = p.next()[1:].strip('"')
            ins.a = (c, x, y)
    elif op == "switch":
        t = ptype(p); v = pval(p, t); p.need(","); p.need("label"); d = p.next()[1:].strip('"'); p.need("[")
        cs = []
        while not p.eat("]"):
            ct = ptype(p); c = pval(p, ct); p.need(","); p.need("label")
            cs.append((c[1], p.next()[1:].strip('"')))
        ins.ty = t
        ins.a = (v, d, cs)
    elif op == "ret":
        ins.ty = ptype(p)
        ins.a = (None if ins.ty == ("void",) else pval(p, ins.ty),)
    elif op == "phi":
        ins.ty = ptype(p)
        inc = []
        while True:
            p.need("["); v = pval(p, ins.ty); p.need(","); b = p.next()[1:].strip('"'); p.need("]")
            inc.append((v, b))
            if not p.eat(","):
                break
            if p.kind() == "md":
                break
        ins.a = inc
    elif op == "select":
        t = ptype(p); c = pval(p, t); p.need(","); t1 = ptype(p); x = pval(p, t1); p.need(","); t2 = ptype(p); y = pval(p, t2)
        ins.ty, ins.a = t1, (c, x, y)
    elif op == "extractvalue":
        t = ptype(p); v = pval(p, t)
        ix = []
        while p.eat(","):
            ix.append(int(p.next()))
        ins.ty, ins.a = t, (v, ix)
    elif op == "insertvalue":
        t = ptype(p); v = pval(p, t); p.need(","); t2 = ptype(p); e = pval(p, t2)
        ix = []
        while p.eat(","):
            ix.append(int(p.next()))
        ins.ty, ins.a = t, (v, t2, e, ix)
    elif op == "call":
        while p.peek() in RET_SKIP:
            p.next()
        pattrs(p)
        ins.ty = ptype(p)
        if ins.ty[0] == "func":
            ins.ty = ins.ty[1]
        callee = pval(p, ("ptr",)) if p.kind() in ("lid", "gid") else None
        if callee is None:
            raise Unsupported("call of " + s[:120])
        p.need("(")
        args = []
        while not p.eat(")"):
            t = ptype(p)
            at = pattrs(p)
            if t == ("meta",):
                while p.peek() not in (",", ")"):
                    p.next()
                args.append((t, at, ("undef",)))
            else:
                args.append((t, at, pval(p, t)))
            p.eat(",")
        ins.a = (callee, args)
    elif op in ("unreachable",):
        pass
    else:
        ins.extra = s  # reported when executed
    ins.flags = tuple(flags)
    return ins


class Global:
    __slots__ = ("name", "ty", "init", "const", "ext")


class Module:
    def __init__(self, path):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        self._size, self._dem = {}, None
        self.aliases = {}
        hdr, buf = None, None
        with open(path, errors="replace") as f:
            for line in f:
                if hdr is not None:
                    if line.startswith("}"):
                        self._def(hdr, buf)
                        hdr = None
                    else:
                        buf.append(line.rstrip("\n"))
                    continue
                if line.startswith("define "):
                    hdr, buf = line.rstrip("\n"), []
                elif line.startswith("declare "):
                    m = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                    self.decls[m.group(1).strip('"')] = line.rstrip("\n")
                elif line.startswith("%") and " = type " in line:
                    n, _, r = line.partition(" = type ")
                    self.types[n[1:].strip().strip('"')] = r.strip()
                elif line.startswith("@"):
                    m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', line)
                    self._global(m.group(1).strip('"'), m.group(2))

    def _def(self, hdr, lines):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', hdr)
        n = m.group(1).strip('"')
        self.funcs[n] = (hdr, lines)

    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.aliases:
            return self.func(self.aliases[name])
        if isinstance(f, tuple):
            f = self.funcs[name] = Function(self, name, *f)
        return f

    def sig(self, name):
        """signature of a defined or declared function"""
        f = self.func(name)
        if f is None and name in self.decls:
            f = Function(self, name, self.decls[name], [])
        return f

    def _global(self, name, text):
        g = Global()
        g.name = name
        m = re.search(r"\balias\b", text)
        if m and " alias " in " " + text:
            t = re.search(r'@("[^"]*"|[-\w.$]+)\s*$', text.split(", partition")[0])
            if t:
                self.aliases[name] = t.group(1).strip('"')
            return
        g.ext = bool(re.search(r"\bexternal\b", text.split("\"")[0])) or " external " in " " + text[:60]
        m = re.search(r"\b(constant|global)\b", text)
        if not m:
            return
        g.const = m.group(1) == "constant"
        g.init = text[m.end():]
        g.ty = None
        self.globals[name] = g

    def ginit(self, name):
        """(type, operand or None, const)"""
        g = self.globals.get(name)
        if g is None:
            return None
        if g.ty is None:
            p = P(g.init.split(", comdat")[0].split(", align")[0].split(", !")[0])
            g.ty = ptype(p)
            g.init = None if g.ext or p.peek() is None else pval(p, g.ty)
        return g.ty, g.init, g.const

    def resolve(self, t):
        while t[0] == "named":
            r = self.types.get(t[1])
            if r is None:
                raise Unsupported("type " + t[1])
            if isinstance(r, str):
                r = self.types[t[1]] = ptype(P(r))
            t = r
        return t

    def size(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, align, field offsets)"""
        if t in self._size:
            return self._size[t]
        r = self.resolve(t)
        k = r[0]
        if k == "i":
            n = r[1]
            b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            b = max(b, (n + 7) // 8)
            res = (b, min(b, 16), None)
        elif k == "ptr":
            res = (8, 8, None)
        elif k == "fp":
            b = {"float": 4, "double": 8, "x86_fp80": 16, "half": 2, "fp128": 16}[r[1]]
            res = (b, b, None)
        elif k == "array":
            s, a, _ = self.layout(r[2])
            res = (s * r[1], a, None)
        elif k == "vec":
            s, a, _ = self.layout(r[2])
            res = (s * r[1], s * r[1], None)
        elif k == "struct":
            off, al, offs = 0, 1, []
            for f in r[1]:
                s, a, _ = self.layout(f)
                if r[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            res = ((off + al - 1) // al * al, al, offs)
        else:
            raise Unsupported(f"size of {r}")
        self._size[t] = res
        return res

    def flatten(self, t, off=0):
        """Scalar leaves [(offset, scalar type)] of a type."""
        r = self.resolve(t)
        if r[0] == "struct":
            out = []
            for f, o in zip(r[1], self.layout(t)[2]):
                out += self.flatten(f, off + o)
            return out
        if r[0] == "array":
            s = self.size(r[2])
            out = []
            for i in range(r[1]):
                out += self.flatten(r[2], off + i * s)
            return out
        return [(off, r)]

    def dem(self, name):
        if self._dem is None:
            names = sorted(set(self.funcs) | set(self.decls) | set(self.globals))
            rc, so, se, _ = run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], inp="\n".join(names) + "\n", timeout=120)
            self._dem = dict(zip(names, so.split("\n")))
            rest = [n for n in names if n.startswith("_Z") and self._dem[n] == n]     # conversion operators defeat llvm-cxxfilt
            if rest:
                so = run(["c++filt"], inp="\n".join(rest) + "\n", timeout=60)[1]
                for n, d in zip(rest, so.split("\n")):
                    while "> >" in d:
                        d = d.replace("> >", ">>")
                    self._dem[n] = d
        return self._dem.get(name, name)

    def find(self, pat, defined=True):
        """Mangled names whose demangled name matches the regular expression."""
        r = re.compile(pat)
        self.dem("")
        return [n for n in (self.funcs if defined else {**self.funcs, **self.decls}) if r.search(self.dem(n))]
