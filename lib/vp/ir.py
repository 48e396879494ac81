"""Front end of the deductive verifier "rvc": the code of /repo as LLVM IR.

/repo/src/*.c is compiled by clang-18 at -O0 and put into SSA form by the
passes in PASSES; nothing is rewritten by hand.  This module parses the text.
"""
import os, re, glob, struct
from fractions import Fraction
from .common import *

PASSES = "function(sroa,mem2reg,lowerswitch,simplifycfg,loop-simplify)"
CLANG = "clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
LLVM = "/usr/lib/llvm-18/bin"


class Unsupported(Exception):
    pass


def build(defs=(), srcs=None, incs=()):
    """IR text of the whole library"""
    d = tempfile.mkdtemp(dir=scratch(), prefix="ir_")
    lls = []
    for f in srcs or sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
        o = os.path.join(d, os.path.basename(f) + ".ll")
        r = sh([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-gline-tables-only", "-w",
                "-ffp-contract=off", "-fno-builtin", "-fno-discard-value-names", "-std=gnu11",
                "-I" + os.path.join(REPO, "include")] + ["-I" + i for i in incs] + ["-D" + x for x in defs] + ["-o", o, f], 60)
        if r.rc:
            raise Unsupported("clang: " + r.err[-2000:])
        lls.append(o)
    a, b = os.path.join(d, "all.ll"), os.path.join(d, "ssa.ll")
    r = sh([LLVM + "/llvm-link", "-S", "-o", a] + lls, 60)
    if r.rc:
        raise Unsupported("llvm-link: " + r.err[-2000:])
    r = sh([LLVM + "/opt", "-S", "-passes=" + PASSES, a, "-o", b], 60)
    if r.rc:
        raise Unsupported("opt: " + r.err[-2000:])
    return open(b).read()


# --- lexer -----------------------------------------------------------------
TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_.][-a-zA-Z_.0-9]*)
 | (?P<p>[][(){}<>,=*:|])
 )''', re.X)


def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip().startswith(";") or not s[i:].strip():
                break
            raise Unsupported("lex: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class T:
    """types: ('i',w) ('double',) ('ptr',) ('void',) ('arr',n,t) ('st',[t]) ('named',n) ('fn',)"""


class Toks:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise Unsupported("expected %s got %s in %s" % (s, self.peek(), " ".join(x[1] for x in self.t)))


ATTRS = {"noundef", "nocapture", "readonly", "writeonly", "noalias", "immarg", "nonnull", "signext", "zeroext",
         "returned", "nofree", "readnone", "inbounds", "nuw", "nsw", "exact", "tail", "musttail", "notail",
         "dso_local", "internal", "external", "private", "unnamed_addr", "local_unnamed_addr", "hidden", "linkonce_odr",
         "weak", "common", "constant_", "disjoint", "nneg", "volatile_", "fast_", "ccc", "available_externally", "thread_local",
         "dead_on_unwind", "writable", "dead_on_return", "inreg", "noext", "nest", "allocptr", "allocalign"}


def p_type(t):
    w = t.peek()
    if w == "ptr":
        t.next()
        r = ("ptr",)
    elif w in ("double", "float", "void", "label", "metadata", "x86_fp80", "token"):
        t.next()
        r = (w,)
    elif re.fullmatch(r"i[0-9]+", w or ""):
        t.next()
        r = ("i", int(w[1:]))
    elif w == "[":
        t.next()
        n = int(t.next())
        t.need("x")
        e = p_type(t)
        t.need("]")
        r = ("arr", n, e)
    elif w == "{":
        t.next()
        l = []
        while not t.eat("}"):
            l.append(p_type(t))
            t.eat(",")
        r = ("st", l)
    elif w == "<":
        raise Unsupported("vector type")
    elif w and w[0] == "%":
        t.next()
        r = ("named", w)
    else:
        raise Unsupported("type " + str(w))
    if t.peek() == "(":
        d = 0
        while True:
            x = t.next()
            d += (x == "(") - (x == ")")
            if d == 0:
                break
        r = ("fnty", r)
    return r


def skip_attrs(t):
    while True:
        if t.peek() in ATTRS:
            t.next()
        elif t.peek() in ("align",):
            t.next()
            t.next()
        elif t.peek() in ("dereferenceable", "dereferenceable_or_null", "sret", "memory", "range", "captures", "nofpclass", "initializes", "elementtype"):
            t.next()
            d = 0
            while True:
                x = t.next()
                d += (x == "(") - (x == ")")
                if d == 0:
                    break
        else:
            return


def p_val(t, ty):
    """operand of a known type -> ('v',name) ('c',type,value) ('g',name) ('ce',op,...) ('agg',[...]) ('undef',)"""
    k, w = t.kind(), t.peek()
    if k == "id":
        t.next()
        return ("v", w) if w[0] == "%" else ("g", w)
    if k == "num":
        t.next()
        if ty[0] == "double":
            return ("c", ty, Fraction(struct.unpack("d", struct.pack("d", float(w)))[0]))
        return ("c", ty, int(w))
    if k == "hex":
        t.next()
        f = struct.unpack(">d", bytes.fromhex(w[2:].rjust(16, "0")))[0]
        if f != f:
            return ("c", ty, "nan")
        if f in (float("inf"), float("-inf")):
            return ("c", ty, "inf" if f > 0 else "-inf")
        return ("c", ty, Fraction(f))
    if w in ("true", "false"):
        t.next()
        return ("c", ty, 1 if w == "true" else 0)
    if w == "null":
        t.next()
        return ("null",)
    if w == "zeroinitializer":
        t.next()
        return ("zero", ty)
    if w in ("undef", "poison"):
        t.next()
        return ("undef", ty)
    if k == "str":
        t.next()
        b = w[2:-1]
        out = []
        i = 0
        while i < len(b):
            if b[i] == "\\":
                if b[i + 1] == "\\":
                    out.append(92)
                    i += 2
                else:
                    out.append(int(b[i + 1:i + 3], 16))
                    i += 3
            else:
                out.append(ord(b[i]))
                i += 1
        return ("agg", ty, [("c", ("i", 8), x) for x in out])
    if w in ("[", "{"):
        t.next()
        l = []
        while not t.eat("]" if w == "[" else "}"):
            et = p_type(t)
            l.append(p_val(t, et))
            t.eat(",")
        return ("agg", ty, l)
    if w == "getelementptr":
        t.next()
        skip_attrs(t)
        t.need("(")
        st = p_type(t)
        ops = []
        while t.eat(","):
            et = p_type(t)
            ops.append((et, p_val(t, et)))
        t.need(")")
        return ("gep", st, ops)
    raise Unsupported("operand %s %s" % (k, w))


class Ins:
    __slots__ = ("op", "dst", "ty", "a", "x", "line", "txt")

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x, self.line, self.txt = op, dst, ty, a, x, 0, ""


class Func:
    def __init__(self, name, ret, params, internal):
        self.name, self.ret, self.params, self.internal = name, ret, params, internal
        self.blocks, self.order, self.entry = {}, [], None
        self.file = ""
        self.bad = ""


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "uitofp", "sitofp", "fptoui", "fptosi", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc"}


def p_ins(line):
    t = Toks(lex(line))
    dst = None
    if t.kind() == "id" and t.peek(1) == "=":
        dst = t.next()
        t.next()
    op = t.next()
    while op in ("tail", "musttail", "notail"):
        op = t.next()
    if op in BIN:
        fl = []
        while t.peek() in ("nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint"):
            fl.append(t.next())
        ty = p_type(t)
        a = p_val(t, ty)
        t.need(",")
        return Ins(op, dst, ty, [a, p_val(t, ty)], fl)
    if op == "fneg":
        ty = p_type(t)
        return Ins(op, dst, ty, [p_val(t, ty)])
    if op in CAST:
        skip_attrs(t)
        ty = p_type(t)
        a = p_val(t, ty)
        t.need("to")
        return Ins(op, dst, p_type(t), [a], ty)
    if op in ("icmp", "fcmp"):
        pr = t.next()
        while pr in ("fast", "nnan", "ninf", "nsz", "samesign"):
            pr = t.next()
        ty = p_type(t)
        a = p_val(t, ty)
        t.need(",")
        return Ins(op, dst, ty, [a, p_val(t, ty)], pr)
    if op == "select":
        ct = p_type(t)
        c = p_val(t, ct)
        t.need(",")
        ty = p_type(t)
        a = p_val(t, ty)
        t.need(",")
        p_type(t)
        return Ins(op, dst, ty, [c, a, p_val(t, ty)])
    if op == "freeze":
        ty = p_type(t)
        return Ins(op, dst, ty, [p_val(t, ty)])
    if op == "phi":
        ty = p_type(t)
        inc = []
        while t.eat("["):
            v = p_val(t, ty)
            t.need(",")
            inc.append((v, t.next()))
            t.need("]")
            t.eat(",")
        return Ins(op, dst, ty, None, inc)
    if op == "alloca":
        ty = p_type(t)
        n = None
        if t.eat(",") and t.peek() != "align":
            raise Unsupported("variable length array")
        return Ins(op, dst, ty, [])
    if op == "load":
        t.eat("volatile")
        ty = p_type(t)
        t.need(",")
        pt = p_type(t)
        return Ins(op, dst, ty, [p_val(t, pt)])
    if op == "store":
        t.eat("volatile")
        ty = p_type(t)
        v = p_val(t, ty)
        t.need(",")
        pt = p_type(t)
        return Ins(op, None, ty, [v, p_val(t, pt)])
    if op == "getelementptr":
        skip_attrs(t)
        st = p_type(t)
        ops = []
        while t.eat(","):
            if t.kind() == "meta":
                break
            et = p_type(t)
            ops.append((et, p_val(t, et)))
        return Ins(op, dst, st, ops)
    if op == "br":
        if t.eat("label"):
            return Ins("jmp", None, None, [], [t.next()])
        ty = p_type(t)
        c = p_val(t, ty)
        t.need(",")
        t.need("label")
        a = t.next()
        t.need(",")
        t.need("label")
        return Ins("br", None, ty, [c], [a, t.next()])
    if op == "switch":
        ty = p_type(t)
        v = p_val(t, ty)
        t.need(",")
        t.need("label")
        d = t.next()
        t.need("[")
        cs = []
        while not t.eat("]"):
            ct = p_type(t)
            cv = p_val(t, ct)
            t.need(",")
            t.need("label")
            cs.append((cv, t.next()))
        return Ins("switch", None, ty, [v], [d, cs])
    if op == "ret":
        ty = p_type(t)
        return Ins("ret", None, ty, [] if ty[0] == "void" else [p_val(t, ty)])
    if op == "unreachable":
        return Ins("unreachable", None, None, [])
    if op == "call":
        while t.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "ccc"):
            t.next()
        skip_attrs(t)
        ty = p_type(t)
        if ty[0] == "fnty":
            ty = ty[1]
        if t.kind() == "word" and t.peek() == "asm":
            raise Unsupported("inline assembly")
        f = p_val(t, ("ptr",))
        t.need("(")
        args = []
        while not t.eat(")"):
            at = p_type(t)
            if at[0] == "metadata":
                while t.peek() not in (",", ")"):
                    t.next()
                t.eat(",")
                continue
            skip_attrs(t)
            args.append((at, p_val(t, at)))
            t.eat(",")
        return Ins("call", dst, ty, args, f)
    if op in ("extractvalue", "insertvalue"):
        ty = p_type(t)
        ops = [(ty, p_val(t, ty))]
        t.need(",")
        if op == "insertvalue":
            et = p_type(t)
            ops.append((et, p_val(t, et)))
            t.need(",")
        ix = int(t.next())
        if t.peek() == ",":
            raise Unsupported("nested aggregate")
        return Ins(op, dst, ty, ops, ix)
    raise Unsupported("instruction " + op)


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        self.text = text
        dl = {}
        for m in re.finditer(r"^(!\d+) = (?:distinct )?!DILocation\(line: (\d+)", text, re.M):
            dl[m.group(1)] = int(m.group(2))
        sp = {}
        files = {m.group(1): m.group(2) for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)"', text, re.M)}
        for m in re.finditer(r"^(!\d+) = distinct !DISubprogram\(name: \"([^\"]*)\".*?file: (!\d+)", text, re.M):
            sp[m.group(1)] = files.get(m.group(3), "")
        f, b = None, None
        it = iter(text.splitlines())
        for line in it:
            if f is None:
                if line.startswith("%") and " = type " in line:
                    n, r = line.split(" = type ", 1)
                    if r.strip() == "opaque":
                        continue
                    self.types[n] = p_type(Toks(lex(r)))
                elif line.startswith("@"):
                    self.glob(line)
                elif line.startswith("define"):
                    try:
                        f = self.head(line)
                    except Unsupported as e:
                        # this function only: its body is out of reach
                        f = Func("@" + re.search(r"@([-\w.$]+|\"[^\"]*\")\(", line).group(1), ("void",), [], True)
                        f.bad = str(e)
                    m = re.search(r"!dbg (!\d+)", line)
                    f.file = sp.get(m.group(1), "") if m else ""
                elif line.startswith("declare"):
                    m = re.search(r"@([-\w.$]+)\(", line)
                    if m:
                        self.decls.add("@" + m.group(1))
                continue
            if line.startswith("}"):
                if f.bad:
                    f.blocks, f.order, f.entry = {"%entry0": [Ins("unsupported", None, None, [], f.bad), Ins("unreachable", None, None, [])]}, ["%entry0"], "%entry0"
                self.funcs[f.name] = f
                f = None
                continue
            s = line.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^([-\w.$]+|"[^"]*"):', line)
            if m:
                b = "%" + m.group(1)
                f.blocks[b] = []
                f.order.append(b)
                if f.entry is None:
                    f.entry = b
                continue
            if f.entry is None:
                b = "%entry0"
                f.blocks[b] = []
                f.order.append(b)
                f.entry = b
            if s.startswith("switch") and "]" not in s:
                for l2 in it:
                    s += " " + l2.strip()
                    if "]" in l2:
                        break
            m = re.search(r", !dbg (!\d+)", s)
            core = re.split(r", ![a-zA-Z.]+ !", s)[0]
            core = re.sub(r" #\d+$", "", core)
            try:
                i = p_ins(core)
            except Unsupported as e:
                i = Ins("unsupported", None, None, [], str(e) + ": " + core)
            i.line = dl.get(m.group(1), 0) if m else 0
            i.txt = core
            f.blocks[b].append(i)
        self.const = {}
        for g in self.globals:
            self.const[g] = self.is_const(g)
        for f in self.funcs.values():
            loops(f)

    def glob(self, line):
        try:
            t = Toks(lex(line.split(", align")[0]))
            n = t.next()
            t.need("=")
            ext = False
            c = False
            while t.peek() not in ("global", "constant"):
                if t.peek() == "external":
                    ext = True
                if t.peek() in ("alias", "ifunc", None):
                    return
                t.next()
            c = t.next() == "constant"
            ty = p_type(t)
            self.globals[n] = {"ty": ty, "init": None if ext else p_val(t, ty), "constant": c}
        except Unsupported:
            pass

    def head(self, line):
        internal = " internal " in line.split("@")[0]
        m = re.search(r"@([-\w.$]+|\"[^\"]*\")\(", line)
        name = "@" + m.group(1)
        pre = Toks(lex(line[len("define"):m.start()]))
        while True:
            skip_attrs(pre)
            try:
                ret = p_type(pre)
                break
            except Unsupported:
                pre.next()
        t = Toks(lex(line[m.end():].split(" #")[0].split("!dbg")[0].rstrip(" {")))
        ps = []
        while not t.eat(")"):
            if t.kind() == "dots":
                t.next()
                continue
            ty = p_type(t)
            skip_attrs(t)
            ps.append((ty, t.next()))
            t.eat(",")
        return Func(name, ret, ps, internal)

    def is_const(self, g):
        """the global is never stored to nor does its address escape"""
        if self.globals[g]["constant"]:
            return True
        derived = {}
        for f in self.funcs.values():
            al = {g}
            ch = True
            while ch:
                ch = False
                for b in f.blocks.values():
                    for i in b:
                        if i.op == "getelementptr" and i.a and i.a[0][1][1:] and i.a[0][1][0] in ("v", "g") and i.a[0][1][1] in al and i.dst not in al:
                            al.add(i.dst)
                            ch = True
            for b in f.blocks.values():
                for i in b:
                    if i.op in ("load", "getelementptr", "icmp"):
                        continue
                    ops = [x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else x for x in (i.a or [])]
                    if i.op == "phi":
                        ops = [v for v, _ in i.x]
                    if any(isinstance(o, tuple) and len(o) > 1 and o[0] in ("v", "g") and o[1] in al for o in ops):
                        return False
                    if any(isinstance(o, tuple) and o and o[0] == "gep" and o[2][0][1][1] in al for o in ops):
                        return False
        for g2, d in self.globals.items():
            if g2 != g and d["init"] and mentions(d["init"], g):
                return False
        return True

    # --- layout
    def size(self, ty):
        k = ty[0]
        if k == "i":
            return max(1, (ty[1] + 7) // 8)
        if k in ("double", "ptr"):
            return 8
        if k == "float":
            return 4
        if k == "arr":
            return ty[1] * self.size(ty[2])
        if k == "named":
            return self.size(self.types[ty[1]])
        if k == "st":
            o = 0
            for e in ty[1]:
                a = self.align(e)
                o = (o + a - 1) // a * a + self.size(e)
            a = self.align(ty)
            return (o + a - 1) // a * a
        raise Unsupported("size of " + str(ty))

    def align(self, ty):
        k = ty[0]
        if k == "arr":
            return self.align(ty[2])
        if k == "named":
            return self.align(self.types[ty[1]])
        if k == "st":
            return max([1] + [self.align(e) for e in ty[1]])
        return self.size(ty)

    def field(self, ty, n):
        if ty[0] == "named":
            ty = self.types[ty[1]]
        o = 0
        for j, e in enumerate(ty[1]):
            a = self.align(e)
            o = (o + a - 1) // a * a
            if j == n:
                return o, e
            o += self.size(e)
        raise Unsupported("field")

    def leaves(self, ty, base=0):
        """(offset, scalar type) of every scalar inside ty"""
        if ty[0] == "named":
            ty = self.types[ty[1]]
        if ty[0] == "arr":
            s = self.size(ty[2])
            out = []
            for j in range(ty[1]):
                out += self.leaves(ty[2], base + j * s)
            return out
        if ty[0] == "st":
            out = []
            for j in range(len(ty[1])):
                o, e = self.field(ty, j)
                out += self.leaves(e, base + o)
            return out
        return [(base, ty)]


def mentions(v, g):
    if v[0] == "g":
        return v[1] == g
    if v[0] == "agg":
        return any(mentions(x, g) for x in v[2])
    if v[0] == "gep":
        return any(mentions(x[1], g) for x in v[2])
    return False


def succs(b):
    i = b[-1]
    if i.op in ("jmp", "br"):
        return list(i.x)
    if i.op == "switch":
        return [i.x[0]] + [l for _, l in i.x[1]]
    return []


def loops(f):
    """natural loops: header -> set of blocks"""
    su = {n: succs(b) for n, b in f.blocks.items()}
    pr = {n: [] for n in f.blocks}
    for n, l in su.items():
        for x in l:
            pr[x].append(n)
    dom = {n: set(f.blocks) for n in f.blocks}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for n in f.order:
            if n == f.entry:
                continue
            ps = [dom[p] for p in pr[n]]
            new = (set.intersection(*ps) if ps else set()) | {n}
            if new != dom[n]:
                dom[n] = new
                ch = True
    f.loops = {}
    for n, l in su.items():
        for h in l:
            if h in dom[n]:
                body = f.loops.setdefault(h, {h})
                st = [n]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += pr[x]
    f.preds = pr
    f.dom = dom
