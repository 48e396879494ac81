"""Back end C ("fperr"): rounding and approximation errors of straight-line floating-point code.

Executes the LLVM IR of a /repo function (ir.py) on an interval of inputs.  Every
double carries
  - the expression it would have in exact real arithmetic (hash-consed DAG),
  - an interval enclosing the value of that expression,
  - a bound of the absolute distance between the computed double and that value
    (IEEE-754 standard model: round to nearest, gradual underflow).
Branches and conversions to integers that the interval does not decide are forked,
the input interval being refined where the condition is affine in the input.  At the
end the exact expression is turned into a rational function P/Q of the input and
compared with exp or log by a derivative argument (mean value theorem): the derivative
of the error has a polynomial numerator, bounded on the interval, and the error is
evaluated with rigorous interval arithmetic (mpmath.iv) at the middle of the interval.
Inputs range over all real numbers of the interval, hence over all doubles of it."""
import math, time
from fractions import Fraction as Fr
from .common import *
from . import ir
from .ir import Unsupported

U = 2.0 ** -53
ETA = 5e-324
na = math.nextafter
INF = math.inf


def up(x):
    return na(x, INF)


def dn(x):
    return na(x, -INF)


def upa(x, y):
    return up(x + y) if x or y else 0.0


# ---- expressions -----------------------------------------------------------
class Node:
    __slots__ = ("op", "a", "id", "aff", "sterb")


class Dag:
    def __init__(self):
        self.t = {}

    def mk(self, op, *a):
        k = (op,) + tuple(x.id if isinstance(x, Node) else x for x in a)
        n = self.t.get(k)
        if n is None:
            n = Node()
            n.op, n.a, n.id = op, a, len(self.t)
            n.aff = affine(n)
            self.t[k] = n
        return n

    def const(self, c):
        return self.mk("c", Fr(c))

    def var(self):
        return self.mk("v")


def affine(n):
    """(alpha, beta) if the node is alpha*v + beta"""
    o, a = n.op, n.a
    if o == "c":
        return (Fr(0), a[0])
    if o == "v":
        return (Fr(1), Fr(0))
    if o == "scale":
        x = a[0].aff
        return x and (x[0] * Fr(2) ** a[1], x[1] * Fr(2) ** a[1])
    x = a[0].aff
    if x is None:
        return None
    if o == "neg":
        return (-x[0], -x[1])
    y = a[1].aff
    if y is None:
        return None
    if o == "+":
        return (x[0] + y[0], x[1] + y[1])
    if o == "-":
        return (x[0] - y[0], x[1] - y[1])
    if o == "*":
        if x[0] == 0:
            return (x[1] * y[0], x[1] * y[1])
        if y[0] == 0:
            return (y[1] * x[0], y[1] * x[1])
        return None
    if o == "/":
        if y[0] == 0 and y[1] != 0:
            return (x[0] / y[1], x[1] / y[1])
        return None
    return None


# polynomials: lists of Fractions, lowest degree first
def pnorm(p):
    while p and p[-1] == 0:
        p.pop()
    return p


def padd(a, b, s=1):
    n = max(len(a), len(b))
    return pnorm([(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)])


def pmul(a, b):
    if not a or not b:
        return []
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return pnorm(r)


def pder(a):
    return pnorm([i * x for i, x in enumerate(a)][1:])


def peval(p, x):
    r = Fr(0)
    for c in reversed(p):
        r = r * x + c
    return r


def ratfun(n, c):
    """P/Q of the node in t, where v = t + c"""
    memo = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        kids = [k for k in x.a if isinstance(k, Node)]
        todo = [k for k in kids if k.id not in memo]
        if todo:
            stack += todo
            continue
        if x.aff is not None:
            al, be = x.aff
            r = (pnorm([al * c + be, al]), [Fr(1)])
        elif x.op == "neg":
            p, q = memo[x.a[0].id]
            r = ([-y for y in p], q)
        elif x.op == "scale":
            p, q = memo[x.a[0].id]
            r = ([y * Fr(2) ** x.a[1] for y in p], q)
        else:
            (p1, q1), (p2, q2) = memo[x.a[0].id], memo[x.a[1].id]
            if x.op in "+-":
                s = 1 if x.op == "+" else -1
                if q1 == q2:
                    r = (padd(p1, p2, s), q1)
                elif q1 == [1]:
                    r = (padd(pmul(p1, q2), p2, s), q2)
                elif q2 == [1]:
                    r = (padd(p1, pmul(p2, q1), s), q1)
                else:
                    r = (padd(pmul(p1, q2), pmul(p2, q1), s), pmul(q1, q2))
            elif x.op == "*":
                r = (pmul(p1, p2), pmul(q1, q2))
            else:
                if q1 == q2:
                    r = (p1, p2)
                else:
                    r = (pmul(p1, q2), pmul(q1, p2))
        if len(r[0]) > 120 or len(r[1]) > 120:
            raise Unsupported("degree of the rational function")
        # common powers of t
        P, Q = r
        while P and Q and P[0] == 0 and Q[0] == 0:
            P, Q = P[1:], Q[1:]
        memo[x.id] = (P, Q)
    return memo[n.id]


# ---- values ----------------------------------------------------------------
class FV:
    """2^s * (node in [lo,hi], computed within err)"""
    __slots__ = ("n", "lo", "hi", "err", "s", "sp")

    def __init__(self, n, lo, hi, err, s=0, sp=None):
        self.n, self.lo, self.hi, self.err, self.s, self.sp = n, lo, hi, err, s, sp


class Split(Exception):
    """continue on sub-cases: [(lo, hi, forced decisions)]"""

    def __init__(self, cases):
        self.cases = cases


class Exec:
    def __init__(self, mod, kind):
        self.mod, self.kind = mod, kind   # kind: 'exp' (input v) or 'log' (input 2^e * v)
        self.d = Dag()
        self.obs = []

    # -- one run on a cell
    def run(self, fname, lo, hi, forced, e=None):
        self.lo, self.hi, self.forced, self.cnt, self.e, self.steps = lo, hi, forced, 0, e, 0
        self.depth = 0
        v = FV(self.d.var(), lo, hi, 0.0)
        self.conc = False
        if isinstance(lo, str):
            v = FV(None, 0, 0, 0, 0, lo)
            self.mem = {}
            return self.call(fname, [v])
        self.conc = lo == hi
        if self.conc:
            # one double: executed as the machine does
            v = self.cst(Fr(lo) * Fr(2) ** (e or 0))
        elif e is not None:
            v = FV(self.d.mk("scale", v.n, e) if e else v.n, lo, hi, 0.0, e)
        self.mem = {}
        return self.call(fname, [v])

    def call(self, fname, args):
        f = self.mod.funcs.get(fname)
        if f is None:
            raise Unsupported("external function " + fname)
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("recursion")
        env = {p[1]: a for p, a in zip(f.params, args)}
        b, prev = f.entry, None
        while True:
            ins = f.blocks[b]
            phis = {}
            for i in ins:
                if i.op != "phi":
                    break
                for val, frm in i.x:
                    if frm == prev:
                        phis[i.dst] = self.op(env, val)
            env.update(phis)
            nxt = None
            for i in ins:
                if i.op == "phi":
                    continue
                self.steps += 1
                if self.steps > 20000:
                    raise Unsupported("too long")
                o = i.op
                if o == "ret":
                    self.depth -= 1
                    return self.op(env, i.a[0]) if i.a else None
                if o == "jmp":
                    nxt = i.x[0]
                    break
                if o == "br":
                    nxt = i.x[0] if self.truth(self.op(env, i.a[0])) else i.x[1]
                    break
                if o == "switch":
                    c = self.op(env, i.a[0])
                    nxt = i.x[0]
                    for cv, lab in i.x[1]:
                        if (cv[2] - c) % (1 << i.ty[1]) == 0:
                            nxt = lab
                    break
                r = self.ins(env, i)
                if i.dst:
                    env[i.dst] = r
            if nxt is None:
                raise Unsupported("block end")
            b, prev = nxt, b

    def truth(self, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        raise Unsupported("condition")

    def op(self, env, a):
        k = a[0]
        if k == "v":
            return env[a[1]]
        if k == "c":
            if a[1][0] == "double":
                if isinstance(a[2], str):
                    return FV(None, 0, 0, 0, 0, a[2])
                return self.cst(a[2])
            return a[2]
        if k == "g":
            return ("g", a[1])
        if k == "undef":
            return ("undef",)
        if k == "null":
            return ("null",)
        if k == "zero":
            return self.cst(0) if a[1][0] == "double" else 0
        if k == "gep":
            base = self.op(env, a[2][0][1])
            return self.gep(env, base, a[1], a[2][1:])
        raise Unsupported("operand " + k)

    def cst(self, c):
        f = float(c)
        if Fr(f) != c:
            raise Unsupported("constant")
        return FV(self.d.const(c), f, f, 0.0)

    def gep(self, env, base, ty, idx):
        off = 0
        first = True
        for et, v in idx:
            j = self.op(env, v)
            if not isinstance(j, int):
                raise Unsupported("symbolic index")
            if et[0] == "i" and j >= 1 << (et[1] - 1):
                j -= 1 << et[1]
            if first:
                off += j * self.mod.size(ty)
                first = False
            elif ty[0] == "arr":
                ty = ty[2]
                off += j * self.mod.size(ty)
            else:
                o, ty = self.mod.field(ty, j)
                off += o
        if base[0] == "g":
            return ("gp", base[1], off)
        return (base[0], base[1], base[2] + off)

    def load(self, p, ty):
        if p[0] in ("g", "gp"):
            g = self.mod.globals.get(p[1])
            off = p[2] if p[0] == "gp" else 0
            if g is None or g["init"] is None:
                raise Unsupported("global " + p[1])
            if ty[0] == "ptr":
                if g["init"][0] == "g" and off == 0:
                    return ("fn", g["init"][1], p[1])
                raise Unsupported("pointer global")
            if not self.mod.const.get(p[1]):
                raise Unsupported("mutable global " + p[1])
            leaf = init_leaf(self.mod, g["ty"], g["init"], off)
            if leaf is None:
                raise Unsupported("global initialiser")
            return self.op({}, leaf)
        if p[0] == "al":
            v = self.mem.get((p[1], p[2]))
            if v is None:
                raise Unsupported("load of unknown memory")
            if v[0] != ty:
                raise Unsupported("load with another type")
            return v[1]
        raise Unsupported("load")

    def ins(self, env, i):
        o = i.op
        A = lambda k: self.op(env, i.a[k])
        if o == "alloca":
            self.cnt_al = getattr(self, "cnt_al", 0) + 1
            return ("al", self.cnt_al, 0)
        if o == "load":
            return self.load(A(0), i.ty)
        if o == "store":
            p = A(1)
            if p[0] != "al":
                raise Unsupported("store to a global")
            self.mem[(p[1], p[2])] = (i.ty, A(0))
            return None
        if o == "getelementptr":
            return self.gep(env, self.op(env, i.a[0][1]), i.ty, i.a[1:])
        if o in ("fadd", "fsub", "fmul", "fdiv"):
            return self.arith(o, A(0), A(1))
        if o == "fneg":
            return self.neg(A(0))
        if o == "fcmp":
            return self.fcmp(i.x, A(0), A(1))
        if o == "icmp":
            a, b = A(0), A(1)
            if not (isinstance(a, int) and isinstance(b, int)):
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return {"eq": a == b, "ne": a != b}[i.x]
                raise Unsupported("icmp")
            w = i.ty[1]
            m = (1 << w) - 1
            a, b = a & m, b & m
            if i.x[0] == "s":
                a, b = [x - (1 << w) if x >> (w - 1) else x for x in (a, b)]
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[i.x.lstrip("us") if i.x not in ("eq", "ne") else i.x]
        if o == "select":
            return A(1) if self.truth(A(0)) else A(2)
        if o == "freeze":
            return A(0)
        if o in ("zext", "trunc", "sext"):
            a = int(A(0))
            ws, wd = i.x[1], i.ty[1]
            a &= (1 << ws) - 1
            if o == "sext" and a >> (ws - 1):
                a -= 1 << ws
            return a & ((1 << wd) - 1)
        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = A(0), A(1)
            if not isinstance(a, (int, bool)) or not isinstance(b, (int, bool)):
                raise Unsupported("integer arithmetic")
            a, b = int(a), int(b)
            w = i.ty[1]
            m = (1 << w) - 1
            sg = lambda x: (x & m) - (1 << w) if (x & m) >> (w - 1) else x & m
            if o in ("udiv", "sdiv", "urem", "srem") and b & m == 0:
                raise Unsupported("division by zero")
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                 "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: (a & m) >> b, "ashr": lambda: sg(a) >> b,
                 "udiv": lambda: (a & m) // (b & m), "urem": lambda: (a & m) % (b & m),
                 "sdiv": lambda: int(Fr(sg(a), 1) / sg(b)) if True else 0, "srem": lambda: sg(a) - sg(b) * int(Fr(sg(a), sg(b)))}[o]()
            return r & m
        if o in ("sitofp", "uitofp"):
            a = int(A(0))
            w = i.x[1]
            a &= (1 << w) - 1
            if o == "sitofp" and a >> (w - 1):
                a -= 1 << w
            if abs(a) >= 1 << 53:
                raise Unsupported("large integer")
            return self.cst(Fr(a))
        if o in ("fptoui", "fptosi"):
            return self.toint(A(0), o, i.ty[1])
        if o == "call":
            return self.docall(env, i)
        raise Unsupported("instruction " + o + " " + i.txt)

    def docall(self, env, i):
        f = i.x
        args = [self.op(env, v) for _, v in i.a]
        tys = [t for t, _ in i.a]
        name = f[1] if f[0] == "g" else None
        tgt = self.op(env, f) if f[0] != "g" else None
        if name and name.startswith(("@llvm.dbg", "@llvm.lifetime")):
            return None
        if tgt is not None and tgt[0] == "fn":
            name = tgt[1]
        if name is None:
            raise Unsupported("indirect call")
        if name == self.target("@libspot_frexp", ("ptr",), i, tys):
            return self.frexp(args[0], args[1])
        if name == self.target("@libspot_ldexp", ("i", 32), i, tys):
            return self.ldexp(args[0], args[1])
        if name == "@llvm.fabs.f64":
            return self.neg(args[0]) if self.fcmp("olt", args[0], self.cst(Fr(0))) else args[0]
        if name == "@llvm.fmuladd.f64":
            return self.arith("fadd", self.arith("fmul", args[0], args[1]), args[2])
        return self.call(name, args)

    def target(self, g, ty2, i, tys):
        """the function behind one of the two pointers, whose contract CBMC proves"""
        x = self.mod.globals.get(g)
        if x is None or x["init"] is None or x["init"][0] != "g":
            return None
        if i.ty[0] != "double" or len(tys) != 2 or tys[0][0] != "double" or tys[1][:len(ty2)] != ty2:
            return None
        return x["init"][1]

    # -- contracts of the decomposition and of the scaling (proved by CBMC)
    def frexp(self, x, p):
        if self.conc and not x.sp and p[0] == "al":
            m, e = math.frexp(x.lo)
            self.mem[(p[1], p[2])] = (("i", 32), e & 0xffffffff)
            return self.num(m)
        if x.sp or self.e is None or x.n is not (self.d.mk("scale", self.d.var(), self.e) if self.e else self.d.var()) or x.err:
            raise Unsupported("frexp of something else than the argument")
        if p[0] != "al":
            raise Unsupported("frexp pointer")
        self.mem[(p[1], p[2])] = (("i", 32), self.e & 0xffffffff)
        return FV(self.d.var(), self.lo, self.hi, 0.0)

    def ldexp(self, x, k):
        if x.sp or not isinstance(k, int):
            raise Unsupported("ldexp")
        if k >> 31:
            k -= 1 << 32
        if self.conc:
            try:
                return self.num(math.ldexp(x.lo, k))
            except OverflowError:
                return self.num(INF if x.lo > 0 else -INF)
        y = FV(self.d.mk("scale", x.n, k) if k else x.n, x.lo, x.hi, x.err, x.s + k)
        z = x.lo - x.err
        if z > 0 and Fr(z) * Fr(2) ** y.s >= Fr(2) ** 1024:
            return FV(None, 0, 0, 0, 0, "inf")
        self.range(y)
        return y

    def range(self, y, sub=False):
        m = max(abs(y.lo), abs(y.hi)) + y.err
        if m == 0:
            return
        if math.log2(m) + y.s >= 1024 - 1e-9:
            lim = Fr(2) ** (1024 - y.s) * (1 - Fr(1, 2 ** 54))
            if Fr(m) >= lim:
                raise Unsupported("possible overflow")
        if sub or y.s == 0:
            return
        z = min(abs(y.lo), abs(y.hi)) - y.err
        if z <= 0 or math.log2(z) + y.s < -1021:
            raise Unsupported("possible underflow of a scaling")

    # -- arithmetic
    def neg(self, a):
        if a.sp:
            return FV(None, 0, 0, 0, 0, {"inf": "-inf", "-inf": "inf", "nan": "nan"}[a.sp])
        return FV(self.d.mk("neg", a.n) if a.n.op != "c" else self.d.const(-a.n.a[0]), -a.hi, -a.lo, a.err, a.s)

    def al(self, a, b):
        """operands at the same scale"""
        if a.s == b.s:
            return a, b, a.s
        if a.lo == a.hi == 0:
            return FV(a.n, 0.0, 0.0, a.err, b.s), b, b.s
        if b.lo == b.hi == 0:
            return a, FV(b.n, 0.0, 0.0, b.err, a.s), a.s
        s = max(a.s, b.s)

        def adj(x):
            k = x.s - s
            if k == 0:
                return x
            f = 2.0 ** max(k, -1000)
            return FV(x.n, dn(x.lo * f), up(x.hi * f), up(x.err * f), s)
        return adj(a), adj(b), s

    def arith(self, o, a, b):
        if a.sp or b.sp:
            return self.sparith(o, a, b)
        if self.conc:
            x, y = a.lo, b.lo
            if o == "fdiv" and y == 0:
                raise Unsupported("division by zero")
            r = x + y if o == "fadd" else x - y if o == "fsub" else x * y if o == "fmul" else x / y
            return self.num(r)
        d = self.d
        if o in ("fadd", "fsub"):
            a, b, s = self.al(a, b)
            if o == "fadd":
                lo, hi = dn(a.lo + b.lo), up(a.hi + b.hi)
            else:
                lo, hi = dn(a.lo - b.hi), up(a.hi - b.lo)
            n = d.mk("+" if o == "fadd" else "-", a.n, b.n)
            e = upa(a.err, b.err)
            exact = False
            if a.err == 0 and b.err == 0:
                # Sterbenz: x - y of doubles within a factor 2 of each other
                bl, bh = (b.lo, b.hi) if o == "fsub" else (-b.hi, -b.lo)
                if (a.lo > 0 and bl > 0 and bh <= 2 * a.lo and a.hi <= 2 * bl) or (a.hi < 0 and bh < 0 and -bl <= -2 * a.hi and -a.lo <= -2 * bh):
                    exact = True
                # doubling
                if o == "fadd" and a.n is b.n:
                    exact = True
            if o == "fadd" and a.n is b.n:
                exact = True
            if a.lo == a.hi == 0 == a.err or b.lo == b.hi == 0 == b.err:
                exact = True
            iv = self.tight(n, lo, hi, s)
            lo, hi = iv
            if not exact:
                e = up(e + up(U * up(max(abs(lo), abs(hi)) + e)))
            r = FV(n, lo, hi, e, s)
        elif o == "fmul":
            s = a.s + b.s
            c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            lo, hi = dn(min(c)), up(max(c))
            if a.n is b.n:
                m1, m2 = sorted((abs(a.lo), abs(a.hi)))
                if a.lo <= 0 <= a.hi:
                    m1 = 0.0
                lo, hi = max(0.0, dn(m1 * m1)), up(m2 * m2)
            n = d.mk("*", a.n, b.n)
            A, B = max(abs(a.lo), abs(a.hi)), max(abs(b.lo), abs(b.hi))
            e = up(up(A * b.err) + up(up(B * a.err) + up(a.err * b.err))) if a.err or b.err else 0.0
            lo, hi = self.tight(n, lo, hi, s)
            p2 = any(x.n.op == "c" and x.n.a[0] and pow2(x.n.a[0]) for x in (a, b))
            if not p2:
                e = up(e + up(U * up(max(abs(lo), abs(hi)) + e)))
            if not (p2 and all(y.n.op == "c" and abs(y.n.a[0]) >= 1 for y in (a, b) if y.n.op == "c" and pow2(y.n.a[0]))):
                e = up(e + self.eta(s))
            r = FV(n, lo, hi, e, s)
        else:
            s = a.s - b.s
            if b.lo - b.err <= 0 <= b.hi + b.err:
                raise Unsupported("possible division by zero")
            c = [x / y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            lo, hi = dn(min(c)), up(max(c))
            n = d.mk("/", a.n, b.n)
            lo, hi = self.tight(n, lo, hi, s)
            B = dn(min(abs(b.lo), abs(b.hi)) - b.err)
            if B <= 0:
                raise Unsupported("possible division by zero")
            Q = max(abs(lo), abs(hi))
            e = up(up(a.err + up(Q * b.err)) / B) if a.err or b.err else 0.0
            e = up(e + up(U * up(Q + e))) if not (b.n.op == "c" and pow2(b.n.a[0])) else e
            e = up(e + self.eta(s))
            r = FV(n, lo, hi, e, s)
        self.range(r, True)
        return r

    def num(self, r):
        if r != r:
            return FV(None, 0, 0, 0, 0, "nan")
        if abs(r) == INF:
            return FV(None, 0, 0, 0, 0, "inf" if r > 0 else "-inf")
        return self.cst(Fr(r))

    def sparith(self, o, a, b):
        """infinities and NaN, where the sign of the other operand is known"""
        mk = lambda t: FV(None, 0, 0, 0, 0, t)
        if "nan" in (a.sp, b.sp):
            return mk("nan")
        if o in ("fadd", "fsub"):
            y = b if o == "fadd" else self.neg(b)
            if a.sp and y.sp:
                return mk(a.sp if a.sp == y.sp else "nan")
            return mk(a.sp or y.sp)
        if o == "fdiv" and b.sp:
            return mk("nan") if a.sp else self.cst(Fr(0))

        def sign(x):
            if x.sp:
                return 1 if x.sp == "inf" else -1
            return 1 if x.lo > x.err else -1 if x.hi < -x.err else 0
        if sign(a) == 0 or sign(b) == 0:
            raise Unsupported("possible product of zero and infinity")
        return mk("inf" if sign(a) * sign(b) > 0 else "-inf")

    def eta(self, s):
        """absolute error of a gradual underflow, at scale s"""
        return 2.0 ** max(-1073 - s, -1074) if s > -2000 else INF

    def tight(self, n, lo, hi, s):
        """affine expressions are evaluated from the input (no dependency loss)"""
        if n.aff is None:
            return lo, hi
        al, be = n.aff
        k = Fr(2) ** -s
        x, y = (al * Fr(self.lo) + be) * k, (al * Fr(self.hi) + be) * k
        if x > y:
            x, y = y, x
        l2, h2 = rdn(x), rup(y)
        return max(lo, l2), min(hi, h2)

    # -- decisions
    def decide(self, outcomes):
        """outcomes: list of (value, (lo,hi) refined cell); fork unless forced"""
        i = self.point
        outcomes = [(v, c) for v, c in outcomes if c is not None and c[0] <= c[1]]
        if len(outcomes) == 1 and outcomes[0][1] == (self.lo, self.hi):
            return outcomes[0][0]
        raise Split([(c[0], c[1], self.forced + ((i, v),)) for v, c in outcomes])

    def pt(self):
        """a decision point; the outcome if this run is to follow a given one"""
        self.point = self.cnt
        self.cnt += 1
        return dict(self.forced).get(self.point)

    def below(self, n, bound):
        """cell of the inputs where node <= bound is possible"""
        if n.aff is None or n.aff[0] == 0:
            return (self.lo, self.hi)
        al, be = n.aff
        t = (Fr(bound) - be) / al
        if al > 0:
            return (self.lo, min(self.hi, rup(t)))
        return (max(self.lo, rdn(t)), self.hi)

    def above(self, n, bound):
        if n.aff is None or n.aff[0] == 0:
            return (self.lo, self.hi)
        al, be = n.aff
        t = (Fr(bound) - be) / al
        if al > 0:
            return (max(self.lo, rdn(t)), self.hi)
        return (self.lo, min(self.hi, rup(t)))

    def fcmp(self, pr, a, b):
        if pr in ("true", "false"):
            return pr == "true"
        if a.sp or b.sp:
            val = {"inf": 1, "-inf": -1, None: 0}
            if a.sp == "nan" or b.sp == "nan":
                return pr[0] == "u"
            x, y = val[a.sp], val[b.sp]
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "rd": True, "no": False}[pr[1:]]
        if pr == "ord":
            return True
        if pr == "uno":
            return False
        rel = pr[1:]
        if a.n is b.n:
            return rel in ("eq", "le", "ge")
        fd = self.pt()
        if fd is not None:
            return fd
        a2, b2, s = self.al(a, b)
        E = upa(a2.err, b2.err)
        lo, hi = dn(a2.lo - b2.hi), up(a2.hi - b2.lo)
        n = self.d.mk("-", a.n, b.n)
        lo, hi = self.tight(n, lo, hi, s)
        if E == 0 and n.aff is not None:
            # exact comparison
            x, y = sorted((n.aff[0] * Fr(self.lo) + n.aff[1], n.aff[0] * Fr(self.hi) + n.aff[1]))
        else:
            x, y = Fr(lo) - Fr(E), Fr(hi) + Fr(E)
        if rel in ("eq", "ne"):
            if x > 0 or y < 0:
                r = False
            elif x == y == 0 and E == 0:
                r = True
            else:
                Es = Fr(E) * Fr(2) ** s
                inter = (max(self.below(n, Es)[0], self.above(n, -Es)[0]), min(self.below(n, Es)[1], self.above(n, -Es)[1]))
                return self.decide([(rel == "eq", inter), (rel != "eq", (self.lo, self.hi))])
            return r if rel == "eq" else not r
        if rel in ("lt", "le"):
            if y < 0 or (y == 0 and rel == "le"):
                return True
            if x > 0 or (x == 0 and rel == "lt"):
                return False
        else:
            if x > 0 or (x == 0 and rel == "ge"):
                return True
            if y < 0 or (y == 0 and rel == "gt"):
                return False
        Es = Fr(E) * Fr(2) ** s
        lowc, highc = self.below(n, Es), self.above(n, -Es)
        if rel in ("lt", "le"):
            return self.decide([(True, lowc), (False, highc)])
        return self.decide([(True, highc), (False, lowc)])

    def toint(self, a, o, w):
        if a.sp or a.s:
            raise Unsupported("conversion")
        fd = self.pt()
        if fd is not None:
            return fd & ((1 << w) - 1)
        x, y = Fr(a.lo) - Fr(a.err), Fr(a.hi) + Fr(a.err)
        if x <= -1 or y >= 1 << (w - 1):
            raise Unsupported("conversion out of range")
        tr = lambda q: int(q)      # towards zero
        i, j = tr(x), tr(y)
        if i == j:
            return i & ((1 << w) - 1)
        if j - i > 3:
            m = (i + j) // 2
            if a.n.aff is None or a.n.aff[0] == 0:
                raise Unsupported("conversion of a non-affine value")
            c = float((Fr(m) - a.n.aff[1]) / a.n.aff[0])
            if not self.lo < c < self.hi:
                raise Unsupported("conversion split")
            raise Split([(self.lo, c, self.forced), (c, self.hi, self.forced)])
        out = []
        E = Fr(a.err)
        for k in range(i, j + 1):
            l1, h1 = self.above(a.n, k - E if k > 0 else -1 - E)
            l2, h2 = self.below(a.n, k + 1 + E)
            out.append((k, (max(l1, l2), min(h1, h2))))
        return self.decide(out) & ((1 << w) - 1)


def pow2(q):
    q = abs(q)
    return q != 0 and (q.numerator & (q.numerator - 1)) == 0 and (q.denominator & (q.denominator - 1)) == 0


def rdn(q):
    f = float(q)
    return f if Fr(f) <= q else dn(f)


def rup(q):
    f = float(q)
    return f if Fr(f) >= q else up(f)


def init_leaf(mod, ty, v, off):
    while True:
        if ty[0] == "named":
            ty = mod.types[ty[1]]
        if v[0] == "zero":
            for o, t in mod.leaves(ty):
                if o == off:
                    return ("zero", t)
            return None
        if ty[0] == "arr":
            s = mod.size(ty[2])
            j = off // s
            if v[0] != "agg" or j >= len(v[2]):
                return None
            ty, v, off = ty[2], v[2][j], off - j * s
        elif ty[0] == "st":
            for j in range(len(ty[1])):
                o, e = mod.field(ty, j)
                if o <= off < o + mod.size(e):
                    ty, v, off = e, v[2][j], off - o
                    break
            else:
                return None
        else:
            return v if off == 0 else None


# ---- comparison with exp / log ----------------------------------------------
def candidates(n):
    """centres: zeros of the affine parts of the expression"""
    seen, out, st = set(), {}, [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.aff is not None and x.aff[0] != 0:
            c = -x.aff[1] / x.aff[0]
            out[c] = out.get(c, 0) + 1
        st += [k for k in x.a if isinstance(k, Node)]
    return [c for c, _ in sorted(out.items(), key=lambda kv: -kv[1])][:6] or [Fr(0)]


class Target:
    """error of P/Q against the function on a cell"""

    def __init__(self, kind, dag):
        import mpmath
        self.mp = mpmath
        self.iv = mpmath.iv
        self.iv.prec = 160
        self.kind = kind
        self.memo, self.nmemo = {}, {}

    def q(self, x):
        return self.iv.mpf(x.numerator) / self.iv.mpf(x.denominator)

    def prep(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        best = None
        for c in candidates(n):
            P, Q = ratfun(n, c)
            if not Q:
                continue
            m = max(abs(x) for x in Q)
            k = Fr(2) ** (m.denominator.bit_length() - m.numerator.bit_length())
            P, Q = [x * k for x in P], [x * k for x in Q]
            key = (tuple(P), tuple(Q), c if self.kind == "log" else None)
            # scaling by powers of two does not matter for exp
            if key in self.nmemo:
                N = self.nmemo[key]
            else:
                if self.kind == "exp":
                    N = padd(padd(pmul(pder(P), Q), pmul(P, pder(Q)), -1), pmul(P, Q), -1)
                else:
                    N = padd(pmul(padd(pmul(pder(P), Q), pmul(P, pder(Q)), -1), [c, Fr(1)]), pmul(Q, Q), -1)
                self.nmemo[key] = N
            w = sum(1 for x in N if x)
            if best is None or w < best[0]:
                best = (w, c, P, Q, N, [self.q(abs(x)) for x in N])
            if w <= 1:
                break
        if best is None:
            raise Unsupported("expression is not a rational function")
        self.memo[n.id] = best
        return best

    def bound(self, n, lo, hi, e):
        """bound of the approximation error on v in [lo,hi]: relative (exp) or absolute (log)"""
        w, c, P, Q, N, Nf = self.prep(n)
        iv = self.iv
        lo, hi = Fr(lo), Fr(hi)
        mid = (lo + hi) / 2
        # value at the middle
        pq = self.q(peval(P, mid - c)) / self.q(peval(Q, mid - c))
        if self.kind == "exp":
            f = pq * iv.exp(-self.q(mid)) - 1
        else:
            f = pq - iv.log(self.q(mid)) - e * iv.log(2)
        f0 = float(max(abs(f.a), abs(f.b)))
        if lo == hi:
            return f0 * (1 + 1e-12), float(f.mid) if hasattr(f, "mid") else f0
        # derivative over the cell
        t0, t1 = lo - c, hi - c
        T = self.q(max(abs(t0), abs(t1)))
        num, p = iv.mpf(0), iv.mpf(1)
        for x in Nf:
            if x.b != 0:
                num = num + x * p
            p = p * T
        ql = hornerr(Q, t0, t1)
        if ql[0] <= 0 <= ql[1]:
            return INF, f0
        qm = min(abs(ql[0]), abs(ql[1]))
        q2 = dn(qm * qm)
        if q2 <= 0:
            return INF, f0
        if self.kind == "exp":
            der = num / iv.mpf(q2) * iv.exp(-self.q(lo))
        else:
            der = num / iv.mpf(q2) / self.q(lo)
        der = float(der.b) * (1 + 1e-12)
        return up(f0 * (1 + 1e-12) + up(der * rup((hi - lo) / 2))), f0


def hornerr(p, t0, t1):
    a, b = rdn(t0), rup(t1)
    lo = hi = 0.0
    for c in reversed(p):
        x = [lo * a, lo * b, hi * a, hi * b]
        lo, hi = dn(dn(min(x)) + rdn(c)), up(up(max(x)) + rup(c))
    return lo, hi


class Result:
    def __init__(self):
        self.cells = 0
        self.worst = 0.0
        self.at = None
        self.bad = []
        self.unknown = []
        self.paths = set()


def verify(mod, kind, fname, cells, tol, e=None, deadline=None, maxdepth=14, ex=None, tg=None, accept=None):
    """every v in the cells: the result is within tol (exp: relative; log: tol = (rel, abs)), or accepted"""
    ex = ex or Exec(mod, kind)
    tg = tg or Target(kind, ex.d)
    R = Result()
    todo = [(lo, hi, (), 0) for lo, hi in cells]

    def halves(lo, hi, forced, depth, deep=0):
        """smaller cells; single doubles in the end (only doubles are inputs)"""
        if isinstance(lo, str) or lo == hi:
            return False
        m = (lo + hi) / 2
        if not lo < m < hi:
            todo.extend([(lo, lo, (), depth + 1), (hi, hi, (), depth + 1)])
            return True
        if depth >= (deep or maxdepth):
            return False
        todo.extend([(lo, m, forced, depth + 1), (m, hi, forced, depth + 1)])
        return True

    def judge(r, lo, hi):
        """True, False or None (not determined), what"""
        R.cells += 1
        if accept:
            return accept(r), r.sp or "result between %.17g and %.17g" % (r.lo * 2.0 ** max(r.s, -1070), r.hi * 2.0 ** min(r.s, 1000))
        if r.sp:
            return False, "result " + r.sp
        R.paths.add(r.n.id)
        b, f0 = tg.bound(r.n, lo, hi, e)
        if kind == "exp":
            z = min(abs(r.lo), abs(r.hi))
            if r.hi <= 0:
                return False, "result not positive"
            if r.lo > 0 and z > 0:
                # computed = exact(1 + rho), exact = exp(1 + f)
                rho = up(r.err / z) if r.err else 0.0
                tot = up(up(b + rho) + up(b * rho))
                if tot <= tol:
                    R.worst = max(R.worst, tot)
                    return True, ""
            lim = tol
        else:
            l0, l1 = math.log(lo) + e * math.log(2), math.log(hi) + e * math.log(2)
            s = 0.0 if l0 <= 0 <= l1 else min(abs(l0), abs(l1)) * (1 - 1e-12)
            err = up(b + up(r.err * 2.0 ** r.s)) if r.err else b
            allowed = tol[0] * s + tol[1]
            if err <= allowed * (1 - 1e-9):
                R.worst = max(R.worst, err)
                return True, ""
            lim = tol[0] * max(abs(l0), abs(l1)) + tol[1]
        if f0 > lim * 1.01 or (lo == hi and f0 > lim):
            return False, "error %.3g at the middle" % f0
        return None, "error bound not small enough"

    if not accept:
        # single doubles first: a quick way to an input when the bound does not hold
        for lo, hi in cells:
            for k in range(9):
                m = lo + (hi - lo) * (k + 0.5 * (k % 2)) / 8.5
                try:
                    ok, what = judge(ex.run(fname, m, m, (), e), m, m)
                except (Split, Unsupported):
                    break
                if ok is False:
                    R.bad.append((m, what))
                    return R
    while todo:
        if deadline and time.time() > deadline:
            R.unknown.append(("time", None))
            break
        lo, hi, forced, depth = todo.pop()
        if len(R.bad) + len(R.unknown) > 3:
            break
        try:
            r = ex.run(fname, lo, hi, forced, e)
            ok, what = judge(r, lo, hi)
        except Split as s:
            if depth > 3000:
                R.unknown.append(("too many cases", (lo, hi)))
                continue
            todo += [(c[0], c[1], c[2], depth + 1) for c in s.cases]
            continue
        except Unsupported as u:
            if not ("possible" in str(u) and halves(lo, hi, forced, depth, 2000 if "overflow" in str(u) else 40)):
                R.unknown.append((str(u), (lo, hi)))
            continue
        if ok:
            continue
        if forced and lo == hi and not isinstance(lo, str):
            # decisions taken for a larger cell need not be those of this double
            try:
                ok, what = judge(ex.run(fname, lo, hi, (), e), lo, hi)
                if ok:
                    continue
            except (Split, Unsupported):
                pass
        if ok is False or depth >= 5:
            # a failure counts when one double of the cell shows it
            if isinstance(lo, str) or lo == hi:
                R.bad.append((lo, what))
                continue
            try:
                m = (lo + hi) / 2
                ok, what = judge(ex.run(fname, m, m, (), e), m, m)
                if ok is False:
                    R.bad.append((m, what))
                    continue
            except (Split, Unsupported):
                pass
        if not halves(lo, hi, forced, depth):
            R.unknown.append((what, (lo, hi)))
    return R


# ---- contracts of xexp and xlog ----------------------------------------------
EXP_TOL = 2e-13
LOG_TOL = (1e-14, 1e-15)
DMIN, DMAX = 2.0 ** -1022, float.fromhex("0x1.fffffffffffffp1023")


def grid(lo, hi, n):
    xs = [lo + (hi - lo) * i / n for i in range(n)] + [hi]
    return list(zip(xs[:-1], xs[1:]))


def exp_domain():
    """(smallest double with a normal exponential, largest with exp <= DBL_MAX(1-tol), largest with exp <= DBL_MAX)"""
    import mpmath
    mpmath.mp.prec = 200
    a = float(mpmath.log(mpmath.mpf(2) ** -1022))
    while mpmath.exp(a) < mpmath.mpf(2) ** -1022:
        a = up(a)
    big = mpmath.mpf(2) ** 1024 - mpmath.mpf(2) ** 970
    out = [a]
    for f in (1 - mpmath.mpf(EXP_TOL), 1):
        b = float(mpmath.log(big * f))
        while mpmath.exp(b) > big * f:
            b = dn(b)
        while mpmath.exp(up(b)) <= big * f:
            b = up(b)
        out.append(b)
    return out


def is_sp(t):
    return lambda r: r.sp == t


def tiny(r):
    """between 0 and the smallest normal number"""
    if r.sp:
        return False
    lo, hi = (Fr(r.lo) - Fr(r.err)) * Fr(2) ** r.s, (Fr(r.hi) + Fr(r.err)) * Fr(2) ** r.s
    lim = Fr(DMIN) * (1 + Fr(EXP_TOL))
    if lo >= -Fr(2) ** -1080 and hi <= lim:
        return True
    if lo > lim or hi < 0:
        return False
    return None


def close_or_inf(x):
    """a result whose true value is within the tolerance of the overflow threshold"""
    def f(r):
        if r.sp:
            return r.sp == "inf"
        import mpmath
        t = mpmath.exp(mpmath.mpf(x))
        v = mpmath.mpf(2) ** r.s
        return bool(abs((mpmath.mpf(r.lo) - r.err) * v / t - 1) <= EXP_TOL and abs((mpmath.mpf(r.hi) + r.err) * v / t - 1) <= EXP_TOL) or None
    return f


class FPFun:
    """what rspec.guarded expects"""

    def __init__(self):
        class V: pass
        self.v = V()
        self.v.loops, self.v.inlined, self.v.used, self.v.inv_count = [], set(), {"frexp", "ldexp"}, 0
        self.v.stats = V()
        self.v.stats.q, self.v.stats.t = 0, 0.0
        self.outs = []
        self.obs = []

    def add(self, name, what, fn, R, t):
        st = "failed" if R.bad else "unknown" if R.unknown else "proved"
        det, ins = "", {}
        if R.bad:
            x, d = R.bad[0]
            if isinstance(x, str):
                x = float(x)
            import struct
            ins = {"in_x": {"bits": "0x%016x" % struct.unpack("<Q", struct.pack("<d", x))[0], "value": repr(x)}}
            det = "%s at %r" % (d, x)
        elif R.unknown:
            det = "; ".join("%s %s" % u for u in R.unknown[:3])
        o = Obligation(name, st, "fperr", what + " (%d cells, %d cases of the code, worst bound %.3g)" % (R.cells, len(R.paths), R.worst),
                       "src/xmath.c", fn, time.time() - t, det, ins)
        self.obs.append(o)
        self.v.stats.q += R.cells
        self.v.stats.t += time.time() - t


def _mod():
    from . import rspec
    return rspec.module()


def _dl():
    import os
    return time.time() + float(os.environ.get("VP_RVC_DEADLINE", "400"))


def v_exp(part):
    """xexp: accuracy on the normal range, limits elsewhere.  part i/n of the range"""
    mod, F = _mod(), FPFun()
    if "@xexp" not in mod.funcs:
        raise Unsupported("xexp not found")
    i, n = map(int, part.split("/"))
    a, b, c = exp_domain()
    xs = [a + (b - a) * k / n for k in range(n)] + [b]
    t = time.time()
    cells = grid(xs[i], xs[i + 1], 8) if not xs[i] < 0 < xs[i + 1] else [(xs[i], 0.0), (0.0, xs[i + 1])]
    R = verify(mod, "exp", "@xexp", cells, EXP_TOL, deadline=_dl())
    F.add("xexp.accuracy.%d" % i, "exp(x) within %g relative for every x in [%.17g, %.17g]" % (EXP_TOL, xs[i], xs[i + 1]), "xexp", R, t)
    if i == 0:
        for lo, hi, acc, what in [("nan", "nan", is_sp("nan"), "exp(NaN) is NaN"), ("inf", "inf", is_sp("inf"), "exp(+inf) is +inf"),
                                  ("-inf", "-inf", tiny, "exp(-inf) is 0"),
                                  (-DMAX, dn(a), tiny, "exp(x) underflows below %.17g" % a),
                                  (up(c), DMAX, is_sp("inf"), "exp(x) overflows above %.17g" % c)]:
            t = time.time()
            R = verify(mod, "exp", "@xexp", [(lo, hi)], EXP_TOL, deadline=_dl(), accept=acc, maxdepth=2000)
            F.add("xexp.limits." + what.split()[0] + "." + (lo if isinstance(lo, str) else "low" if lo < 0 else "high"), what, "xexp", R, t)
        x = up(b)
        while x <= c:
            t = time.time()
            R = verify(mod, "exp", "@xexp", [(x, x)], EXP_TOL, deadline=_dl(), accept=close_or_inf(x))
            F.add("xexp.threshold.%r" % x, "exp(%r), at the overflow threshold: accurate or +inf" % x, "xexp", R, t)
            x = up(x)
    return F


def v_log(part):
    """xlog: accuracy for every positive double, by binary exponent; special values"""
    mod, F = _mod(), FPFun()
    if "@xlog" not in mod.funcs:
        raise Unsupported("xlog not found")
    i, n = map(int, part.split("/"))
    dl = _dl()
    ex = Exec(mod, "log")
    tg = Target("log", ex.d)
    t = time.time()
    T = Result()
    for e in range(-1073, 1025):
        if e % n != i:
            continue
        R = verify(mod, "log", "@xlog", [(0.5, 1.0)], LOG_TOL, e=e, deadline=dl, ex=ex, tg=tg)
        T.cells += R.cells
        T.worst = max(T.worst, R.worst)
        T.paths |= {(e, p) for p in R.paths}
        T.bad += [(math.ldexp(x, e) if e < 1024 or x < 1 else DMAX, d) for x, d in R.bad]
        T.unknown += [("exponent %d: %s" % (e, u), v) for u, v in R.unknown]
        if len(T.bad) + len(T.unknown) > 3:
            break
    F.add("xlog.accuracy.%d" % i, "log(x) within %g relative + %g for every positive x whose binary exponent is %d modulo %d" % (LOG_TOL + (i, n)), "xlog", T, t)
    if i == 0:
        for lo, hi, acc, what in [("nan", "nan", is_sp("nan"), "log(NaN) is NaN"), ("inf", "inf", is_sp("inf"), "log(+inf) is +inf"),
                                  ("-inf", "-inf", is_sp("nan"), "log(-inf) is NaN"), (0.0, 0.0, is_sp("-inf"), "log(0) is -inf"),
                                  (-DMAX, -ETA, is_sp("nan"), "log of a negative number is NaN")]:
            t = time.time()
            R = verify(mod, "log", "@xlog", [(lo, hi)], LOG_TOL, e=0, deadline=dl, accept=acc)
            F.add("xlog.special.%s" % (lo if isinstance(lo, str) else "zero" if lo == 0 else "negative"), what, "xlog", R, t)
    return F
