"""Canonical terms of rvc: polynomials over interned atoms.

An atom is a variable or an application of a function symbol to canonical
terms, so that equal formulas written differently in C meet as the same term.
Division a/b is a * INV(b).
"""
from fractions import Fraction
import z3

ATOMS = []      # id -> Atom
_key = {}


class Atom:
    __slots__ = ("id", "key", "z", "int", "fn", "args")


def atom(key, z, is_int, fn=None, args=()):
    a = _key.get(key)
    if a is None:
        a = Atom()
        a.id, a.key, a.z, a.int, a.fn, a.args = len(ATOMS), key, z, is_int, fn, args
        ATOMS.append(a)
        _key[key] = a
    return a


class Poly:
    __slots__ = ("m", "_h", "_zr", "_zi")

    def __init__(self, m):
        self.m = m
        self._h = self._zr = self._zi = None

    # -- construction
    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def of(a):
        return Poly({((a.id, 1),): Fraction(1)})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.m.items()))
        return self._h

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), Fraction(0))

    def __add__(self, o):
        o = P(o)
        m = dict(self.m)
        for k, v in o.m.items():
            n = m.get(k, 0) + v
            if n:
                m[k] = n
            else:
                m.pop(k, None)
        return Poly(m)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        m = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = mmul(k1, k2)
                n = m.get(k, 0) + v1 * v2
                if n:
                    m[k] = n
                else:
                    m.pop(k, None)
        return Poly(m)

    __rmul__ = __mul__

    def same(self, o):
        return self.m == P(o).m

    def atoms(self):
        return {i for k in self.m for i, _ in k}

    def single_atom(self):
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1:
                return ATOMS[k[0][0]]
        return None

    def degree(self):
        return max((sum(e for _, e in k) for k in self.m), default=0)

    def linear(self):
        return all(sum(e for _, e in k) <= 1 for k in self.m)

    # -- z3
    def zr(self):
        if self._zr is None:
            t = [zmono(k, v, True) for k, v in sorted(self.m.items())]
            self._zr = t[0] if len(t) == 1 else (z3.Sum(t) if t else z3.RealVal(0))
        return self._zr

    def zi(self):
        if self._zi is None:
            t = [zmono(k, v, False) for k, v in sorted(self.m.items())]
            self._zi = t[0] if len(t) == 1 else (z3.Sum(t) if t else z3.IntVal(0))
        return self._zi

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, v in sorted(self.m.items()):
            s = "*".join(str(ATOMS[i].z) + ("^%d" % e if e > 1 else "") for i, e in k)
            out.append(("%s*%s" % (v, s) if v != 1 else s) if s else str(v))
        return " + ".join(out)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def zmono(k, v, real):
    f = []
    for i, e in k:
        a = ATOMS[i]
        x = z3.ToReal(a.z) if (a.int and real) else a.z
        f += [x] * e
    if real:
        c = z3.RealVal(str(v))
    else:
        if v.denominator != 1:
            raise ValueError("fractional integer term")
        c = z3.IntVal(int(v))
    if not f:
        return c
    p = f[0]
    for x in f[1:]:
        p = p * x
    return p if v == 1 else c * p


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly.of(x)
    return Poly.const(x)


_n = [0]


def fresh_int(name):
    _n[0] += 1
    n = "%s!%d" % (name, _n[0])
    return Poly.of(atom(("v", n), z3.Int(n), True))


def fresh_real(name):
    _n[0] += 1
    n = "%s!%d" % (name, _n[0])
    return Poly.of(atom(("v", n), z3.Real(n), False))


def fresh_bool(name):
    _n[0] += 1
    return z3.Bool("%s!%d" % (name, _n[0]))


def int_var(n):
    return Poly.of(atom(("v", n), z3.Int(n), True))


def real_var(n):
    return Poly.of(atom(("v", n), z3.Real(n), False))


def of_z3(e, is_int):
    return Poly.of(atom(("z", is_int, e.sexpr()), e, is_int))


_uf = {}


def uf(name, sorts, res):
    k = (name, sorts, res)
    if k not in _uf:
        S = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}
        _uf[k] = z3.Function(name, *[S[s] for s in sorts], S[res])
    return _uf[k]


def app(name, args, sorts, res="r"):
    """f(args) with polynomial arguments, as a Poly (or z3 Bool if res=='b')"""
    f = uf(name, sorts, res)
    z = f(*[a.zi() if s == "i" else a.zr() for a, s in zip(args, sorts)])
    if res == "b":
        return z
    return Poly.of(atom(("u", name) + tuple(a.key() for a in args), z, res == "i", name, tuple(args)))


def inv(b):
    """1/b"""
    b = P(b)
    if b.is_const():
        c = b.cval()
        if c:
            return P(1 / c)
        return app("INV", [b], "r")
    if len(b.m) == 1:
        (k, v), = b.m.items()
        r = P(1 / v)
        for i, e in k:
            a = ATOMS[i]
            x = a.args[0] if a.fn == "INV" else app("INV", [Poly.of(a)], "r")
            for _ in range(e):
                r = r * x
        return r
    # content: make the leading coefficient 1
    lead = b.key()[-1][1]
    if lead != 1:
        return P(1 / lead) * app("INV", [b * P(1 / lead)], "r")
    return app("INV", [b], "r")
