"""rvc: deductive verifier for the C code of /repo, over its LLVM IR.

Function-by-function verification-condition generation: a function is executed
symbolically from a precondition over unbounded state, callees with a contract
are replaced by it, other callees are inlined, every loop is either unrolled
completely (when its trip count is bounded by the code) or cut at its header by
an inductive invariant (inferred from templates by the Houdini algorithm, every
kept candidate being proved to hold on entry and to be preserved).  Obligations
are discharged by z3 (cvc5 as second opinion), without any bound on sizes.

Doubles are (nan?, real) pairs: arithmetic is mathematical, rounding and
infinities are not modelled (mode 'havoc': every arithmetic result is an
arbitrary number, which over-approximates the machine).
"""
import time, os, re
from fractions import Fraction
import z3
from .common import *
from .ir import Unsupported, Module
from .poly import *

M64 = 1 << 64


class Budget(Exception):
    pass


class I:      # integer or boolean of w bits; canonical unsigned value
    __slots__ = ("w", "p", "b")

    def __init__(self, w, p, b=None):
        self.w, self.p, self.b = w, p, b

    def poly(self):
        if self.p is None:
            self.p = of_z3(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)), True)
        return self.p

    def __repr__(self):
        return "i%d(%s)" % (self.w, self.p if self.p is not None else self.b)


class F:      # double
    __slots__ = ("nan", "p")

    def __init__(self, nan, p):
        self.nan, self.p = nan, p

    def __repr__(self):
        return "f(%s|nan=%s)" % (self.p, self.nan)


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o):
        self.r, self.o = r, P(o)

    def __repr__(self):
        return "&%s+%s" % (self.r, self.o)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn(%s)" % self.name


NULL = Ptr(None, 0)
ONE = Fraction(1)


def ival(w, n):
    return I(w, P(n % (1 << w)))


def fval(x):
    return F(False, P(x))


NANV = F(True, P(0))


def bnot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def band(*xs):
    l = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            l.append(x)
    return True if not l else (l[0] if len(l) == 1 else z3.And(l))


def bor(*xs):
    l = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            l.append(x)
    return False if not l else (l[0] if len(l) == 1 else z3.Or(l))


def imp(a, b):
    return bor(bnot(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def cmp(op, a, b, real):
    """comparison of two Polys as bool / z3 Bool"""
    d = P(a) - P(b)
    if d.is_const():
        c = d.cval()
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    # positive part on the left, negative on the right (readable and canonical)
    l = Poly({k: v for k, v in d.m.items() if v > 0})
    r = Poly({k: -v for k, v in d.m.items() if v < 0})
    x, y = (l.zr(), r.zr()) if real else (l.zi(), r.zi())
    return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


def ieq(a, b):
    return cmp("==", a, b, False)


def ile(a, b):
    return cmp("<=", a, b, False)


def ilt(a, b):
    return cmp("<", a, b, False)


def req(a, b):
    return cmp("==", a, b, True)


def rle(a, b):
    return cmp("<=", a, b, True)


def rlt(a, b):
    return cmp("<", a, b, True)


def rne(a, b):
    return bnot(req(a, b))


def feq(x, y):
    """x and y are the same double (NaN equals NaN)"""
    if x is y:
        return True
    nx, ny = x.nan, y.nan
    if isinstance(nx, bool) and isinstance(ny, bool):
        if nx or ny:
            return nx and ny
        return req(x.p, y.p)
    return band(zb(nx) == zb(ny), bor(nx, req(x.p, y.p)))


class Cells:
    """a region addressed by constant offsets"""
    kind = "cells"

    def __init__(self, size, cells=None, ro=False, leaves=None):
        self.size, self.c, self.ro, self.leaves = size, cells or {}, ro, leaves

    def copy(self):
        return Cells(self.size, dict(self.c), self.ro, self.leaves)


class Arr:
    """a region of n elements of es bytes; content = base array plus stores"""
    kind = "arr"

    def __init__(self, name, es, n, ety, ro=False, base=None, stores=(), nonan=True, table=None):
        self.table = table
        self.name, self.es, self.n, self.ety, self.ro = name, es, P(n), ety, ro
        self.base, self.stores, self.nonan = base or name, tuple(stores), nonan

    def copy(self):
        return Arr(self.name, self.es, self.n, self.ety, self.ro, self.base, self.stores, self.nonan, self.table)

    def base_read(self, idx):
        if self.table is not None and P(idx).is_const() and 0 <= P(idx).cval() < len(self.table):
            return ival(8, self.table[int(P(idx).cval())])
        if self.ety[0] == "double":
            nan = False if self.nonan else app("nan_" + self.base, [idx], "i", "b")
            return F(nan, app(self.base, [idx], "i", "r"))
        return I(self.ety[1], app(self.base, [idx], "i", "i"))

    def at(self, idx):
        """content at index idx, as a value (ite over the stores)"""
        v = self.base_read(idx)
        for j, x in self.stores:
            e = ieq(idx, j)
            if e is True:
                v = x
            elif e is False:
                continue
            else:
                v = ite(e, x, v)
        return v


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, F):
        n = a.nan if a.nan is b.nan or (isinstance(a.nan, bool) and a.nan == b.nan) else z3.If(c, zb(a.nan), zb(b.nan))
        p = a.p if a.p.same(b.p) else of_z3(z3.If(c, a.p.zr(), b.p.zr()), False)
        return F(n, p)
    if isinstance(a, I):
        if a.w == 1 and a.b is not None and b.b is not None:
            return I(1, None, z3.If(c, zb(a.b), zb(b.b)))
        pa, pb = a.poly(), b.poly()
        if pa.same(pb):
            return a
        return I(a.w, of_z3(z3.If(c, pa.zi(), pb.zi()), True))
    raise Unsupported("ite")


class State:
    __slots__ = ("regs", "pc", "ghost", "trace", "pool", "nalloc", "defs", "pins")

    def __init__(self):
        self.regs, self.pc, self.ghost, self.trace, self.pool, self.nalloc = {}, [], {}, [], [], 0
        self.pins = {}      # integer atoms known to be constants
        self.defs = {}      # name of a nonlinear term -> its definition (opaque mode)

    def copy(self):
        s = State()
        s.regs, s.pc, s.ghost = dict(self.regs), list(self.pc), dict(self.ghost)
        s.trace, s.pool, s.nalloc, s.defs = list(self.trace), list(self.pool), self.nalloc, dict(self.defs)
        s.pins = dict(self.pins)
        return s

    def add(self, c):
        if c is not True:
            self.pc.append(zb(c))

    def wr(self, rid):
        """region for writing"""
        r = self.regs[rid].copy()
        self.regs[rid] = r
        return r

    def cell(self, rid, off):
        return self.regs[rid].c[off][1]

    def setcell(self, rid, off, ty, v):
        self.wr(rid).c[off] = (ty, v)


class Stats:
    def __init__(self):
        self.q = self.t = 0
        self.by = {}


class Verifier:
    def __init__(self, mod, mode="real", unroll=24, contracts=None, axioms=None, templates=None, tmo=10.0, bounds=True):
        self.mod, self.mode, self.unroll = mod, mode, unroll
        self.approx = set()     # operations replaced by a bounded unknown
        self.contracts = contracts or {}
        self.axioms = axioms or []          # functions: set of relevant atoms -> list of z3 Bool
        self.templates = templates or []    # functions: (verifier, loop context) -> list of Cand
        self.tmo, self.bounds = tmo, bounds
        self.obs = []                       # recorded obligations
        self.stats = Stats()
        self.cutmemo = {}
        self.memo = {}      # candidates that survived at earlier arrivals (tried first)
        self.depth = 0
        self.inlined, self.used, self.loops = set(), set(), []
        self.deadline = None
        self.feas_cache = {}
        self.opaque = False     # nonlinear terms are named, their definitions used on demand
        self.merge = False      # selects become if-then-else terms instead of two paths
        self.cheap = [t for t in self.templates if getattr(t, "cheap", False)]
        self.static = 0         # accesses at constant offsets, inside their object by evaluation
        self.scanning = 0       # discovering what a loop modifies: nothing is proved
        self.statics = []
        self.live = {}
        self.det = False        # refuse to read what was not written before in the same call
        self.fanout = None      # loops whose body forks more than this are cut, not unrolled

    # ------------------------------------------------------------------ logic
    def closure(self, fs):
        """axiom instances for the function applications that occur in the formulas"""
        out, seen_ax, seen, apps = [], set(), set(), {}
        todo = list(fs)
        for rnd in range(3):
            st = todo
            while st:
                e = st.pop()
                i = e.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_app(e):
                    if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        apps[i] = e
                    st += e.children()
            todo = []
            for ax in [inv_axioms] + self.axioms:
                for a in ax(list(apps.values())):
                    if isinstance(a, bool) or a.get_id() in seen_ax:
                        continue
                    seen_ax.add(a.get_id())
                    self.keep.append(a)
                    out.append(a)
                    todo.append(a)
            if not todo:
                break
        return out

    keep = []

    def check(self, fs, tmo, axioms=True):
        """sat / unsat / unknown of a conjunction"""
        t = time.time()
        s = z3.Solver()
        s.set("timeout", int(tmo * 1000))
        fs = [zb(f) for f in fs]
        s.add(*fs)
        r = None
        if axioms:
            # first without, then with the axioms
            s.set("timeout", int(min(tmo, 3.0) * 1000))
            r = s.check()
            if r != z3.unsat:
                ax = self.closure(fs)
                if ax:
                    s = z3.Solver()
                    s.set("timeout", int(tmo * 1000))
                    s.add(*fs)
                    s.add(*ax)
                    r = s.check()
                elif r == z3.unknown and tmo > 3:
                    s.set("timeout", int(tmo * 1000))
                    r = s.check()
        else:
            r = s.check()
        self.stats.q += 1
        self.stats.t += time.time() - t
        self.last = s
        return str(r)

    def feasible(self, st, c, tmo=0.6):
        if isinstance(c, bool):
            return c
        if self.opaque:
            if not zlin(c):
                return True
            r = self.check([f for f in st.pc if zlin(f)] + [c], tmo, axioms=False)
            return r != "unsat"
        r = self.check(st.pc + [c], tmo, axioms=False)
        return r != "unsat"

    def valid(self, st, c, tmo=None):
        """True / False (with self.last a model) / None"""
        if isinstance(c, bool):
            return c
        tmo = tmo or self.tmo
        if self.opaque:
            return self.valid_opaque(st, c, tmo)
        r = self.check(st.pc + [z3.Not(c)], tmo)
        if r == "unsat":
            return True
        if r == "sat":
            return False
        r2 = self.second(st, c, tmo)
        if r2 == "unsat":
            return True
        return None

    def valid_opaque(self, st, c, tmo, full_tmo=None):
        """valid(), with the definitions of named terms brought in on demand"""
        neg = z3.Not(c)
        r = self.check(st.pc + [neg], min(tmo, 2.0))
        if r == "unsat":
            return True
        if not st.defs and r == "sat":
            return False
        need = self.needed(st, [c], 1)
        for depth in (0, 1, 2):
            r = self.nlsat(self.slice(st.pc, [neg] + need, depth) + need + [neg], min(tmo, 2.0))
            if r == "unsat":
                return True
        full = [d for n, d in st.defs.items()]
        r = self.check(st.pc + full + [neg], full_tmo or tmo)
        if r == "unsat":
            return True
        return False if r == "sat" else None

    def needed(self, st, fs, depth):
        out, seen, todo = [], set(), list(fs)
        for _ in range(depth):
            vs = set()
            for f in todo:
                vs |= zvars(f)
            todo = []
            for n in vs:
                if n in st.defs and n not in seen:
                    seen.add(n)
                    out.append(st.defs[n])
                    todo.append(st.defs[n])
        return out

    def slice(self, pc, seed, depth):
        """the path conditions about the variables of the seed (closed under depth steps)"""
        vs = set()
        for f in seed:
            vs |= zvars(f)
        for _ in range(depth):
            more = set()
            for f in pc:
                w = zvars(f)
                if w & vs:
                    more |= w
            vs |= more
        return [f for f in pc if zvars(f) <= vs]

    def nlsat(self, fs, tmo):
        """unsat/unknown of the formulas with every function application generalised to a variable"""
        t = time.time()
        ax = self.closure(fs)
        g = z3.Goal()
        memo = {}
        for f in fs + ax:
            g.add(purify(zb(f), memo))
        s = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "simplify", "purify-arith", "qfnra-nlsat"), int(tmo * 1000)).solver()
        s.add(*[g[i] for i in range(len(g))])
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.q += 1
        self.stats.t += time.time() - t
        return "unsat" if r == z3.unsat else "unknown"

    def second(self, st, c, tmo):
        """second opinion by cvc5 on the same formulas"""
        s = z3.Solver()
        fs = st.pc + [z3.Not(c)]
        s.add(*fs)
        s.add(*self.closure(fs))
        f = os.path.join(scratch(), "q%d_%d.smt2" % (os.getpid(), self.stats.q))
        with open(f, "w") as h:
            h.write("(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", ""))
        r = sh(["cvc5", "--nl-ext-tplanes", "--tlimit=%d" % int(tmo * 1000), f], tmo + 5)
        os.unlink(f)
        o = r.out.strip().splitlines()
        self.stats.by["cvc5"] = self.stats.by.get("cvc5", 0) + (1 if o and o[0] == "unsat" else 0)
        return o[0] if o else "unknown"

    def oblige(self, st, name, c, func="", line=0, text=""):
        """record and decide an obligation on a path"""
        if self.scanning:
            st.add(c)
            return "proved"
        t = time.time()
        v = self.valid(st, c)
        stt = "proved" if v is True else ("failed" if v is False else "unknown")
        d = ""
        if stt == "failed":
            try:
                m = self.last.model()
                d = "model: " + ", ".join("%s=%s" % (x, m[x]) for x in list(m.decls())[:40] if x.arity() == 0)
            except Exception as e:
                d = "no model text (%s)" % e
            d += " ; goal: " + str(c)[:600]
            if self.approx:         # the model may be an artefact of an operation that is only bounded
                stt = "unknown"
                d = "operation only over-approximated (%s): " % ", ".join(sorted(self.approx)) + d
        elif stt == "unknown":
            d = "undecided goal: " + str(c)[:600]
        o = Obligation(name, stt, "rvc/z3", text or name, "%s:%s" % (func, line), func, time.time() - t, d)
        self.obs.append(o)
        if stt == "proved":
            st.add(c)
        elif name.startswith("bounds") or name.startswith("pre"):
            st.add(c)
        return stt

    # -------------------------------------------------------------- evaluation
    def val(self, st, env, v, ty):
        k = v[0]
        if k == "v":
            x = env[v[1]]
            if st.pins:
                if isinstance(x, I) and x.p is not None and not x.p.is_const():
                    p = pinned(x.p, st.pins)
                    return x if p is x.p else I(x.w, p, x.b)
                if isinstance(x, Ptr) and not x.o.is_const():
                    p = pinned(x.o, st.pins)
                    return x if p is x.o else Ptr(x.r, p)
            return x
        if k == "c":
            if ty[0] == "i":
                if ty[1] == 1:
                    return I(1, None, bool(v[2]))
                return ival(ty[1], v[2])
            if ty[0] == "double":
                if v[2] == "nan":
                    return NANV
                if v[2] in ("inf", "-inf"):
                    return F(False, real_var("INFINITY") * (1 if v[2] == "inf" else -1))
                return fval(v[2])
        if k == "null":
            return NULL
        if k == "g":
            if v[1] in self.mod.funcs or v[1] in self.mod.decls:
                return Fn(v[1])
            self.ensure_global(st, v[1])
            self.note_text(st, v[1])
            return Ptr(v[1], 0)
        if k in ("undef", "zero") and ty[0] in ("st", "named"):
            t = self.mod.types[ty[1]] if ty[0] == "named" else ty
            return tuple(None if k == "undef" else self.val(st, env, ("zero", x), x) for x in t[1])
        if k in ("undef",):
            if self.det:
                raise Unsupported("undefined value")
            return self.fresh(ty, "undef", st)
        if k == "zero":
            if ty[0] == "i":
                return ival(ty[1], 0)
            if ty[0] == "double":
                return fval(0)
            return NULL
        if k == "gep":
            return self.gep(st, env, v[1], v[2])
        raise Unsupported("operand " + str(v))

    def fresh(self, ty, name, st):
        if ty[0] == "i":
            if ty[1] == 1:
                return I(1, None, fresh_bool(name))
            p = fresh_int(name)
            st.add(ile(0, p))
            st.add(ilt(p, 1 << ty[1]))
            return I(ty[1], p)
        if ty[0] == "double":
            return F(fresh_bool("nan_" + name), fresh_real(name))
        raise Unsupported("fresh " + str(ty))

    def ensure_global(self, st, g):
        if g in st.regs:
            return
        d = self.mod.globals[g]
        h = getattr(self, "glob_hook", None)
        if d["init"] is None:
            if h and h(self, st, g):
                return
            raise Unsupported("external global " + g)
        if not self.mod.const[g]:
            if h and h(self, st, g):
                return
            raise Unsupported("mutable global " + g)
        ty = d["ty"]
        if ty[0] == "arr" and ty[2] == ("i", 8):
            # a text: an array with a table of its bytes
            if d["init"][0] == "zero":
                t = [0] * ty[1]
            else:
                t = [int(x[2]) % 256 for x in d["init"][2]]
            st.regs[g] = Arr(g, 1, ty[1], ty[2], ro=True, table=t)
            return
        cells = {}
        self.init_cells(cells, d["ty"], d["init"], 0, st)
        st.regs[g] = Cells(self.mod.size(d["ty"]), cells, ro=True, leaves=dict(self.mod.leaves(d["ty"])))

    def shared(self, st):
        """the mutable variables of static duration: arbitrary content (any earlier history)"""
        self.statics = []
        for g, d in self.mod.globals.items():
            if self.mod.const[g] or d["init"] is None or g in st.regs or getattr(self, "glob_hook", None):
                continue
            ty = d["ty"]
            try:
                lv = dict(self.mod.leaves(ty))
            except Exception:
                continue
            if any(t[0] not in ("i", "double") for t in lv.values()):
                continue
            if ty[0] == "arr" and ty[2][0] in ("i", "double") and len(lv) > 8 and not self.det:
                st.regs[g] = Arr(g, self.mod.size(ty[2]), ty[1], ty[2], base="G!%s" % g[1:], nonan=False)
            elif len(lv) <= 64 or self.det:
                st.regs[g] = Cells(self.mod.size(ty), {}, leaves=lv)
            else:
                continue
            self.statics.append(g)
        self.havoc_shared(st)

    def havoc_shared(self, st):
        for g in self.statics:
            r = st.wr(g)
            if self.det:
                r.c.clear()
                continue
            if r.kind == "arr":
                r.base, r.stores = fresh_int("G!" + g[1:]).zi().decl().name(), ()
            else:
                for o, t in r.leaves.items():
                    r.c[o] = (t, self.fresh(t, "static_" + g[1:], st))

    def init_cells(self, cells, ty, v, base, st):
        if ty[0] == "named":
            ty = self.mod.types[ty[1]]
        if v[0] == "zero" and ty[0] in ("arr", "st"):
            for o, t in self.mod.leaves(ty, base):
                cells[o] = (t, self.val(st, {}, ("zero", t), t))
            return
        if ty[0] == "arr":
            s = self.mod.size(ty[2])
            for j, e in enumerate(v[2]):
                self.init_cells(cells, ty[2], e, base + j * s, st)
            return
        if ty[0] == "st":
            for j, e in enumerate(v[2]):
                o, t = self.mod.field(ty, j)
                self.init_cells(cells, t, e, base + o, st)
            return
        if v[0] == "undef":
            return
        # address of another global: do not create it now
        if v[0] == "g" and not (v[1] in self.mod.funcs or v[1] in self.mod.decls):
            cells[base] = (ty, Ptr(v[1], 0))
            return
        cells[base] = (ty, self.val(st, {}, v, ty))

    def gep(self, st, env, sty, ops, strict=False, line=0):
        p = self.val(st, env, ops[0][1], ("ptr",))
        if isinstance(p, Fn):
            raise Unsupported("gep on function")
        off = p.o
        ty = sty
        for n, (it, iv) in enumerate(ops[1:]):
            ix = self.val(st, env, iv, it)
            ip = self.signed(st, ix)
            if n == 0:
                off = off + ip * self.mod.size(ty)
                continue
            if ty[0] == "named":
                ty = self.mod.types[ty[1]]
            if ty[0] == "st":
                o, ty = self.mod.field(ty, int(ip.cval()))
                off = off + o
            elif ty[0] == "arr":
                if strict and n == len(ops) - 2 and self.bounds:
                    self.oblige(st, "bounds: index inside the array of %d elements" % ty[1], band(ile(0, ip), ilt(ip, ty[1])), self.fn, line)
                ty = ty[2]
                off = off + ip * self.mod.size(ty)
            else:
                raise Unsupported("gep")
        return Ptr(p.r, off)

    def signed(self, st, x):
        """signed value of a canonical unsigned integer"""
        p = x.poly()
        if p.is_const():
            n = int(p.cval())
            return P(n - (1 << x.w) if n >= 1 << (x.w - 1) else n)
        big = ile(1 << (x.w - 1), p)
        if not self.feasible(st, big):
            return p
        if not self.feasible(st, bnot(big)):
            return p - (1 << x.w)
        return of_z3(z3.If(zb(big), (p - (1 << x.w)).zi(), p.zi()), True)

    def wrap(self, st, w, p, lo=None):
        """p modulo 2^w for p in (-2^w, 2^(w+1))"""
        if p.is_const():
            return P(int(p.cval()) % (1 << w))
        over, under = ile(1 << w, p), ilt(p, 0)
        o, u = self.feasible(st, over), self.feasible(st, under)
        if not o and not u:
            return p
        if not self.feasible(st, bnot(over)):
            return p - (1 << w)
        if not self.feasible(st, bnot(under)):
            return p + (1 << w)
        e = p.zi()
        if o:
            e = z3.If(over, (p - (1 << w)).zi(), e)
        if u:
            e = z3.If(under, (p + (1 << w)).zi(), e)
        return of_z3(e, True)

    def arith(self, st, op, a, b):
        nan = bor(a.nan, b.nan)
        if self.mode == "havoc":
            return F(fresh_bool("nan_" + op), fresh_real(op))
        if op == "fadd":
            return F(nan, a.p + b.p)
        if op == "fsub":
            return F(nan, a.p - b.p)
        if op == "fmul":
            return F(nan, self.name(st, a.p * b.p))
        if op == "fdiv":
            if a.p.is_const() and b.p.is_const() and not b.p.m and not a.p.m:
                return NANV
            return F(nan, self.name(st, a.p * inv(b.p), a.p, None if b.p.is_const() else b.p))
        raise Unsupported(op)

    def name(self, st, p, num=None, den=None):
        """large nonlinear terms are named, with their definition in the path condition"""
        if self.opaque:
            if p.linear() or (len(p.m) <= 6 and p.degree() <= 2 and den is None):
                return p
            v = fresh_real("t")
            d = v.zr() == p.zr()
            if den is not None:
                d = z3.And(d, z3.Implies(den.zr() != 0, v.zr() * den.zr() == num.zr()))
            st.defs[str(v.single_atom().z)] = d
            return v
        if len(p.m) <= 5 or p.linear():
            return p
        k = ("def", p.key())
        v = fresh_real("t")
        st.add(v.zr() == p.zr())
        return v

    def fcmp(self, pr, a, b):
        if pr in ("true", "false"):
            return pr == "true"
        nan = bor(a.nan, b.nan)
        if pr == "ord":
            return bnot(nan)
        if pr == "uno":
            return nan
        op = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pr[1:]]
        if a is b:
            c = op in ("==", "<=", ">=")
        else:
            c = cmp(op, a.p, b.p, True)
        return band(bnot(nan), c) if pr[0] == "o" else bor(nan, c)

    def binop(self, st, ins, a, b):
        op, w = ins.op, ins.ty[1]
        if w == 1:
            x = a.b if a.b is not None else ieq(a.p, 1)
            y = b.b if b.b is not None else ieq(b.p, 1)
            if op == "and":
                return I(1, None, band(x, y))
            if op == "or":
                return I(1, None, bor(x, y))
            if op in ("xor", "add", "sub"):
                if isinstance(y, bool):
                    return I(1, None, bnot(x) if y else x)
                if isinstance(x, bool):
                    return I(1, None, bnot(y) if x else y)
                return I(1, None, z3.Xor(x, y))
            raise Unsupported("i1 " + op)
        p, q = a.poly(), b.poly()
        if op in ("and", "or") and a.b is not None and b.b is not None:
            return I(w, None, band(a.b, b.b) if op == "and" else bor(a.b, b.b))
        if op == "xor" and a.b is not None and q.is_const() and q.cval() == 1:
            return I(w, None, bnot(a.b))
        if op == "add":
            if q.is_const() and q.cval() >= 1 << (w - 1):
                q = q - (1 << w)
            return I(w, self.wrap(st, w, p + q))
        if op == "sub":
            return I(w, self.wrap(st, w, p - q))
        if op == "mul":
            if p.is_const() or q.is_const():
                if p.is_const():
                    p, q = q, p
                c = int(q.cval())
                if p.is_const():
                    return ival(w, int(p.cval()) * c)
                r = p * c
                if not self.feasible(st, ile(1 << w, r)):
                    return I(w, r)
                if c >= 1 << (w - 1):       # a negative factor
                    raise Unsupported("mul with possible overflow")
                k = fresh_int("wrap")       # r modulo 2^w
                r = r - k * (1 << w)
                for f in (ile(0, k), ilt(k, c), ile(0, r), ilt(r, 1 << w)):
                    st.add(f)
                return I(w, r)
            raise Unsupported("mul with possible overflow")
        if p.is_const() and q.is_const():
            x, y = int(p.cval()), int(q.cval())
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            if op in ("udiv", "urem", "sdiv", "srem") and y == 0:
                self.oblige(st, "bounds: division by zero", False, self.fn, ins.line)
                return self.fresh(ins.ty, "div", st)
            R = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y,
                 "lshr": lambda: x >> y, "ashr": lambda: sx >> y, "udiv": lambda: x // y, "urem": lambda: x % y,
                 "sdiv": lambda: abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1),
                 "srem": lambda: abs(sx) % abs(sy) * (-1 if sx < 0 else 1)}
            return ival(w, R[op]())
        if op in ("udiv", "urem"):
            self.oblige(st, "bounds: division by zero", cmp("!=", q, 0, False), self.fn, ins.line)
            if q.is_const() and q.cval():
                z = p.zi() / int(q.cval()) if op == "udiv" else p.zi() % int(q.cval())
                return I(w, of_z3(z, True))
            if op == "urem" and not self.feasible(st, ile(q, p)):
                return I(w, p)
            if op == "urem" and not self.feasible(st, bnot(ieq(p, q))):
                return I(w, P(0))
            if op == "urem" and self.valid(st, ile(p, q), 2):
                return I(w, of_z3(z3.If(zb(ieq(p, q)), z3.IntVal(0), p.zi()), True))
            r = self.fresh(ins.ty, op, st)
            if op == "urem":
                st.add(ilt(r.p, q))
                st.add(ile(r.p, p))
            else:
                st.add(ile(r.p, p))
            self.approx.add(op)
            return r
        if op == "shl" and q.is_const() and q.cval() < 8:
            r = p * (1 << int(q.cval()))
            if not self.feasible(st, ile(1 << w, r)):
                return I(w, r)
        if op == "lshr" and q.is_const():
            return I(w, of_z3(p.zi() / (1 << int(q.cval())), True))
        if op == "and" and q.is_const() and int(q.cval()) & (int(q.cval()) + 1) == 0:
            return I(w, of_z3(p.zi() % (int(q.cval()) + 1), True))
        if op in ("and", "or", "xor"):
            bit = lambda x, y: y.b if y.b is not None else ieq(x, 1)
            small = lambda x, y: y.b is not None or self.valid(st, ile(x, 1), 2) is True
            if small(p, a) and small(q, b):
                x, y = bit(p, a), bit(q, b)
                return I(w, None, band(x, y) if op == "and" else bor(x, y) if op == "or" else bor(band(x, bnot(y)), band(y, bnot(x))))
            if op == "and" and (small(p, a) or small(q, b)) and not q.is_const() and not p.is_const():
                x, y = (p, q) if small(p, a) else (q, p)
                return I(w, of_z3(z3.If(zb(ieq(x, 1)), y.zi() % 2, z3.IntVal(0)), True))
        r = self.fresh(ins.ty, op, st)      # over-approximation
        self.approx.add(op)
        if op == "and":
            st.add(ile(r.p, p))
            st.add(ile(r.p, q))
        elif op in ("or", "xor"):
            st.add(ile(r.p, p + q))
            if op == "or":
                st.add(ile(p, r.p))
                st.add(ile(q, r.p))
        return r

    def icmp(self, st, pr, a, b, ty):
        if ty[0] == "ptr" or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pcmp(st, pr, a, b)
        if a.b is not None or b.b is not None:
            if a.b is None:
                a, b, pr = b, a, {"ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}.get(pr, pr)
            if b.b is None and b.p.is_const():
                n = int(b.p.cval())
                R = {"eq": lambda x: x == n, "ne": lambda x: x != n, "ugt": lambda x: x > n, "ult": lambda x: x < n,
                     "uge": lambda x: x >= n, "ule": lambda x: x <= n, "sgt": lambda x: x > n, "slt": lambda x: x < n,
                     "sge": lambda x: x >= n, "sle": lambda x: x <= n}[pr]
                if not (pr[0] == "s" and n >> (a.w - 1)):
                    t, f = R(1), R(0)
                    return True if t and f else (False if not t and not f else (a.b if t else bnot(a.b)))
            if a.b is not None and b.b is not None and pr in ("eq", "ne"):
                e = zb(a.b) == zb(b.b)
                return e if pr == "eq" else z3.Not(e)
        if pr in ("eq", "ne"):
            return cmp("==" if pr == "eq" else "!=", a.poly(), b.poly(), False)
        op = {"gt": ">", "lt": "<", "ge": ">=", "le": "<="}[pr[1:]]
        if pr[0] == "u":
            return cmp(op, a.poly(), b.poly(), False)
        return cmp(op, self.signed(st, a), self.signed(st, b), False)

    def pcmp(self, st, pr, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return e if pr == "eq" else not e
        h = getattr(self, "ptr_hook", None)
        if h:
            r = h(st, pr, a, b)
            if r is not None:
                return r
        if a.r != b.r:
            if pr in ("eq", "ne"):
                return pr == "ne"
            raise Unsupported("pointer order across objects")
        if pr in ("eq", "ne"):
            return cmp("==" if pr == "eq" else "!=", a.o, b.o, False)
        return cmp({"gt": ">", "lt": "<", "ge": ">=", "le": "<="}[pr[1:]], a.o, b.o, False)

    # ----------------------------------------------------------------- memory
    def index(self, st, reg, ptr, n, line, what):
        """element index of an access to an array region"""
        d = {}
        for k, v in ptr.o.m.items():
            if (v / n).denominator != 1:
                d = None
                break
            d[k] = v / n
        if d is None:
            if not self.oblige(st, "bounds: aligned access", False, self.fn, line):
                pass
            raise Unsupported("misaligned access")
        ix = Poly(d)
        if self.bounds:
            self.oblige(st, "bounds: %s inside %s" % (what, reg.name), band(ile(0, ix), ilt(ix, reg.n)), self.fn, line,
                        "%s index within the array" % what)
        return ix

    def offsets(self, st, reg, ptr, ty, line, what):
        """feasible constant offsets of an access to a cell region: [(off, state)]"""
        if ptr.o.is_const():
            o = int(ptr.o.cval())
            if o < 0 or o + self.mod.size(ty) > reg.size:
                self.oblige(st, "bounds: %s inside %s" % (what, ptr.r), False, self.fn, line)
                return []
            self.static += not self.scanning
            return [(o, st)]
        sz = self.mod.size(ty)
        cand = [o for o in range(0, reg.size - sz + 1, sz)]
        if len(cand) > 128:
            raise Unsupported("large symbolic object access")
        if self.bounds:
            self.oblige(st, "bounds: %s inside %s" % (what, ptr.r),
                        bor(*[ieq(ptr.o, o) for o in cand]), self.fn, line)
        out = []
        for o in self.values(st, ptr.o, cand):
            s = st.copy()
            s.add(ieq(ptr.o, o))
            vs = [(k, c) for k, c in ptr.o.m.items() if k]
            if len(vs) == 1 and len(vs[0][0]) == 1 and vs[0][0][0][1] == 1:
                s.pins[vs[0][0][0][0]] = (o - ptr.o.cval()) / vs[0][1]
            out.append((o, s))
        return out

    def values(self, st, p, cand):
        """the candidates p may be equal to"""
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*[f for f in st.pc if not self.opaque or zlin(f)])
        z = p.zi()
        cs, out = set(cand), set()
        s.add(z3.Or([z == c for c in cand]))
        while True:
            self.stats.q += 1
            r = s.check()
            if r == z3.unsat:
                break
            x = s.model().eval(z, model_completion=True) if r == z3.sat else None
            if x is None or not z3.is_int_value(x) or x.as_long() not in cs:
                out = cs
                break
            out.add(x.as_long())
            s.add(z != x)
        self.stats.t += time.time() - t
        return sorted(out)

    def load(self, st, ptr, ty, line):
        """[(value, state)]"""
        if isinstance(ptr, Fn) or ptr.r is None:
            self.oblige(st, "bounds: load through a null pointer", False, self.fn, line)
            return []
        if ptr.r.startswith("@"):
            self.ensure_global(st, ptr.r)
        reg = st.regs.get(ptr.r)
        if reg is None:
            raise Unsupported("unknown region %s" % ptr.r)
        if reg.kind == "arr":
            if self.mod.size(ty) != reg.es:
                raise Unsupported("access size")
            ix = self.index(st, reg, ptr, reg.es, line, "load")
            if self.det and ptr.r in self.live and not self.scanning:
                if not self.valid(st, bor(self.live[ptr.r](ix), *[ieq(ix, j) for j, _ in reg.stores])):
                    raise Unsupported("the result may depend on an unused slot of %s (line %s)" % (ptr.r, line))
            st.pool.append(ix)
            v = reg.base_read(ix)
            if reg.table is not None and not ix.is_const():
                z = bor(*[ieq(ix, k) for k, c in enumerate(reg.table) if c == 0])
                st.add(zb(ieq(v.p, 0)) == zb(z))
            for j, x in reg.stores:
                e = ieq(ix, j)
                if not self.feasible(st, e):
                    continue
                if not self.feasible(st, bnot(e)):
                    v = x
                else:
                    v = ite(e, x, v)
            if isinstance(v, I) and v.p is not None and not v.p.is_const():
                st.add(ile(0, v.p))
                st.add(ilt(v.p, 1 << v.w))
            return [(v, st)]
        out = []
        for o, s in self.offsets(st, reg, ptr, ty, line, "load"):
            c = s.regs[ptr.r].c.get(o)
            if c is None:
                # uninitialised or differently typed
                if self.det and self.feasible(s, True):
                    raise Unsupported("the result may depend on what %s held before the call (line %s)" % (ptr.r, line))
                ov = [k for k in s.regs[ptr.r].c if k < o + self.mod.size(ty) and k + self.mod.size(s.regs[ptr.r].c[k][0]) > o]
                v = self.fresh(ty, "uninit", s) if ty[0] != "ptr" else None
                if v is None:
                    raise Unsupported("load of an uninitialised pointer")
                if not ov and not s.regs[ptr.r].ro:
                    s.setcell(ptr.r, o, ty, v)
                out.append((v, s))
                continue
            cty, v = c
            if cty != ty:
                if cty[0] == "i" and ty[0] == "i" and cty[1] == ty[1]:
                    pass
                elif ty[0] == "ptr" and cty[0] == "ptr":
                    pass
                else:
                    v = self.fresh(ty, "pun", s)
            if isinstance(v, Ptr) and v.r and v.r.startswith("@"):
                self.ensure_global(s, v.r)
                self.note_text(s, v.r)
            out.append((v, s))
        return out

    def note_text(self, st, g):
        r = st.regs[g]
        if r.kind == "arr" and r.table is not None and g not in st.ghost.get("texts", ()):
            st.ghost["texts"] = tuple(st.ghost.get("texts", ())) + (g,)

    def store(self, st, ptr, ty, v, line):
        if isinstance(ptr, Fn) or ptr.r is None:
            self.oblige(st, "bounds: store through a null pointer", False, self.fn, line)
            return []
        if ptr.r.startswith("@"):
            self.ensure_global(st, ptr.r)
        reg = st.regs.get(ptr.r)
        if reg is None:
            raise Unsupported("unknown region %s" % ptr.r)
        if reg.ro:
            self.oblige(st, "frame: no store to read-only object %s" % ptr.r, False, self.fn, line,
                        "the function writes to an object it must only read")
        if reg.kind == "arr":
            if self.mod.size(ty) != reg.es:
                raise Unsupported("access size")
            ix = self.index(st, reg, ptr, reg.es, line, "store")
            st.pool.append(ix)
            r = st.wr(ptr.r)
            r.stores = r.stores + ((ix, v),)
            return [st]
        out = []
        for o, s in self.offsets(st, reg, ptr, ty, line, "store"):
            r = s.wr(ptr.r)
            for k in [k for k in r.c if k != o and k < o + self.mod.size(ty) and k + self.mod.size(r.c[k][0]) > o]:
                del r.c[k]
            r.c[o] = (ty, v)
            out.append(s)
        return out

    # -------------------------------------------------------------- execution
    def run(self, st, name, args):
        """all (state, result) outcomes of a call"""
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported("undefined function " + name)
        if self.depth > 24:
            raise Unsupported("call depth")
        env = {p[1]: a for p, a in zip(f.params, args)}
        old = getattr(self, "fn", "")
        self.depth += 1
        self.fn = name[1:]
        try:
            out = []
            for o in self.exec(f, env, st, f.entry, None, None):
                assert o[0] == "ret", o
                out.append((o[1], o[2]))
            return out
        finally:
            self.depth -= 1
            self.fn = old

    def step_budget(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")

    def exec(self, f, env, st, blk, prev, scope, start=0):
        """outcomes: ('ret',st,v) ('exit',blk,prev,st,env) ('back',prev,st,env)"""
        out = []
        work = [(env, st, blk, prev, start)]
        while work:
            env, st, blk, prev, start = work.pop()
            self.step_budget()
            ins = f.blocks[blk]
            ip = start
            if ip == 0:
                newv = {}
                while ins[ip].op == "phi":
                    for v, b in ins[ip].x:
                        if b == prev:
                            newv[ins[ip].dst] = self.val(st, env, v, ins[ip].ty)
                            break
                    else:
                        raise Unsupported("phi")
                    ip += 1
                if newv:
                    env = dict(env)
                    env.update(newv)
            done = False
            while not done:
                i = ins[ip]
                op = i.op
                if op in ("jmp", "br", "switch"):
                    done = True
                    targets = self.branch(f, env, st, i)
                    for nxt, s in targets:
                        if scope and nxt == scope[0]:
                            out.append(("back", blk, s, env))
                        elif scope and nxt not in scope[1]:
                            out.append(("exit", nxt, blk, s, env))
                        elif nxt in f.loops:
                            for o in self.loop(f, env, s, nxt, blk):
                                if o[0] == "ret":
                                    out.append(o)
                                    continue
                                _, n2, p2, s2, e2 = o
                                if scope and n2 == scope[0]:
                                    out.append(("back", p2, s2, e2))
                                elif scope and n2 not in scope[1]:
                                    out.append(("exit", n2, p2, s2, e2))
                                elif n2 in f.loops:
                                    # leaves one loop and enters the next header directly
                                    work.append((e2, s2, ("enter", n2), p2, 0))
                                else:
                                    work.append((e2, s2, n2, p2, 0))
                        else:
                            work.append((env, s, nxt, blk, 0))
                    # resolve pseudo blocks
                    k = 0
                    while k < len(work):
                        e2, s2, n2, p2, z = work[k]
                        if isinstance(n2, tuple):
                            work.pop(k)
                            for o in self.loop(f, e2, s2, n2[1], p2):
                                if o[0] == "ret":
                                    out.append(o)
                                elif scope and o[1] == scope[0]:
                                    out.append(("back", o[2], o[3], o[4]))
                                elif scope and o[1] not in scope[1]:
                                    out.append(("exit", o[1], o[2], o[3], o[4]))
                                elif o[1] in f.loops:
                                    work.append((o[4], o[3], ("enter", o[1]), o[2], 0))
                                else:
                                    work.append((o[4], o[3], o[1], o[2], 0))
                        else:
                            k += 1
                elif op == "ret":
                    done = True
                    out.append(("ret", st, self.val(st, env, i.a[0], i.ty) if i.a else None))
                elif op == "unreachable":
                    done = True
                else:
                    r = self.simple(f, env, st, i)
                    if len(r) == 1:
                        v, st = r[0]
                        if i.dst is not None:
                            env = dict(env) if False else env
                            env = {**env, i.dst: v}
                        ip += 1
                    else:
                        done = True
                        for v, s in r:
                            e2 = {**env, i.dst: v} if i.dst is not None else env
                            work.append((e2, s, blk, prev, ip + 1))
        return out

    def branch(self, f, env, st, i):
        if i.op == "jmp":
            return [(i.x[0], st)]
        if i.op == "switch":
            v = self.val(st, env, i.a[0], i.ty)
            out, rest = [], []
            for c, l in i.x[1]:
                e = ieq(v.poly(), self.val(st, env, c, i.ty).poly())
                rest.append(bnot(e))
                if self.feasible(st, e):
                    s = st.copy()
                    s.add(e)
                    out.append((l, s))
            e = band(*rest)
            if self.feasible(st, e):
                s = st.copy()
                s.add(e)
                out.append((i.x[0], s))
            return out
        c = self.val(st, env, i.a[0], ("i", 1))
        b = c.b if c.b is not None else ieq(c.p, 1)
        if isinstance(b, bool):
            return [(i.x[0] if b else i.x[1], st)]
        out = []
        ft = self.feasible(st, b)
        ff = self.feasible(st, z3.Not(b)) if ft else True
        if ft:
            s = st.copy() if ff else st
            s.add(b)
            out.append((i.x[0], s))
        if ff:
            s = st.copy() if ft else st
            s.add(z3.Not(b))
            out.append((i.x[1], s))
        return out

    def simple(self, f, env, st, i):
        op = i.op
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = self.val(st, env, i.a[0], i.ty), self.val(st, env, i.a[1], i.ty)
            if "nsw" in (i.x or []) and i.ty[1] > 1 and op in ("add", "sub", "mul") and self.bounds:
                sa, sb = self.signed(st, a), self.signed(st, b)
                r = sa + sb if op == "add" else (sa - sb if op == "sub" else (sa * sb if sa.is_const() or sb.is_const() else None))
                if r is not None:
                    h = 1 << (i.ty[1] - 1)
                    self.oblige(st, "bounds: no signed overflow", band(ile(-h, r), ilt(r, h)), self.fn, i.line)
            return [(self.binop(st, i, a, b), st)]
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return [(self.arith(st, op, self.val(st, env, i.a[0], i.ty), self.val(st, env, i.a[1], i.ty)), st)]
        if op == "fneg":
            a = self.val(st, env, i.a[0], i.ty)
            return [(F(a.nan, -a.p), st)]
        if op == "fcmp":
            return [(I(1, None, self.fcmp(i.x, self.val(st, env, i.a[0], i.ty), self.val(st, env, i.a[1], i.ty))), st)]
        if op == "icmp":
            return [(I(1, None, self.icmp(st, i.x, self.val(st, env, i.a[0], i.ty), self.val(st, env, i.a[1], i.ty), i.ty)), st)]
        if op == "select":
            c = self.val(st, env, i.a[0], ("i", 1))
            b = c.b if c.b is not None else ieq(c.p, 1)
            x, y = self.val(st, env, i.a[1], i.ty), self.val(st, env, i.a[2], i.ty)
            if isinstance(b, bool):
                return [(x if b else y, st)]
            ft, ff = self.feasible(st, b), self.feasible(st, z3.Not(b))
            if ft and not ff:
                return [(x, st)]
            if ff and not ft:
                return [(y, st)]
            if self.merge and isinstance(x, F):
                return [(ite(b, x, y), st)]
            s1, s2 = st, st.copy()
            s1.add(b)
            s2.add(z3.Not(b))
            return [(x, s1), (y, s2)]
        if op == "extractvalue":
            a = self.val(st, env, i.a[0][1], i.ty)
            if a[i.x] is None:
                raise Unsupported("undefined field")
            return [(a[i.x], st)]
        if op == "insertvalue":
            a = self.val(st, env, i.a[0][1], i.ty)
            a = a[:i.x] + (self.val(st, env, i.a[1][1], i.a[1][0]),) + a[i.x + 1:]
            return [(a, st)]
        if op == "freeze":
            return [(self.val(st, env, i.a[0], i.ty), st)]
        if op in ("zext", "sext", "trunc", "uitofp", "sitofp", "fptoui", "fptosi", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc"):
            return self.cast(st, env, i)
        if op == "alloca":
            rid = "%s.%s#%d" % (f.name[1:], i.dst[1:], st.nalloc)
            st.nalloc += 1
            st.regs[rid] = Cells(self.mod.size(i.ty), {}, leaves=dict(self.mod.leaves(i.ty)))
            return [(Ptr(rid, 0), st)]
        if op == "load":
            return self.load(st, self.val(st, env, i.a[0], ("ptr",)), i.ty, i.line)
        if op == "store":
            return [(None, s) for s in self.store(st, self.val(st, env, i.a[1], ("ptr",)), i.ty,
                                                   self.val(st, env, i.a[0], i.ty), i.line)]
        if op == "getelementptr":
            return [(self.gep(st, env, i.ty, i.a, self.mode == "havoc" and i.dst in memgeps(f), i.line), st)]
        if op == "call":
            return self.call(f, env, st, i)
        raise Unsupported("%s: %s %s" % (f.name, op, i.x if op == "unsupported" else ""))

    def cast(self, st, env, i):
        a = self.val(st, env, i.a[0], i.x)
        op = i.op
        if op == "zext":
            if a.b is not None:
                return [(I(i.ty[1], None, a.b) if not isinstance(a.b, bool) else ival(i.ty[1], int(a.b)), st)]
            return [(I(i.ty[1], a.poly()), st)]
        if op == "sext":
            if a.w == 1:
                b = a.b
                return [(ite(b, ival(i.ty[1], -1), ival(i.ty[1], 0)), st)]
            s = self.signed(st, a)
            return [(I(i.ty[1], self.wrap(st, i.ty[1], s)), st)]
        if op == "trunc":
            w = i.ty[1]
            p = a.poly()
            if w == 1:
                if a.b is not None:
                    return [(I(1, None, a.b), st)]
                if p.is_const():
                    return [(I(1, None, int(p.cval()) % 2 == 1), st)]
                return [(I(1, None, (p.zi() % 2) == 1), st)]
            if p.is_const():
                return [(ival(w, int(p.cval())), st)]
            if not self.feasible(st, ile(1 << w, p)):
                return [(I(w, p, a.b), st)]
            return [(I(w, of_z3(p.zi() % (1 << w), True)), st)]
        if op in ("uitofp", "sitofp") and self.mode == "havoc" and not a.poly().is_const():
            return [(F(False, fresh_real("conv")), st)]
        if op == "uitofp":
            return [(F(False, a.poly()), st)]
        if op == "sitofp":
            return [(F(False, self.signed(st, a)), st)]
        if op in ("fptosi", "fptoui"):
            w = i.ty[1]
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if op == "fptosi" else (0, 1 << w)
            if self.bounds:
                self.oblige(st, "bounds: conversion in range", band(bnot(a.nan), rlt(lo - 1, a.p), rlt(a.p, hi)), self.fn, i.line)
            if a.p.is_const() and a.nan is False:
                c = a.p.cval()
                return [(ival(w, int(c)), st)]
            return [(self.fresh(i.ty, "conv", st), st)]
        if op == "bitcast" and i.ty == i.x:
            return [(a, st)]
        if i.ty[0] in ("i", "double"):
            return [(self.fresh(i.ty, op, st), st)]
        raise Unsupported(op)

    def call(self, f, env, st, i):
        fv = self.val(st, env, i.x, ("ptr",))
        args = [self.val(st, env, v, t) for t, v in i.a]
        if isinstance(fv, Ptr):
            h = self.contracts.get("*")
            if h:
                self.havoc_shared(st)
                return [(v, s) for s, v in h(self, st, fv, args, i.line)]
            raise Unsupported("call through an unknown pointer")
        n = fv.name
        if n in self.contracts:
            self.used.add(n[1:])
            self.havoc_shared(st)       # the callee may change them
            return [(v, s) for s, v in self.contracts[n](self, st, args, i.line)]
        if n.startswith("@llvm."):
            return self.intrinsic(n, args, st, i)
        if n in self.mod.funcs:
            self.inlined.add(n[1:])
            return [(v, s) for s, v in self.run(st, n, args)]
        h = self.contracts.get("extern")
        if h:
            return [(v, s) for s, v in h(self, st, n, args, i.line)]
        raise Unsupported("call of external function " + n)

    def intrinsic(self, n, args, st, i):
        if n.startswith("@llvm.lifetime") or n.startswith("@llvm.dbg") or n.startswith("@llvm.assume") or n.startswith("@llvm.experimental"):
            return [(None, st)]
        if n.startswith("@llvm.fabs"):
            a = args[0]
            neg = rlt(a.p, 0)
            return [(ite(neg, F(a.nan, -a.p), a), st)]
        if n.startswith("@llvm.fmuladd"):
            return [(self.arith(st, "fadd", self.arith(st, "fmul", args[0], args[1]), args[2]), st)]
        if n.startswith("@llvm.memset") or n.startswith("@llvm.memcpy") or n.startswith("@llvm.memmove"):
            d, s, ln = args[0], args[1], args[2].poly()
            if not (ln.is_const() and d.o.is_const() and d.r and st.regs[d.r].kind == "cells"):
                raise Unsupported("block operation of unknown size")
            L, o = int(ln.cval()), int(d.o.cval())
            reg = st.regs[d.r]
            if reg.ro:
                self.oblige(st, "frame: no store to read-only object %s" % d.r, False, self.fn, i.line)
            if o < 0 or o + L > reg.size:
                self.oblige(st, "bounds: block inside %s" % d.r, False, self.fn, i.line)
                return []
            reg = st.wr(d.r)
            for k in [k for k in reg.c if o <= k < o + L]:
                del reg.c[k]
            if "memset" in n:
                z = s.poly().is_const() and s.poly().cval() == 0
                for k, t in (reg.leaves or {}).items():
                    if o <= k < o + L:
                        reg.c[k] = (t, self.val(st, {}, ("zero", t), t) if z else self.fresh(t, "set", st))
                return [(None, st)]
            if s.r and s.r.startswith("@"):
                self.ensure_global(st, s.r)
            if not (s.r and s.o.is_const() and st.regs[s.r].kind == "cells"):
                raise Unsupported("copy")
            so = int(s.o.cval())
            if so < 0 or so + L > st.regs[s.r].size:
                self.oblige(st, "bounds: block inside %s" % s.r, False, self.fn, i.line)
                return []
            for k, c in st.regs[s.r].c.items():
                if so <= k < so + L:
                    reg.c[o + k - so] = c
            return [(None, st)]
        raise Unsupported(n)

    # ------------------------------------------------------------------ loops
    def loop(self, f, env, st, h, prev):
        """outcomes 'ret' and 'exit' of a loop entered from outside"""
        key = (f.name, h)
        if self.cutmemo.get(key) != "cut" and self.fanout and any(b != h and b in f.loops for b in f.loops[h]):
            # a look at one iteration, before anything is proved
            self.scanning += 1
            try:
                if sum(o[0] == "back" for o in self.exec(f, env, st.copy(), h, prev, (h, f.loops[h]))) > self.fanout:
                    self.cutmemo[key] = "cut"
            finally:
                self.scanning -= 1
        if self.cutmemo.get(key) != "cut":
            mark = len(self.obs)
            nst = st.copy()
            work, res, visits = [(env, nst, prev)], [], 0
            try:
                while work:
                    e, s, p = work.pop()
                    visits += 1
                    if visits > self.unroll:
                        raise Budget(key)
                    outs = self.exec(f, e, s, h, p, (h, f.loops[h]))
                    if self.fanout and sum(o[0] == "back" for o in outs) > self.fanout:
                        raise Budget(key)
                    for o in outs:
                        if o[0] == "back":
                            work.append((o[3], o[2], o[1]))
                        else:
                            res.append(o)
                self.loops.append("%s%s unrolled completely" % (f.name[1:], h))
                return res
            except Budget as b:
                if b.args[0] != key:
                    raise
                self.cutmemo[key] = "cut"
                del self.obs[mark:]
        return self.cut(f, env, st, h, prev)

    def cut(self, f, env, st, h, prev):
        phis = [i for i in f.blocks[h] if i.op == "phi"]
        init = {}
        for i in phis:
            for v, b in i.x:
                if b == prev:
                    init[i.dst] = self.val(st, env, v, i.ty)
        body = f.loops[h]
        mod_cells, mod_arr, mod_ghost, fixed = {}, set(), set(), set()
        cands = None
        dropped = set()
        name = "%s%s" % (f.name[1:], h)
        line = next((i.line for i in f.blocks[h] if i.line), 0)
        mark = len(self.obs)
        scan = True
        for rnd in range(60):
            self.step_budget()
            del self.obs[mark:]
            # arbitrary iteration
            s = st.copy()
            e = dict(env)
            hv = {}
            for i in phis:
                x = init[i.dst]
                if i.dst in fixed:
                    hv[i.dst] = x
                    continue
                if isinstance(x, Ptr):
                    if x.r is None:
                        raise Unsupported("null pointer loop variable")
                    step = 8 if s.regs[x.r].kind == "cells" else s.regs[x.r].es
                    hv[i.dst] = Ptr(x.r, x.o + fresh_int(i.dst[1:]) * step)
                elif isinstance(x, Fn):
                    hv[i.dst] = x
                else:
                    hv[i.dst] = self.fresh(i.ty, i.dst[1:], s)
            e.update(hv)
            s.ghost["phis"] = tuple(s.ghost.get("phis", ())) + tuple(x.p for x in hv.values() if isinstance(x, F))
            for (r, o), ty in mod_cells.items():
                if ty[0] == "ptr":
                    raise Unsupported("pointer cell modified in a loop")
                s.setcell(r, o, ty, self.fresh(ty, "%s+%d" % (r, o), s))
            for r in mod_arr:
                a = s.wr(r)
                a.base, a.stores = "%s_%d" % (a.name, rnd + 1000 * len(self.loops)), ()
            for g in mod_ghost:
                s.ghost[g] = self.fresh_ghost(g, s.ghost[g], s)
            lc = LoopCtx(self, f, h, st, s, init, hv, mod_cells, mod_arr, mod_ghost, env)
            if cands is None:
                cands = []
                for t in self.templates if not (scan or self.scanning) else self.cheap:
                    cands += t(self, lc)
                cands = [c for c in cands if c.name not in dropped]
                seen = set()
                cands = [c for c in cands if not (c.name in seen or seen.add(c.name))]
                memo = self.memo.get((f.name, h)) if self.memo is not None else None
                if memo and not self.scanning:
                    cands = [c for c in cands if memo_name(c.name) in memo]
                # entry
                v0 = View(st, init, lc)
                keep = []
                for c in cands:
                    self.step_budget()
                    try:
                        ok = self.valid(st, c.prove(v0), 2.0)
                    except Skip:
                        ok = False
                    if ok is True:
                        keep.append(c)
                    else:
                        dropped.add(c.name)
                cands = keep
            vh = View(s, hv, lc)
            for c in cands:
                s.add(c.assume(vh))
            self.scanning += 1 if scan else 0
            try:
                outs = self.exec(f, e, s.copy(), h, None, (h, body), start=len(phis))
            finally:
                self.scanning -= 1 if scan else 0
            backs = [o for o in outs if o[0] == "back"]
            # what did the body modify?
            grew = False
            for o in backs:
                s2 = o[2]
                for r, reg in s.regs.items():
                    r2 = s2.regs[r]
                    if r2 is reg:
                        continue
                    if reg.kind == "cells":
                        for k, (ty, v) in r2.c.items():
                            if k not in reg.c:
                                if (r, k) not in mod_cells:
                                    # first written inside the loop: unknown before
                                    mod_cells[(r, k)] = ty
                                    grew = True
                            elif reg.c[k][1] is not v and (r, k) not in mod_cells:
                                mod_cells[(r, k)] = ty
                                grew = True
                    elif r2.stores != reg.stores or r2.base != reg.base:
                        if r not in mod_arr:
                            mod_arr.add(r)
                            grew = True
                for g, v in s.ghost.items():
                    if g in ("phis", "wit", "texts"):
                        continue
                    if s2.ghost[g] is not v and g not in mod_ghost:
                        mod_ghost.add(g)
                        grew = True
            if scan and not grew:
                scan, grew = False, not self.scanning
            if grew:
                cands = None
                dropped = set()
                continue
            # preservation
            lost = set()
            for o in backs:
                _, p2, s2, e2 = o
                bv = {}
                for i in phis:
                    for v, b in i.x:
                        if b == p2:
                            bv[i.dst] = self.val(s2, e2, v, i.ty)
                for k, v in bv.items():
                    if isinstance(v, Ptr) and v.r != init[k].r:
                        raise Unsupported("pointer loop variable changes object")
                    if isinstance(v, Fn) and not (isinstance(init[k], Fn) and v.name == init[k].name):
                        raise Unsupported("function pointer loop variable")
                vb = View(s2, bv, lc)
                goals = []
                for c in cands:
                    if c.name in lost:
                        continue
                    try:
                        g = c.prove(vb)
                    except Skip:
                        g = False
                    if g is True:
                        continue
                    if g is False:
                        lost.add(c.name)
                        continue
                    goals.append((c, g))
                self.preserve(s2, goals, lost)
            if not lost:
                self.loops.append("%s (line %d) cut by invariant: %s" % (name, line, "; ".join(c.name for c in cands)))
                if self.memo is not None and not self.scanning:
                    self.memo.setdefault((f.name, h), set()).update(memo_name(c.name) for c in cands)
                self.inv_count = getattr(self, "inv_count", 0) + 2 * len(cands)
                return [o for o in outs if o[0] != "back"]
            cands = [c for c in cands if c.name not in lost]
            dropped |= lost
        raise Unsupported("no invariant fixpoint for " + name)

    def fresh_ghost(self, g, v, s):
        if isinstance(v, Poly):
            p = fresh_int("g_" + g)
            return p
        if isinstance(v, F):
            return F(fresh_bool("nan_g_" + g), fresh_real("g_" + g))
        if isinstance(v, GArr):
            return v.fresh()
        raise Unsupported("ghost " + g)

    def preserve(self, s2, goals, lost):
        suspects = []       # not proved without the definitions of the named terms
        while goals or suspects:
            self.step_budget()
            conj = z3.And([zb(g) for _, g in goals])
            r = self.check(s2.pc + [z3.Not(conj)], 2.0) if goals else "unsat"
            if r == "unsat":
                for c, g in suspects:
                    self.step_budget()
                    if self.valid_opaque(s2, g, 3.0, 1.0) is not True:
                        lost.add(c.name)
                return
            bad = []
            if r == "sat":
                m = self.last.model()
                for c, g in goals:
                    if z3.is_false(m.eval(g, model_completion=True)):
                        bad.append(c.name)
            if not bad:
                for c, g in goals + suspects:
                    self.step_budget()
                    if self.valid(s2, g, 2.0) is not True:
                        lost.add(c.name)
                return
            if self.opaque and s2.defs:
                suspects += [(c, g) for c, g in goals if c.name in bad]
            else:
                lost |= set(bad)
            goals = [(c, g) for c, g in goals if c.name not in bad]


def memgeps(f):
    """addresses used for nothing but loads and stores"""
    r = getattr(f, "_memgeps", None)
    if r is None:
        acc, other = set(), set()
        for b in f.blocks.values():
            for i in b:
                for n, a in enumerate(i.a or []):
                    a = a[1] if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple) else a
                    if isinstance(a, tuple) and a and a[0] == "v":
                        (acc if (i.op == "load" and n == 0) or (i.op == "store" and n == 1) else other).add(a[1])
                if i.op == "phi":
                    other |= {v[1] for v, _ in i.x if v[0] == "v"}
        r = f._memgeps = acc - other
    return r


_zl = {}


def zlin(e):
    """no product of two non-constants"""
    i = e.get_id()
    r = _zl.get(i)
    if r is None or not z3.eq(r[0], e):
        if z3.is_app(e):
            ok = all(zlin(c) for c in e.children())
            if ok and e.decl().kind() == z3.Z3_OP_MUL:
                ok = sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in e.children()) <= 1
        else:
            ok = True
        r = (e, ok)
        _zl[i] = r
    return r[1]


_zv = {}


def zvars(e):
    """names of the constants and function applications of a formula"""
    i = e.get_id()
    r = _zv.get(i)
    if r is None or r[0] is not e and not z3.eq(r[0], e):
        out, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(str(x) if x.num_args() == 0 else x.sexpr())
            st += x.children()
        r = (e, frozenset(out))
        _zv[i] = r
    return r[1]


def purify(e, memo):
    """every application of an uninterpreted function becomes a variable"""
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    if z3.is_app(e) and e.num_args():
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = z3.Const("app!%d" % i, e.sort())
        else:
            ch = [purify(c, memo) for c in e.children()]
            r = e.decl()(*ch) if not (e.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR)) else (z3.And(ch) if z3.is_and(e) else z3.Or(ch))
    else:
        r = e
    memo[i] = (e, r)
    return r


def pinned(p, pins):
    if not any(i in pins for k in p.m for i, _ in k):
        return p
    r = P(0)
    for k, v in p.m.items():
        t = P(v)
        for i, e in k:
            x = P(pins[i]) if i in pins else Poly.of(ATOMS[i])
            for _ in range(e):
                t = t * x
        r = r + t
    return r


def memo_name(n):
    return re.sub(r"root\d+", "root", n)


class Skip(Exception):
    pass


class GArr:
    """ghost array Int -> Real with stores"""
    n = [0]

    def __init__(self, base, stores=()):
        self.base, self.stores = base, tuple(stores)

    def at(self, idx):
        v = F(False, app(self.base, [P(idx)], "i", "r"))
        for j, x in self.stores:
            v = ite(ieq(idx, j), x, v)
        return v

    def store(self, j, x):
        return GArr(self.base, self.stores + ((P(j), x),))

    def fresh(self):
        GArr.n[0] += 1
        return GArr("%s!%d" % (self.base.split("!")[0], GArr.n[0]))


class Cand:
    def __init__(self, name, prove, assume=None):
        self.name, self.prove, self.assume = name, prove, assume or prove


def falling(f, h):
    """phis of the header that the body decrements"""
    phis = {i.dst for i in f.blocks[h] if i.op == "phi"}
    out = set()
    for b in f.loops[h]:
        for i in f.blocks[b]:
            if i.op in ("add", "sub") and i.a[0][0] == "v" and i.a[0][1] in phis and i.a[1][0] == "c":
                c = int(i.a[1][2])
                w = i.ty[1]
                c = c - (1 << w) if c >= 1 << (w - 1) else c
                if (c < 0) == (i.op == "add"):
                    out.add(i.a[0][1])
            elif i.op == "getelementptr" and i.a[0][1][0] == "v" and i.a[0][1][1] in phis and len(i.a) == 2 and i.a[1][1][0] == "c" and int(i.a[1][1][2]) < 0:
                out.add(i.a[0][1][1])
    return sorted(out)


class LoopCtx:
    def __init__(self, v, f, h, st0, s, init, hv, cells, arrs, ghosts, env):
        self.env = env
        self.v, self.f, self.h, self.st0, self.s, self.init, self.hv = v, f, h, st0, s, init, hv
        self.cells, self.arrs, self.ghosts = dict(cells), set(arrs), set(ghosts)
        # loop variables by kind
        self.ints, self.floats = {}, {}
        for k, x in hv.items():
            if isinstance(x, I) and x.w > 1:
                self.ints["%" + k[1:]] = lambda w, k=k: w.phi[k].poly()
            elif isinstance(x, F):
                self.floats["%" + k[1:]] = lambda w, k=k: w.phi[k]
            elif isinstance(x, Ptr):
                reg = s.regs[x.r]
                es = reg.es if reg.kind == "arr" else 8
                self.ints["%" + k[1:]] = lambda w, k=k, es=es: scale(w.phi[k].o, es)
        for (r, o), ty in cells.items():
            if ty[0] == "i" and ty[1] > 1:
                self.ints["%s+%d" % (r, o)] = lambda w, r=r, o=o, ty=ty: cellv(w, r, o, ty).poly()
            elif ty[0] == "double":
                self.floats["%s+%d" % (r, o)] = lambda w, r=r, o=o, ty=ty: cellv(w, r, o, ty)
        for g in ghosts:
            x = s.ghost[g]
            if isinstance(x, Poly):
                self.ints["ghost " + g] = lambda w, g=g: w.st.ghost[g]

        # counters that go down: the number of steps done so far
        self.down = set()
        for k in falling(f, h):
            if "%" + k[1:] in self.ints:
                get = self.ints["%" + k[1:]]
                try:
                    i0 = get(View(st0, init, self))
                except Skip:
                    continue
                self.down.add("%" + k[1:])
                self.ints["steps of %" + k[1:]] = lambda w, get=get, i0=i0: i0 - get(w)
        # float cells of the written objects, written or not
        self.allfloats = dict(self.floats)
        for r in {r for r, _ in cells}:
            for o, (ty, v) in s.regs[r].c.items():
                if ty[0] == "double":
                    self.allfloats["%s+%d" % (r, o)] = lambda w, r=r, o=o, ty=ty: cellv(w, r, o, ty)

    def init_view(self):
        return View(self.st0, self.init, self)


def cellv(w, r, o, ty):
    c = w.st.regs[r].c.get(o) if r in w.st.regs else None
    if c is None:
        raise Skip()
    return c[1]


def scale(p, n):
    d = {}
    for k, v in p.m.items():
        if (v / n).denominator != 1:
            raise Skip()
        d[k] = v / n
    return Poly(d)


class View:
    """values of the loop variables in one state at the header"""

    def __init__(self, st, phi, lc):
        self.st, self.phi, self.lc = st, phi, lc


def inv_axioms(apps):
    out = []
    for e in apps:
        if e.decl().name() == "INV":
            b = e.arg(0)
            out.append(z3.Implies(b != 0, b * e == 1))
            out.append(z3.Implies(b > 0, e > 0))
            out.append(z3.Implies(b < 0, e < 0))
    return out
