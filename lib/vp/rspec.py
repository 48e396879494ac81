"""Contracts of the functions of /repo for rvc, and the loop-invariant templates."""
import itertools
from .rvc import *
from . import ir

D_, I64, I32, PTR = ("double",), ("i", 64), ("i", 32), ("ptr",)
MAXN = 1 << 60

FIELDS = {
    "Ubend": ["cursor", "capacity", "last_erased_data", "filled", "data"],
    "Peaks": ["e", "e2", "min", "max", "container"],
    "Tail": ["gamma", "sigma", "peaks"],
    "Spot": ["q", "level", "discard_anomalies", "low", "__up_down", "anomaly_threshold", "excess_threshold", "Nt", "n", "tail"],
}
TY = {"cursor": I64, "capacity": I64, "filled": I32, "data": PTR, "discard_anomalies": I32, "low": I32, "Nt": I64, "n": I64}
_lay = None


def layout():
    """field offsets, asked from the compiler"""
    global _lay
    if _lay is None:
        d = scratch()
        with open(d + "/lay.c", "w") as f:
            f.write('#include <stddef.h>\n#include <stdio.h>\n#include "spot.h"\nint main(void){\n')
            for s, fs in FIELDS.items():
                f.write('printf("%s . %%zu\\n",sizeof(struct %s));\n' % (s, s))
                for x in fs:
                    f.write('printf("%s %s %%zu\\n",offsetof(struct %s,%s));\n' % (s, x, s, x))
            f.write("return 0;}\n")
        r = sh(["gcc", "-w", "-I" + os.path.join(REPO, "include"), d + "/lay.c", "-o", d + "/lay"], 60)
        if r.rc:
            raise Unsupported("layout: " + r.err[-500:])
        _lay = {}
        for l in sh([d + "/lay"], 10).out.splitlines():
            s, x, n = l.split()
            _lay[(s, x)] = int(n)
    return _lay


_mod = {}


def module(defs=('VERSION="v"',), **k):
    key = tuple(defs)
    if key not in _mod:
        _mod[key] = Module(ir.build(defs, **k))
    return _mod[key]


def need(c, msg):
    """what the contract's vocabulary cannot describe is undecided"""
    if not c:
        raise Unsupported(msg)


# ------------------------------------------------------------------- folds
class Fold:
    """F(t) = sum of g(k) for k < t (for all integers t, F(0) = 0)"""

    def __init__(self, name, g, res="r"):
        self.name, self.g, self.terms = name, g, {}
        self.label, self.res = name, res

    def at(self, t):
        t = P(t)
        c = int(t.cval())
        base = t - c
        if not base.m and abs(c) > 8:
            base, c = t, 0
        if abs(c) > 4 and base.m:
            base, c = t, 0
        r = P(0)
        if base.m:
            r = self.atom(base)
        for j in range(0, c):
            r = r + self.g(base + j)
        for j in range(c, 0):
            r = r - self.g(base + j)
        return r

    def atom(self, t):
        a = app(self.name, [t], "i", self.res)
        z = a.single_atom().z
        self.terms[z.get_id()] = (t, z)
        return a

    def axioms(self, apps):
        mine = [e for e in apps if e.decl().name() == self.name]
        out = []
        for e in mine:
            t = self.terms.get(e.get_id())
            if t is None:
                continue
            out.append(z3.Implies(e.arg(0) == 0, e == 0))
        for e1, e2 in itertools.permutations(mine, 2):
            t = self.terms.get(e1.get_id())
            if t is None:
                continue
            out.append(imp(e2.arg(0) == e1.arg(0) + 1, e2 == e1 + (self.g(t[0]).zr() if self.res == "r" else self.g(t[0]).zi())))
        return out


def LOG(x):
    return app("LOG", [P(x)], "r")


def EXP(x):
    return app("EXP", [P(x)], "r")


def c_xlog(v, st, a, line):
    """xlog (C09): NaN for NaN and negative numbers, else the logarithm"""
    x = a[0]
    if v.mode == "havoc":
        return [(st, F(fresh_bool("nan_log"), fresh_real("log")))]
    neg = rlt(x.p, 0)
    return [(st, F(bor(x.nan, neg if v.feasible(st, neg) else False), LOG(x.p)))]


def c_xexp(v, st, a, line):
    if v.mode == "havoc":
        return [(st, F(fresh_bool("nan_exp"), fresh_real("exp")))]
    return [(st, F(a[0].nan, EXP(a[0].p)))]


MATH = {"@xlog": c_xlog, "@xexp": c_xexp}


# ----------------------------------------------------------------- templates
def bound_terms(v, lc):
    """loop-invariant integer terms the loop compares with"""
    out = {}
    for b in lc.f.loops[lc.h]:
        for i in lc.f.blocks[b]:
            if i.op != "icmp":
                continue
            for a in i.a:
                x = None
                if a[0] == "c":
                    if i.ty[0] == "i" and i.ty[1] > 1:
                        x = P(a[2])
                elif a[0] == "v" and a[1] in lc.env:
                    y = lc.env[a[1]]
                    if isinstance(y, I) and y.w > 1 and y.b is None:
                        x = y.p
                    elif isinstance(y, Ptr) and y.r is not None:
                        try:
                            reg = lc.st0.regs[y.r]
                            x = scale(y.o, reg.es if reg.kind == "arr" else 8)
                        except Skip:
                            pass
                if x is not None:
                    out[x.key()] = x
            # constants of the module used as bounds
        for i in lc.f.blocks[b]:
            if i.op == "load" and i.a[0][0] == "g" and i.ty[0] == "i":
                g = v.mod.globals.get(i.a[0][1])
                if g and v.mod.const.get(i.a[0][1]) and g["init"] and g["init"][0] == "c":
                    x = P(g["init"][2])
                    out[x.key()] = x
    for x in getattr(v, "terms", []):
        out[P(x).key()] = P(x)
    return list(out.values())


def late_exit(lc):
    """the loop is not left at its head (do ... while)"""
    su = ir.succs(lc.f.blocks[lc.h])
    return lc.h in su or all(b in lc.f.loops[lc.h] for b in su)


def t_ints(v, lc):
    out = []
    w0 = lc.init_view()
    T = bound_terms(v, lc)
    late = late_exit(lc)
    for n, g in lc.ints.items():
        try:
            x0 = g(w0)
        except Skip:
            continue
        out.append(Cand("%s >= %s" % (n, x0), lambda w, g=g, x0=x0: ile(x0, g(w))))
        out.append(Cand("%s <= %s" % (n, x0), lambda w, g=g, x0=x0: ile(g(w), x0)))
        if n in lc.down:
            for k in (0, 1):
                out.append(Cand("%s >= %d" % (n, k), lambda w, g=g, k=k: ile(k, g(w))))
        for t in T:
            if not (t - x0).is_const() or t.is_const():
                out.append(Cand("%s <= %s" % (n, t), lambda w, g=g, t=t: ile(g(w), t)))
                if late:
                    out.append(Cand("%s < %s" % (n, t), lambda w, g=g, t=t: ilt(g(w), t)))
                if len(t.m) <= 1 and t.is_const():
                    out.append(Cand("%s >= %s" % (n, t), lambda w, g=g, t=t: ile(t, g(w))))
    for (n, g), (m, h) in itertools.combinations(lc.ints.items(), 2):
        try:
            d0, s0 = g(w0) - h(w0), g(w0) + h(w0)
        except Skip:
            continue
        out.append(Cand("%s - %s == %s" % (n, m, d0), lambda w, g=g, h=h, d0=d0: ieq(g(w) - h(w), d0)))
        out.append(Cand("%s - %s <= %s" % (n, m, d0), lambda w, g=g, h=h, d0=d0: ile(g(w) - h(w), d0)))
        out.append(Cand("%s - %s >= %s" % (n, m, d0), lambda w, g=g, h=h, d0=d0: ile(d0, g(w) - h(w))))
        out.append(Cand("%s + %s == %s" % (n, m, s0), lambda w, g=g, h=h, s0=s0: ieq(g(w) + h(w), s0)))
    for fo in getattr(v, "ifolds", []):
        for (n, g), (m, h) in itertools.permutations(lc.ints.items(), 2):
            try:
                x0, i0 = g(w0), h(w0)
            except Skip:
                continue
            for sg in (1, -1):
                out.append(Cand("%s == init %+d*(%s(%s) - %s(%s))" % (n, sg, fo.label, m, fo.label, i0),
                                lambda w, g=g, h=h, fo=fo, x0=x0, i0=i0, sg=sg: ieq(g(w), x0 + sg * (fo.at(h(w)) - fo.at(i0)))))
    return out


t_ints.cheap = True


def t_floats(v, lc):
    """definedness, constancy and fold templates of the accumulators"""
    out = []
    w0 = lc.init_view()
    ints = list(lc.ints.items())
    for n, g in lc.floats.items():
        try:
            x0 = g(w0)
        except Skip:
            continue
        out.append(Cand("%s is a number" % n, lambda w, g=g: bnot(g(w).nan)))
        out.append(Cand("%s constant" % n, lambda w, g=g, x0=x0: feq(g(w), x0)))
        if x0.nan is not False and not v.valid(lc.st0, bnot(x0.nan), 2.0):
            continue
        for m, h in ints:
            try:
                i0 = h(w0)
            except Skip:
                continue
            for fo in list(getattr(v, "folds", [])) + [t[5] for t in lc.st0.trace if t[0] == "brent" and t[3]]:
                for kn, k in getattr(v, "coefs", [("", P(1)), ("-", P(-1))]):
                    for s in (0, 1, -1):
                        out.append(Cand("%s == init + %s(%s(%s%+d) - %s(%s%+d))" % (n, kn, fo.label, m, s, fo.label, i0, s),
                                        lambda w, g=g, h=h, k=k, fo=fo, s=s, i0=i0, x0=x0:
                                        band(bnot(g(w).nan), req(g(w).p, x0.p + k * (fo.at(h(w) + s) - fo.at(i0 + s))))))
                    out.append(Cand("%s == init + %s(%s(%s-%s))" % (n, kn, fo.label, i0, m),
                                    lambda w, g=g, h=h, k=k, fo=fo, i0=i0, x0=x0:
                                    band(bnot(g(w).nan), req(g(w).p, x0.p + k * fo.at(i0 - h(w))))))
    return out


def t_extreme(v, lc):
    """v is an element of / a bound for the visited part of an array"""
    A = getattr(v, "ext", None)
    if not A:
        return []
    read, gk, wit = A["read"], A["g"], A["witness"]
    out = []
    w0 = lc.init_view()
    for n, g in lc.floats.items():
        for m, h in lc.ints.items():
            try:
                i0 = h(w0)
            except Skip:
                continue
            # [i0, x) or [x, i0) (+ shifts)
            for s in (0, 1):
                def rng(w, k, h=h, i0=i0, s=s):
                    x = h(w) + s
                    return bor(band(ile(i0 + s, k), ilt(k, x)), band(ile(x, k), ilt(k, i0 + s)))

                def up(w, k, h=h, s=s):
                    # also counts the elements before the first index (peeled)
                    return band(ile(0, k), ilt(k, h(w) + s))

                def down(w, k, h=h, s=s):
                    return band(ile(h(w) + s, k), ilt(k, A["n"]))
                def rest(w, k, h=h, s=s):
                    # counting down to a first element that was taken before
                    return bor(ieq(k, 0), band(ile(h(w) + s, k), ilt(k, A["n"])))
                RR = (("", rng), (" up", up), (" down", down))
                if m in lc.down:
                    RR = (("", rng), (" down", down), (" down, and the first,", rest))
                elif m.startswith("steps of"):
                    RR = ()
                for rn, R in RR:
                    for opn, op in (("<=", lambda a, b: rle(a, b)), (">=", lambda a, b: rle(b, a))):
                        out.append(Cand("%s %s every element%s visited by %s%+d" % (n, opn, rn, m, s),
                                        lambda w, g=g, op=op, R=R: imp(R(w, gk), band(bnot(g(w).nan), op(g(w).p, read(w.st, gk))))))
                    def prove(w, g=g, R=R, h=h):
                        ws = list(wit) + [P(0), h(w) - 1, h(w), h(w) + 1] + [x for x in w.st.pool[-12:]] + list(w.st.ghost.get("wit", ()))
                        return bor(g(w).nan, *[band(R(w, k), req(g(w).p, read(w.st, k))) for k in ws])

                    def assume(w, g=g, R=R):
                        k = fresh_int("w")
                        w.st.ghost["wit"] = tuple(w.st.ghost.get("wit", ())) + (k,)
                        return bor(g(w).nan, band(R(w, k), req(g(w).p, read(w.st, k))))
                    out.append(Cand("%s is an element%s visited by %s%+d" % (n, rn, m, s), prove, assume))
            out.append(Cand("%s is NaN exactly before the first element of %s" % (n, m),
                            lambda w, g=g, h=h, i0=i0: zb(g(w).nan) == zb(ieq(h(w), i0))))
    if 2 <= len(lc.floats) <= 4:
        for (n, g), (m, h) in itertools.permutations(lc.floats.items(), 2):
            out.append(Cand("%s <= %s" % (n, m), lambda w, g=g, h=h: bor(g(w).nan, h(w).nan, rle(g(w).p, h(w).p))))
    return out


# ------------------------------------------------------------------- state
class TailState:
    """a struct Tail (inside region R at offset base) with a window of arbitrary size"""

    def __init__(self, v, st, rid="T", what="Tail", ro=False, pre=""):
        L = layout()
        self.rid, self.what = rid, what
        self.off = {}
        b = 0
        if what == "Spot":
            for x in FIELDS["Spot"]:
                self.off[x] = L[("Spot", x)]
            b = L[("Spot", "tail")]
        if what in ("Spot", "Tail"):
            for x in FIELDS["Tail"]:
                self.off[x] = b + L[("Tail", x)]
            b += L[("Tail", "peaks")]
        for x in FIELDS["Peaks"]:
            self.off[x] = b + L[("Peaks", x)]
        b += L[("Peaks", "container")]
        for x in FIELDS["Ubend"]:
            self.off[x] = b + L[("Ubend", x)]
        self.coff = b
        self.poff = self.off["e"] if "peaks" not in self.off else self.off["peaks"]
        self.arr = pre + "D"
        cells = {}
        self.v0 = {}
        self.cap, self.cur, self.fil = int_var(pre + "cap"), int_var(pre + "cur"), int_var(pre + "fil")
        for x, o in self.off.items():
            if x in ("tail", "peaks", "container"):
                continue
            ty = TY.get(x, D_)
            if x == "cursor":
                val = I(64, self.cur)
            elif x == "capacity":
                val = I(64, self.cap)
            elif x == "filled":
                val = I(32, self.fil)
            elif x == "data":
                val = Ptr(self.arr, 0)
            elif ty[0] == "i":
                p = int_var(pre + x)
                st.add(ile(0, p))
                st.add(ilt(p, 1 << ty[1]))
                val = I(ty[1], p)
            else:
                val = F(z3.Bool(pre + "nan_" + x), real_var(pre + x))
            cells[o] = (ty, val)
            self.v0[x] = val
        st.regs[rid] = Cells(L[(what, ".")], cells, ro=ro)
        st.regs[self.arr] = Arr(self.arr, 8, self.cap, D_, ro=ro)
        # window invariant
        st.add(ile(1, self.cap))
        st.add(ile(self.cap, MAXN))
        st.add(ile(0, self.cur))
        st.add(ilt(self.cur, self.cap))
        st.add(bor(ieq(self.fil, 0), ieq(self.fil, 1)))
        self.full = zb(ieq(self.fil, 1))
        st.add(imp(ieq(self.fil, 0), self.v0["last_erased_data"].nan))
        self.N = of_z3(z3.If(self.full, self.cap.zi(), self.cur.zi()), True)

    def ptr(self, sub=""):
        return Ptr(self.rid, {"": 0, "peaks": self.poff, "container": self.coff}[sub])

    def get(self, st, x):
        return st.regs[self.rid].c[self.off[x]][1]

    def pget(self, st, x):
        v = self.get(st, x)
        return v.poly() if isinstance(v, I) else v

    def D(self, k):
        return app(self.arr, [P(k)], "i", "r")

    def read(self, st, k):
        return st.regs[self.arr].at(P(k)).p

    def same(self, st, names):
        """unchanged fields"""
        out = []
        for x in names:
            a, b = self.v0[x], self.get(st, x)
            if isinstance(a, F):
                out.append(feq(a, b))
            elif isinstance(a, I):
                out.append(ieq(a.poly(), b.poly()))
            else:
                out.append(isinstance(b, Ptr) and b.r == a.r and b.o.same(a.o))
        return band(*out)


MEMO = [True]


class Fun:
    """one function verified: collects obligations with the function's name"""

    def __init__(self, fname, **k):
        self.fname = fname
        self.v = Verifier(module(k.pop("defs", ('VERSION="v"',))), **k)
        if not MEMO[0]:
            self.v.memo = None
        self.v.deadline = time.time() + float(os.environ.get("VP_RVC_DEADLINE", "240"))
        self.st = State()
        self.t0 = time.time()
        self.probes = 0
        self.extra = []

    def run(self, args, name=None):
        self.v.shared(self.st)
        self.outs = self.v.run(self.st.copy(), "@" + (name or self.fname), args)
        return self.outs

    def post(self, name, st, c, text=""):
        self.v.fn = self.fname
        self.v.oblige(st, "%s: %s" % (self.fname, name), c, self.fname, 0, text or name)

    def probe(self, name, sts, c=lambda s: True):
        """reachability: some outcome satisfies c"""
        ok = any(self.v.check(s.pc + [zb(c(s))], 5.0) != "unsat" for s in sts)
        o = Obligation("%s: reachable: %s" % (self.fname, name), "proved" if ok else "vacuous", "rvc/z3", name, self.fname, self.fname)
        o.probe = True
        self.extra.append(o)


def collect(fun, group=True):
    """obligations of a Fun, one per (function, name, line)"""
    if hasattr(fun, "obs"):
        return fun.obs
    d = {}
    for o in fun.v.obs:
        k = (o.name, o.where) if o.name.startswith(("bounds", "frame", "pre")) else (o.name, "")
        nm = "%s/%s" % (fun.fname, o.name) if o.name.startswith(("bounds", "frame", "pre")) else o.name
        if k not in d:
            d[k] = Obligation(nm, o.status, o.backend, o.text, o.where, o.func, 0, o.detail)
            d[k].n = 0
        x = d[k]
        x.n += 1
        x.wall += o.wall
        rank = {"proved": 0, "unknown": 1, "failed": 2}
        if rank[o.status] > rank[x.status]:
            x.status, x.detail = o.status, o.detail
    return list(d.values()) + fun.extra


def guarded(fname, thunk):
    """run a verification; what cannot be brought within reach becomes an undecided obligation"""
    t = time.time()
    try:
        MEMO[0] = True
        try:
            fun = thunk()
        except Unsupported:
            if time.time() - t > 60:
                raise
            MEMO[0] = False
            fun = thunk()
        obs = collect(fun)
        if any(o.status != "proved" for o in obs) and MEMO[0] and fun.v.loops and not hasattr(fun, "obs"):
            MEMO[0] = False
            f2 = thunk()
            o2 = collect(f2)
            if sum(o.status != "proved" for o in o2) < sum(o.status != "proved" for o in obs):
                fun, obs = f2, o2
        info = {"function": fname, "wall_s": round(time.time() - t, 1), "queries": fun.v.stats.q, "solver_s": round(fun.v.stats.t, 1),
                "paths": len(getattr(fun, "outs", [])), "loops": fun.v.loops[-6:], "inlined": sorted(fun.v.inlined),
                "contracts_used": sorted(fun.v.used), "invariant_obligations": getattr(fun.v, "inv_count", 0)}
        return obs, info
    except (Unsupported, Budget) as e:
        o = Obligation(fname + ": within reach of the verifier", "unknown", "rvc", str(e), fname, fname, time.time() - t,
                       "not verifiable: %s %s" % (type(e).__name__, e))
        return [o], {"function": fname, "error": str(e), "wall_s": round(time.time() - t, 1)}
    except Exception as e:
        import traceback
        o = Obligation(fname + ": within reach of the verifier", "unknown", "rvc", str(e), fname, fname, time.time() - t,
                       "verifier error: " + traceback.format_exc()[-1500:])
        return [o], {"function": fname, "error": repr(e), "wall_s": round(time.time() - t, 1)}


# ---------------------------------------------------------------- C05 / C04
def stats_pre(T, st, SUM, SQ, g, wmin, wmax, err=None):
    """the statistics describe the stored values; bounds instantiated at the given indices"""
    v0 = T.v0
    N = T.N
    st.add(bnot(v0["e"].nan))
    st.add(bnot(v0["e2"].nan))
    st.add(req(v0["e"].p, SUM.at(N) + (err[0] if err else 0)))
    st.add(req(v0["e2"].p, SQ.at(N) + (err[1] if err else 0)))
    st.add(imp(ieq(N, 0), band(v0["min"].nan, v0["max"].nan)))
    some = ilt(0, N)
    for x, w, up in (("min", wmin, False), ("max", wmax, True)):
        st.add(imp(some, band(bnot(v0[x].nan), ile(0, w), ilt(w, N), req(v0[x].p, T.D(w)))))
        for k in list(g) + [wmin, wmax]:
            b = rle(T.D(k), v0[x].p) if up else rle(v0[x].p, T.D(k))
            st.add(imp(band(ile(0, k), ilt(k, N)), b))
    # the folds at both window sizes
    st.add(imp(T.full, req(SUM.at(N), SUM.at(T.cap))))
    st.add(imp(T.full, req(SQ.at(N), SQ.at(T.cap))))
    st.add(imp(z3.Not(T.full), req(SUM.at(N), SUM.at(T.cur))))
    st.add(imp(z3.Not(T.full), req(SQ.at(N), SQ.at(T.cur))))


def fold_now(T, st, fo, g, t):
    """fold over the current content of the window: base fold corrected by the stores"""
    r = fo.at(t)
    seen = []
    content = lambda k, n: (T.read_upto(st, k, n))
    arr = st.regs[T.arr]
    for n, (j, x) in enumerate(arr.stores):
        prev = Arr(arr.name, 8, arr.n, D_, base=arr.base, stores=arr.stores[:n]).at(j).p
        dlt = g(x.p) - g(prev)
        r = r + of_z3(z3.If(zb(band(ile(0, j), ilt(j, t))), dlt.zr(), z3.RealVal(0)), False)
    return r


def v_push(fname="peaks_push", drift=False):
    """peaks_push / tail_push: window and statistics; drift: whatever error the sums carry
    before, they are exact once a value that bounded the window has left it"""
    fu = Fun(fname, contracts=MATH, templates=[t_ints, t_floats, t_extreme])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Tail" if fname == "tail_push" else "Peaks")
    SUM = Fold("SUM", lambda k: T.D(k))
    SQ = Fold("SQ", lambda k: T.D(k) * T.D(k))
    g, wmin, wmax = int_var("g"), int_var("wmin"), int_var("wmax")
    x = real_var("x")
    stats_pre(T, st, SUM, SQ, [g, T.cur], wmin, wmax, (real_var("err"), real_var("err2")) if drift else None)
    v.axioms = [SUM.axioms, SQ.axioms]
    ident, sq = (lambda p: p), (lambda p: p * p)

    class Now:
        """fold over the written window, used by the loop templates"""
        def __init__(self, fo, f):
            self.fo, self.f, self.label = fo, f, fo.name + "'"

        def at(self, t):
            return fold_now(T, self.s, self.fo, self.f, t)
    n1, n2 = Now(SUM, ident), Now(SQ, sq)

    def t_now(v, lc):
        n1.s = n2.s = lc.st0
        return []
    v.templates = [t_now] + v.templates
    v.folds = [n1, n2]
    v.terms = [T.cap, T.cur]
    v.ext = {"read": T.read, "g": g, "witness": [wmin, wmax, T.cur], "n": T.cap}
    outs = fu.run([T.ptr(), F(False, x)])
    if drift:
        old = T.D(T.cur)
        far = lambda s: band(T.full, bor(rle(old, T.get(s, "min").p), rle(T.get(s, "max").p, old)))
        for s, _ in outs:
            for nm, fld, fo, f in (("sum", "e", SUM, ident), ("sum of squares", "e2", SQ, sq)):
                y = T.get(s, fld)
                fu.post("%s does not depend on earlier rounding once an extreme value left" % nm, s,
                        imp(far(s), band(bnot(y.nan), req(y.p, fold_now(T, s, fo, f, T.cap)))))
        fu.probe("an extreme value leaves", [s for s, _ in outs], far)
        return fu
    for s, _ in outs:
        cap2, cur2, fil2 = T.pget(s, "capacity"), T.pget(s, "cursor"), T.pget(s, "filled")
        fu.post("capacity and storage unchanged", s, T.same(s, ["capacity", "data"]))
        fu.post("the value is stored at the cursor", s, req(T.read(s, T.cur), x))
        fu.post("no other stored value changes", s,
                imp(band(ile(0, g), ilt(g, T.cap), bnot(ieq(g, T.cur))), req(T.read(s, g), T.D(g))))
        fu.post("the cursor advances cyclically", s,
                bor(band(ieq(T.cur + 1, T.cap), ieq(cur2, 0), ieq(fil2, 1)),
                    band(ilt(T.cur + 1, T.cap), ieq(cur2, T.cur + 1), ieq(fil2, T.fil))))
        le = T.get(s, "last_erased_data")
        fu.post("the evicted value is reported, NaN if none", s,
                bor(band(T.full, bnot(le.nan), req(le.p, T.D(T.cur))), band(z3.Not(T.full), le.nan)))
        for nm, fld, fo, f in (("sum", "e", SUM, ident), ("sum of squares", "e2", SQ, sq)):
            y = T.get(s, fld)
            for nn, c, t in (("full", ieq(fil2, 1), T.cap), ("not full", ieq(fil2, 0), cur2)):
                fu.post("%s is that of the stored values (window %s)" % (nm, nn), s,
                        imp(c, band(bnot(y.nan), req(y.p, fold_now(T, s, fo, f, t)))))
        for fld, up in (("min", False), ("max", True)):
            y = T.get(s, fld)
            for nn, c, t in (("full", ieq(fil2, 1), T.cap), ("not full", ieq(fil2, 0), cur2)):
                b = rle(T.read(s, g), y.p) if up else rle(y.p, T.read(s, g))
                fu.post("%s bounds every stored value (window %s)" % (fld, nn), s,
                        imp(band(c, ile(0, g), ilt(g, t)), band(bnot(y.nan), b)))
                ws = [wmin, wmax, T.cur] + list(s.ghost.get("wit", ())) + s.pool[-6:]
                fu.post("%s is a stored value (window %s)" % (fld, nn), s,
                        imp(c, band(bnot(y.nan), bor(*[band(ile(0, k), ilt(k, t), req(y.p, T.read(s, k))) for k in ws]))))
        if fname == "tail_push":
            fu.post("the fitted parameters are not touched", s, T.same(s, ["gamma", "sigma"]))
    fu.probe("insertion without eviction", [s for s, _ in outs], lambda s: z3.Not(T.full))
    fu.probe("insertion with eviction", [s for s, _ in outs], lambda s: T.full)
    return fu


def v_init(fname="peaks_init"):
    """peaks_init: an empty window with empty statistics"""
    fu = Fun(fname, contracts=MATH, templates=[t_ints])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Peaks")
    n = int_var("n")
    st.add(ile(0, n))
    st.add(ilt(n, 1 << 64))

    def c_malloc(v, st, a, line):
        v.oblige(st, "pre: exactly the storage of the requested values", ieq(a[0].poly(), n * 8), v.fn, line)
        s2 = st.copy()
        st.regs["NEW"] = Arr("NEW", 8, n, D_)
        st.trace.append(("malloc", True))
        s2.trace.append(("malloc", False))
        return [(st, Ptr("NEW", 0)), (s2, NULL)]
    v.contracts = dict(v.contracts)
    v.contracts["@xmalloc"] = c_malloc
    outs = fu.run([T.ptr(), I(64, n)])
    ok = []
    for s, r in outs:
        e, e2, mn, mx = [T.get(s, x) for x in ("e", "e2", "min", "max")]
        fu.post("sums start at zero", s, band(bnot(e.nan), req(e.p, 0), bnot(e2.nan), req(e2.p, 0)))
        fu.post("minimum and maximum of nothing are undefined", s, band(mn.nan, mx.nan))
        d = T.get(s, "data")
        got = isinstance(d, Ptr) and d.r == "NEW" and d.o.same(0)
        fu.post("success exactly when storage was obtained", s, ieq(r.poly(), 0 if got else (1 << 32) - 1000))
        if got:
            ok.append(s)
            fu.post("the window is empty", s, band(ieq(T.pget(s, "cursor"), 0), ieq(T.pget(s, "filled"), 0), T.get(s, "last_erased_data").nan))
            fu.post("capacity as requested", s, band(ieq(T.pget(s, "capacity"), n), ile(1, n)))
    fu.probe("success", ok)
    fu.probe("failure", [s for s, r in outs if s not in ok])
    return fu


def sizes(T):
    """the two shapes of a window: (name, condition, number of stored values)"""
    return (("full", T.full, T.cap), ("not full", z3.Not(T.full), T.cur))


def peaks_pre(T, st):
    """statistics of a non-empty window, as established by C05"""
    SUM = Fold("SUM", lambda k: T.D(k))
    SQ = Fold("SQ", lambda k: T.D(k) * T.D(k))
    v0 = T.v0
    for x in ("e", "e2", "min", "max"):
        st.add(bnot(v0[x].nan))
    for _, c, t in sizes(T):
        st.add(imp(c, band(ile(1, t), req(v0["e"].p, SUM.at(t)), req(v0["e2"].p, SQ.at(t)))))
    return SUM, SQ


def v_moments(fname):
    """peaks_mean / peaks_var / peaks_size of the stored values"""
    fu = Fun(fname, contracts=MATH, templates=[t_ints, t_floats])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Peaks", ro=True)
    SUM, SQ = peaks_pre(T, st)
    v.axioms = [SUM.axioms, SQ.axioms]
    v.folds, v.terms = [SUM, SQ], [T.cap, T.cur]
    outs = fu.run([T.ptr()])
    for s, r in outs:
        for nn, c, t in sizes(T):
            m = SUM.at(t) * inv(t)
            if fname == "peaks_mean":
                fu.post("mean of the stored values (window %s)" % nn, s, imp(c, band(bnot(r.nan), req(r.p, m))))
            elif fname == "peaks_var":
                fu.post("population variance of the stored values (window %s)" % nn, s,
                        imp(c, band(bnot(r.nan), req(r.p, SQ.at(t) * inv(t) - m * m))))
            else:
                fu.post("number of stored values (window %s)" % nn, s, imp(c, ieq(r.poly(), t)))
    for nn, c, t in sizes(T):
        fu.probe("window " + nn, [s for s, _ in outs], lambda s, c=c: c)
    return fu


def v_lemmas_stats():
    """the algebraic reading of the statistics"""
    fu = Fun("statistics lemmas")
    v, st = fu.v, fu.st
    D = lambda k: app("D", [P(k)], "i", "r")
    SUM = Fold("SUM", D)
    SQ = Fold("SQ", lambda k: D(k) * D(k))
    t, m, M = int_var("t"), real_var("m"), real_var("M")
    v.axioms = [SUM.axioms, SQ.axioms]
    # min * t <= SUM(t) <= max * t by induction on t
    s = st.copy()
    s.add(ile(0, t))
    s.add(rle(m, D(t)))
    s.add(rle(D(t), M))
    s.add(rle(m * t, SUM.at(t)))
    s.add(rle(SUM.at(t), M * t))
    fu.post("t*min <= sum <= t*max, base", st, band(rle(m * 0, SUM.at(0)), rle(SUM.at(0), M * 0)))
    fu.post("t*min <= sum <= t*max, step", s, band(rle(m * (t + 1), SUM.at(t + 1)), rle(SUM.at(t + 1), M * (t + 1))))
    # population variance: sum (x-c)^2 = SQ - 2 c SUM + t c^2, so with c the mean it is N * var
    c = real_var("c")
    DEV = Fold("DEV", lambda k: (D(k) - c) * (D(k) - c))
    s = st.copy()
    s.add(req(DEV.at(t), SQ.at(t) - 2 * c * SUM.at(t) + c * c * t))
    fu.post("sum of squared deviations, base", st, req(DEV.at(0), SQ.at(0) - 2 * c * SUM.at(0)))
    fu.post("sum of squared deviations, step", s, req(DEV.at(t + 1), SQ.at(t + 1) - 2 * c * SUM.at(t + 1) + c * c * (t + 1)))
    n, S, Q = real_var("n"), real_var("S"), real_var("Q")
    s = st.copy()
    s.add(rlt(0, n))
    mean = S * inv(n)
    fu.post("variance = mean squared deviation from the mean", s,
            req((Q - 2 * mean * S + mean * mean * n) * inv(n), Q * inv(n) - mean * mean))
    fu.outs = []
    return fu


# --------------------------------------------------------------- C16 / C06
def domain_axiom(T, x, sizeconds):
    """1 + x*D[k] > 0 for every stored k"""
    def ax(apps):
        out = []
        for e in apps:
            if e.decl().name() == T.arr:
                k = of_z3(e.arg(0), True)
                for _, c, t in sizeconds:
                    out.append(imp(band(c, ile(0, k), ilt(k, t)), (1 + x.zr() * e) > 0))
        return out
    return ax


def t_poison(v, lc):
    k0 = getattr(v, "poison", None)
    if k0 is None:
        return []
    out = []
    w0 = lc.init_view()
    for n, g in lc.floats.items():
        for m, h in lc.ints.items():
            out.append(Cand("%s NaN once %s passed the offending element" % (n, m), lambda w, g=g, h=h: imp(ilt(k0, h(w)), g(w).nan)))
            out.append(Cand("%s NaN once %s passed the offending element (down)" % (n, m), lambda w, g=g, h=h: imp(ile(h(w), k0), g(w).nan)))
            try:
                i0 = h(w0)
            except Skip:
                continue
            out.append(Cand("%s NaN once %s passed the offending element (count)" % (n, m), lambda w, g=g, h=h, i0=i0: imp(ilt(k0, i0 - h(w)), g(w).nan)))
            out.append(Cand("%s <= offending element or %s NaN" % (m, n), lambda w, g=g, h=h: bor(ile(h(w), k0), g(w).nan)))
    return out


def v_loglik(case):
    """log_likelihood(peaks, gamma, sigma): case zero / shape / undefined"""
    fu = Fun("log_likelihood", contracts=MATH, templates=[t_ints, t_floats, t_poison])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Peaks", ro=True)
    SUM, SQ = peaks_pre(T, st)
    ga, si = real_var("gamma"), real_var("sigma")
    st.add(rlt(0, si))
    st.add(req(ga, 0) if case == "zero" else rne(ga, 0))
    x = ga * inv(si)
    LOGS = Fold("LOGS", lambda k: LOG(1 + x * T.D(k)))
    v.axioms = [SUM.axioms, LOGS.axioms]
    if case != "undefined":
        v.axioms.append(domain_axiom(T, x, sizes(T)))
    c = 1 + inv(ga)
    v.coefs = [("", P(1)), ("-", P(-1)), ("-c*", -c), ("c*", c), ("1/sigma*", inv(si)), ("-1/sigma*", -inv(si)), ("1/N*", inv(T.cap)), ("1/n*", inv(T.cur))]
    v.folds = [SUM] if case == "zero" else [LOGS]
    v.terms = [T.cap, T.cur]
    if case == "undefined":
        k0 = int_var("k0")
        v.poison = k0
        v.folds = []
        st.add(ile(0, k0))
        for _, cc, t in sizes(T):
            st.add(imp(cc, ilt(k0, t)))
        st.add(rlt(1 + x * T.D(k0), 0))
        # the product is what the code tests: keep it visible for the offending element
    outs = fu.run([T.ptr(), F(False, ga), F(False, si)])
    for s, r in outs:
        for nn, cc, t in sizes(T):
            if case == "zero":
                fu.post("exponential log-likelihood of the stored values (window %s)" % nn, s,
                        imp(cc, band(bnot(r.nan), req(r.p, -t * LOG(si) - SUM.at(t) * inv(si)))))
            elif case == "shape":
                fu.post("generalized Pareto log-likelihood of the stored values (window %s)" % nn, s,
                        imp(cc, band(bnot(r.nan), req(r.p, -t * LOG(si) - c * LOGS.at(t)))))
            else:
                fu.post("NaN when a stored value is out of the support (window %s)" % nn, s, imp(cc, r.nan))
    for nn, cc, t in sizes(T):
        fu.probe("window " + nn, [s for s, _ in outs], lambda s, cc=cc: cc)
    return fu


def LLV(g, s):
    return F(app("LLNAN", [g, s], "rr", "b"), app("LL", [g, s], "rr"))


def c_loglik(T):
    def c(v, st, a, line):
        """log_likelihood (C16): a function of the unchanged stored values, shape and scale"""
        ok = isinstance(a[0], Ptr) and a[0].r == T.rid and a[0].o.same(T.poff)
        v.oblige(st, "pre: log_likelihood of the tail's own peaks", ok, v.fn, line)
        g, s = a[1], a[2]
        r = LLV(g.p, s.p)
        st.trace.append(("ll", g, s))
        return [(st, F(bor(g.nan, s.nan, r.nan), r.p))]
    return c


def v_mom():
    fu = Fun("mom_estimator", contracts=dict(MATH), templates=[t_ints, t_floats])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Peaks", ro=True)
    v.contracts["@log_likelihood"] = c_loglik(T)
    SUM, SQ = peaks_pre(T, st)
    v.axioms = [SUM.axioms, SQ.axioms]
    v.folds, v.terms = [SUM, SQ], [T.cap, T.cur]
    st.regs["G"], st.regs["S"] = Cells(8), Cells(8)
    outs = fu.run([T.ptr(), Ptr("G", 0), Ptr("S", 0)])
    for s, r in outs:
        g, si = s.cell("G", 0), s.cell("S", 0)
        for nn, c, t in sizes(T):
            E = SUM.at(t) * inv(t)
            V = SQ.at(t) * inv(t) - E * E
            ok = imp(c, rne(V, 0))
            s1 = s.copy()
            s1.add(c)
            # the statistics of this window shape
            s1.add(rne(V, 0))
            R = E * E * inv(V)
            fu.post("moment shape (window %s)" % nn, s1, band(bnot(g.nan), req(g.p, (1 - R) * Fraction(1, 2))))
            fu.post("moment scale (window %s)" % nn, s1, band(bnot(si.nan), req(si.p, E * (1 + R) * Fraction(1, 2))))
        L = LLV(g.p, si.p)
        fu.post("returns the log-likelihood of the pair", s, feq(r, F(bor(g.nan, si.nan, L.nan), L.p)))
    fu.probe("returns", [s for s, _ in outs])
    return fu


EPS = Fraction(2.0e-8)


def v_grimshaw():
    fu = Fun("grimshaw_estimator", contracts=dict(MATH), templates=[t_ints, t_floats])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Peaks", ro=True)
    v.contracts["@log_likelihood"] = c_loglik(T)
    SUM, SQ = peaks_pre(T, st)
    mini, maxi = T.v0["min"].p, T.v0["max"].p
    e = T.v0["e"].p
    # excesses are not negative, and not all of them are zero
    st.add(rle(0, mini))
    st.add(rle(mini, maxi))
    st.add(rlt(0, maxi))
    v.axioms = [SUM.axioms, SQ.axioms]
    v.folds, v.terms = [SUM], [T.cap, T.cur]
    v.coefs = [("", P(1)), ("-", P(-1)), ("1/N*", inv(T.cap)), ("1/n*", inv(T.cur))]
    cbs = {}
    roots = []

    def c_brent(v, st, a, line):
        """brent (C14): found is 0 or 1; a reported root lies in the bracket"""
        fp, x1, x2, fn, extra, tol = a
        v.oblige(st, "pre: brent searches with the tail's own peaks",
                 isinstance(extra, Ptr) and extra.r == T.rid and extra.o.same(T.poff), v.fn, line)
        v.oblige(st, "pre: brent searches a function of the library", isinstance(fn, Fn) and fn.name in v.mod.funcs, v.fn, line)
        if isinstance(fn, Fn):
            cbs[fn.name] = line
        v.oblige(st, "pre: brent tolerance", band(bnot(tol.nan), rlt(0, tol.p), rle(tol.p, EPS)), v.fn, line)
        out = []
        for f in (0, 1):
            for s in v.store(st.copy(), fp, I32, ival(32, f), line):
                if f:
                    r = fresh_real("root")
                    fo = Fold("LOGS_%s" % r.single_atom().z, lambda k, r=r: LOG(1 + r * T.D(k)))
                    fo.label = "LOGS_root%d" % sum(1 for t in s.trace if t[0] == "brent")
                    v.axioms.append(fo.axioms)
                    v.axioms.append(domain_axiom(T, r, sizes(T)))
                    s.add(rne(r, 0))
                    s.trace.append(("brent", x1, x2, f, r, fo))
                    out.append((s, F(False, r)))
                else:
                    s.trace.append(("brent", x1, x2, f, None, None))
                    out.append((s, v.fresh(D_, "noroot", s)))
        return out
    v.contracts["@brent"] = c_brent
    st.regs["G"], st.regs["S"] = Cells(8), Cells(8)
    # the exponential candidate has a likelihood
    for _, c, t in sizes(T):
        st.add(imp(c, bnot(LLV(P(0), e * inv(t)).nan)))
    outs = fu.run([T.ptr(), Ptr("G", 0), Ptr("S", 0)])
    half = Fraction(1, 2)
    epsz = of_z3(z3.If(rlt(EPS, inv(maxi) * half), P(EPS).zr(), (inv(maxi) * half).zr()), False)
    for s, r in outs:
        g, si = s.cell("G", 0), s.cell("S", 0)
        br = [t for t in s.trace if t[0] == "brent"]
        for nn, c, t in sizes(T):
            if not v.feasible(s, c):
                continue
            s1 = s.copy()
            s1.add(c)
            mean = e * inv(t)
            C = [(P(0), mean)]
            for b in br:
                if b[3]:
                    ga = b[5].at(t) * inv(t)
                    C.append((ga, ga * inv(b[4])))
            fu.post("the pair is the exponential candidate or given by a found root (window %s)" % nn, s1,
                    band(bnot(g.nan), bnot(si.nan), bor(*[band(req(g.p, x), req(si.p, y)) for x, y in C])))
            for x, y in C:
                L = LLV(x, y)
                fu.post("no candidate is more likely (window %s)" % nn, s1,
                        imp(bnot(L.nan), band(bnot(r.nan), rle(L.p, r.p))))
            fu.post("returns the log-likelihood of the pair (window %s)" % nn, s1, band(bnot(r.nan), req(r.p, LLV(g.p, si.p).p)))
            for side, lo, hi in (("left", -inv(maxi) + epsz, -epsz), ("right", epsz, 2 * (mean - mini) * inv(mini) * inv(mini))):
                # (the right bracket is unbounded when an excess is zero)
                fu.post("a root is searched on the %s bracket (window %s)" % (side, nn), s1,
                        bor(side == "right" and req(mini, 0), *[band(bnot(b[1].nan), bnot(b[2].nan),
                                   bor(band(req(b[1].p, lo), req(b[2].p, hi)), band(req(b[1].p, hi), req(b[2].p, lo)))) for b in br]))
    fu.probe("both roots found", [s for s, _ in outs], lambda s: sum(1 for t in s.trace if t[0] == "brent" and t[3]) >= 2)
    fu.probe("no root found", [s for s, _ in outs], lambda s: not any(t[0] == "brent" and t[3] for t in s.trace))
    fu.callbacks = sorted(cbs)
    # the brackets stay inside the support: 1 + r*d > 0 for 0 <= d <= max
    r_, d_, M_, ep = real_var("r_"), real_var("d_"), real_var("M_"), real_var("eps_")
    s = State()
    for c in (rlt(0, M_), rlt(0, ep), rle(0, d_), rle(d_, M_), rle(-inv(M_) + ep, r_)):
        s.add(c)
    fu.post("lemma: roots of the left bracket keep every excess in the support", s, rlt(0, 1 + r_ * d_))
    for n in fu.callbacks:
        f2 = v_callback(n)
        for o in collect(f2):
            if getattr(o, "probe", False):
                fu.extra.append(o)
            else:
                fu.v.obs.append(o)
        fu.v.loops += f2.v.loops
        fu.v.inv_count = getattr(fu.v, "inv_count", 0) + getattr(f2.v, "inv_count", 0)
        fu.v.stats.q += f2.v.stats.q
        fu.v.stats.t += f2.v.stats.t
    return fu


def v_callback(name):
    """the function given to the root search is the Grimshaw equation of the stored values"""
    fu = Fun(name[1:], contracts=dict(MATH), templates=[t_ints, t_floats])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Peaks", ro=True)
    SUM, SQ = peaks_pre(T, st)
    x = real_var("x")
    LOGS = Fold("LOGS", lambda k: LOG(1 + x * T.D(k)))
    INVS = Fold("INVS", lambda k: inv(1 + x * T.D(k)))
    v.axioms = [LOGS.axioms, INVS.axioms, domain_axiom(T, x, sizes(T))]
    v.folds, v.terms = [LOGS, INVS], [T.cap, T.cur]
    v.coefs = [("", P(1)), ("-", P(-1)), ("1/N*", inv(T.cap)), ("1/n*", inv(T.cur))]
    outs = fu.run([F(False, x), T.ptr()])
    for s, r in outs:
        for nn, c, t in sizes(T):
            n = inv(t)
            fu.post("is the Grimshaw equation of the stored values (window %s)" % nn, s,
                    imp(c, band(bnot(r.nan), req(r.p, INVS.at(t) * n * (1 + LOGS.at(t) * n) - 1))))
    fu.probe("returns", [s for s, _ in outs])
    return fu


def v_tailfit():
    fu = Fun("tail_fit", contracts=dict(MATH), templates=[t_ints, t_floats])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Tail")
    v.terms = []
    C = {}

    def est(n):
        r = (F(z3.Bool("nan_g" + n), real_var("g" + n)), F(z3.Bool("nan_s" + n), real_var("s" + n)), F(z3.Bool("nan_l" + n), real_var("l" + n)))
        C[n] = r

        def c(v, st, a, line):
            """an estimator (C16, C06): a function of the stored values only"""
            ok = isinstance(a[0], Ptr) and a[0].r == T.rid and a[0].o.same(T.poff)
            v.oblige(st, "pre: estimator applied to the tail's own peaks", ok, v.fn, line)
            v.oblige(st, "pre: estimator applied to the unchanged peaks", frame(T, st), v.fn, line)
            out = []
            for s in v.store(st, a[1], D_, r[0], line):
                for s2 in v.store(s, a[2], D_, r[1], line):
                    out.append((s2, r[2]))
            return out
        return c
    v.contracts["@mom_estimator"] = est("mom")
    v.contracts["@grimshaw_estimator"] = est("grimshaw")
    outs = fu.run([T.ptr()])
    for s, r in outs:
        g, si = T.get(s, "gamma"), T.get(s, "sigma")
        for n, (x, y, l) in C.items():
            fu.post("not less likely than the %s candidate" % n, s, imp(bnot(l.nan), band(bnot(r.nan), rle(l.p, r.p))))
        fu.post("stores the pair whose log-likelihood is returned", s,
                imp(bnot(r.nan), bor(*[band(bnot(l.nan), req(l.p, r.p), feq(g, x), feq(si, y)) for x, y, l in C.values()])))
        fu.post("modifies nothing but the two parameters", s, frame(T, s))
    for n, (x, y, l) in C.items():
        fu.probe("only %s defined" % n, [s for s, _ in outs],
                 lambda s, n=n: band(*[(bnot(c[2].nan) if m == n else c[2].nan) for m, c in C.items()]))
    return fu


def frame(T, st):
    """the statistics and the window are untouched"""
    names = [x for x in T.v0 if x not in ("gamma", "sigma")]
    return band(T.same(st, names), st.regs[T.arr].stores == () and st.regs[T.arr].base == T.arr)


# ---------------------------------------------------------------------- C07
def log_axioms(apps):
    """EXP and LOG are inverse, EXP is positive and increasing"""
    out = []
    ex = [e for e in apps if e.decl().name() == "EXP"]
    lg = [e for e in apps if e.decl().name() == "LOG"]
    EX, LG = uf("EXP", "r", "r"), uf("LOG", "r", "r")
    for e in ex:
        out.append(e > 0)
        out.append(LG(e) == e.arg(0))
    for e in lg:
        out.append(z3.Implies(e.arg(0) > 0, EX(e) == e.arg(0)))
        out.append(z3.Implies(e.arg(0) == 1, e == 0))
    for a, b in itertools.permutations(ex, 2):
        out.append(z3.Implies(a.arg(0) < b.arg(0), a < b))
        out.append(z3.Implies(a.arg(0) == b.arg(0), a == b))
    for a, b in itertools.permutations(lg, 2):
        out.append(z3.Implies(z3.And(a.arg(0) > 0, a.arg(0) < b.arg(0)), a < b))
    return out


def q_formula(ga, si, s, q, zero):
    if zero:
        return -si * LOG(q * inv(s))
    return si * inv(ga) * (EXP(-ga * LOG(q * inv(s))) - 1)


def p_formula(ga, si, s, d, zero):
    if zero:
        return s * EXP(-d * inv(si))
    return s * EXP(-inv(ga) * LOG(1 + ga * d * inv(si)))


def v_tailq(fname):
    """tail_quantile, tail_probability, spot_quantile, spot_probability"""
    spot = fname.startswith("spot")
    fu = Fun(fname, contracts=dict(MATH))
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Spot" if spot else "Tail", ro=True)
    g, si = T.v0["gamma"], T.v0["sigma"]
    for x in ("gamma", "sigma"):
        st.add(bnot(T.v0[x].nan))
    st.add(rlt(0, si.p))
    if spot:
        for x in ("__up_down", "excess_threshold", "q"):
            st.add(bnot(T.v0[x].nan))
        ud, low = T.v0["__up_down"].p, T.v0["low"].p
        st.add(bor(band(ieq(low, 0), req(ud, 1)), band(ieq(low, 1), req(ud, -1))))
        n, Nt, t = T.v0["n"].p, T.v0["Nt"].p, T.v0["excess_threshold"].p
        st.add(ile(1, Nt))
        st.add(ile(Nt, n))
        st.add(ile(n, MAXN))
        s_ = Nt * inv(n)
        z = real_var("z")
        args = [T.ptr(), F(False, z)]
        if fname == "spot_quantile":
            st.add(rlt(0, z))
    else:
        s_ = real_var("s")
        st.add(rlt(0, s_))
        z = real_var("z")
        args = [T.ptr(), F(False, s_), F(False, z)]
        if fname == "tail_quantile":
            st.add(rlt(0, z))
    outs = fu.run(args)
    quant = fname.endswith("quantile")
    for s, r in outs:
        if not spot:
            sides = [("", True, None)]
        else:
            sides = [("upper", ieq(low, 0), 1), ("lower", ieq(low, 1), -1)]
        for sn, sc, sg in sides:
            for nm, zero in (("zero shape", True), ("nonzero shape", False)):
                c = band(sc, req(g.p, 0) if zero else rne(g.p, 0))
                d = z if not spot else sg * (z - t) if not quant else z
                if quant:
                    f = q_formula(g.p, si.p, s_, z, zero)
                    if spot:
                        f = t + sg * f
                    fu.post("quantile formula, %s %s" % (nm, sn), s, imp(c, band(bnot(r.nan), req(r.p, f))))
                else:
                    f = p_formula(g.p, si.p, s_, d, zero)
                    sup = rlt(0, 1 + g.p * d * inv(si.p))
                    if zero:
                        fu.post("probability formula, %s %s" % (nm, sn), s, imp(c, band(bnot(r.nan), req(r.p, f))))
                    else:
                        fu.post("probability formula inside the support, %s %s" % (nm, sn), s,
                                imp(band(c, sup), band(bnot(r.nan), req(r.p, f))))
                        fu.post("zero beyond the end point of a bounded tail %s" % sn, s,
                                imp(band(sc, rlt(g.p, 0), bnot(sup)), band(bnot(r.nan), req(r.p, 0))))
    fu.probe("shape zero", [s for s, _ in outs], lambda s: req(g.p, 0))
    fu.probe("shape not zero", [s for s, _ in outs], lambda s: rne(g.p, 0))
    return fu


def v_lemmas_tail():
    """consequences of the formulas: inverse, monotone, bounded"""
    fu = Fun("tail lemmas")
    v = fu.v
    v.axioms = [log_axioms]
    v.tmo = 30.0
    ga, si, s_ = real_var("gamma"), real_var("sigma"), real_var("s")
    q, q1, q2, d1, d2 = (real_var(x) for x in ("q", "q1", "q2", "d1", "d2"))

    def base(zero):
        s = State()
        for c in (rlt(0, si), rlt(0, s_)):
            s.add(c)
        s.add(req(ga, 0) if zero else rne(ga, 0))
        return s
    for zero in (True, False):
        nm = "zero shape" if zero else "nonzero shape"
        # p(Q(q)) = q, in steps
        s = base(zero)
        s.add(rlt(0, q))
        Q = real_var("Q")
        L = LOG(q * inv(s_))
        if zero:
            s.add(req(Q, -si * L))
            s.add(req(-Q * inv(si), L))     # checked next
            s2 = base(zero)
            s2.add(rlt(0, q))
            s2.add(req(Q, -si * L))
            fu.post("inverse, exponent (%s)" % nm, s2, req(-Q * inv(si), L))
            E = real_var("E")
            s.add(req(E, EXP(L)))
            fu.post("probability of the quantile is q (%s)" % nm, s, req(s_ * EXP(L), q))
        else:
            e = EXP(-ga * L)
            s2 = base(zero)
            s2.add(rlt(0, q))
            s2.add(req(Q, si * inv(ga) * (e - 1)))
            fu.post("inverse, argument (%s)" % nm, s2, req(1 + ga * Q * inv(si), e))
            s3 = base(zero)
            s3.add(rlt(0, q))
            Ll = real_var("Ll")
            s3.add(req(Ll, -ga * L))
            fu.post("inverse, exponent (%s)" % nm, s3, req(-inv(ga) * Ll, L))
            fu.post("logarithm of the argument (%s)" % nm, s3, req(LOG(e), -ga * L))
            fu.post("probability of the quantile is q (%s)" % nm, s, req(s_ * EXP(L), q))
        # monotone
        s = base(zero)
        a, b = real_var("a"), real_var("b")     # a = log(q1/s), b = log(q2/s), q1 < q2
        s.add(rlt(0, q1))
        s.add(rlt(q1, q2))
        fu.post("smaller q, smaller logarithm (%s)" % nm, s, rlt(LOG(q1 * inv(s_)), LOG(q2 * inv(s_))))
        s = base(zero)
        s.add(rlt(a, b))
        if zero:
            fu.post("quantiles move outwards (%s)" % nm, s, rlt(-si * b, -si * a))
        else:
            ea, eb = real_var("ea"), real_var("eb")
            for sgn, c in (("positive", rlt(0, ga)), ("negative", rlt(ga, 0))):
                s2 = s.copy()
                s2.add(c)
                # e^(-ga a) against e^(-ga b)
                fu.post("exponentials ordered, %s shape" % sgn, s2,
                        rlt(EXP(-ga * b), EXP(-ga * a)) if sgn == "positive" else rlt(EXP(-ga * a), EXP(-ga * b)))
                s2.add(rlt(eb, ea) if sgn == "positive" else rlt(ea, eb))
                fu.post("quantiles move outwards, %s shape" % sgn, s2, rlt(si * inv(ga) * (eb - 1), si * inv(ga) * (ea - 1)))
        s = base(zero)
        s.add(rlt(d1, d2))
        s.add(rle(0, d1))
        if zero:
            fu.post("probabilities decrease (%s)" % nm, s, rlt(s_ * EXP(-d2 * inv(si)), s_ * EXP(-d1 * inv(si))))
            s.add(req(EXP(P(0)), 1))
            fu.post("probabilities stay within 0 and s (%s)" % nm, s,
                    band(rlt(0, s_ * EXP(-d1 * inv(si))), rle(s_ * EXP(-d1 * inv(si)), s_)))
        else:
            u1, u2 = real_var("u1"), real_var("u2")
            for sgn, c in (("positive", rlt(0, ga)), ("negative", rlt(ga, 0))):
                s2 = s.copy()
                s2.add(c)
                s2.add(req(u1, 1 + ga * d1 * inv(si)))
                s2.add(req(u2, 1 + ga * d2 * inv(si)))
                fu.post("arguments ordered, %s shape" % sgn, s2, band(rlt(u1, u2), rle(1, u1)) if sgn == "positive" else band(rlt(u2, u1), rle(u1, 1)))
                s3 = base(zero)
                s3.add(c)
                s3.add(rlt(0, u1))
                s3.add(rlt(0, u2))
                s3.add(band(rlt(u1, u2), rle(1, u1)) if sgn == "positive" else band(rlt(u2, u1), rle(u1, 1)))
                l1, l2 = LOG(u1), LOG(u2)
                s3.add(req(LOG(P(1)), 0))
                fu.post("logarithms ordered, %s shape" % sgn, s3, band(rlt(l1, l2), rle(0, l1)) if sgn == "positive" else band(rlt(l2, l1), rle(l1, 0)))
                s4 = base(zero)
                s4.add(c)
                m1, m2 = real_var("m1"), real_var("m2")
                s4.add(band(rlt(m1, m2), rle(0, m1)) if sgn == "positive" else band(rlt(m2, m1), rle(m1, 0)))
                fu.post("exponents ordered, %s shape" % sgn, s4, band(rlt(-inv(ga) * m2, -inv(ga) * m1), rle(-inv(ga) * m1, 0)))
                s5 = base(zero)
                x1, x2 = real_var("x1"), real_var("x2")
                s5.add(band(rlt(x2, x1), rle(x1, 0)))
                s5.add(req(EXP(P(0)), 1))
                fu.post("probabilities decrease within 0 and s, %s shape" % sgn, s5,
                        band(rlt(s_ * EXP(x2), s_ * EXP(x1)), rle(s_ * EXP(x1), s_), rlt(0, s_ * EXP(x2))))
    fu.outs = []
    return fu


# ---------------------------------------------------------------------- C13
def v_fit():
    fu = Fun("spot_fit", contracts=dict(MATH), templates=[t_ints])
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Spot")
    size = int_var("size")
    st.add(ile(0, size))
    st.add(ile(size, MAXN))
    st.regs["X"] = Arr("X", 8, size, D_, ro=True, nonan=False)
    ud, low, lev, q = T.v0["__up_down"], T.v0["low"].p, T.v0["level"], T.v0["q"]
    for x in ("__up_down", "level", "q"):
        st.add(bnot(T.v0[x].nan))
    st.add(bor(band(ieq(low, 0), req(ud.p, 1)), band(ieq(low, 1), req(ud.p, -1))))
    st.add(ieq(T.fil, 0))
    st.add(ieq(T.cur, 0))
    st.ghost["K"] = P(0)
    st.ghost["H"] = GArr("H")
    g = int_var("g")
    et = F(z3.Bool("nan_et"), real_var("et"))
    X = lambda k: F(app("nan_X", [P(k)], "i", "b"), app("X", [P(k)], "i", "r"))
    ex = lambda k: ud.p * (X(k).p - et.p)
    isx = lambda k: band(bnot(X(k).nan), rlt(0, ex(k)))
    CNT = Fold("CNT", lambda k: of_z3(z3.If(zb(isx(k)), z3.IntVal(1), z3.IntVal(0)), True), "i")
    v.axioms = [CNT.axioms]
    v.ifolds = [CNT]
    v.terms = [size]
    tail = T.off["gamma"] - layout()[("Tail", "gamma")]

    def own(a, what):
        # another way of passing the tail is beyond this contract (undecided, not wrong)
        ok = isinstance(a, Ptr) and a.r == T.rid and (a.o.same(tail) or (what == "push" and a.o.same(T.poff)))
        need(ok, "%s of something else than the detector's own tail" % what)

    def c_p2(v, st, a, line):
        need(isinstance(a[1], Ptr) and a[1].r == "X" and a[1].o.same(0), "quantile of another array")
        v.oblige(st, "pre: the quantile of the whole batch", ieq(a[2].poly(), size), v.fn, line)
        st.trace.append(("p2", a[0]))
        return [(st, et)]

    def c_push(v, st, a, line):
        own(a[0], "push")
        v.oblige(st, "pre: the pushed excess is a number", bnot(a[1].nan), v.fn, line)
        K = st.ghost["K"]
        st.ghost["H"] = st.ghost["H"].store(K, a[1])
        st.ghost["K"] = K + 1
        for x in ("e", "e2", "min", "max", "last_erased_data"):
            st.setcell(T.rid, T.off[x], D_, v.fresh(D_, x, st))
        for x in ("cursor", "filled"):
            st.setcell(T.rid, T.off[x], TY[x], v.fresh(TY[x], x, st))
        return [(st, None)]

    def c_fit(v, st, a, line):
        own(a[0], "fit")
        for x in ("gamma", "sigma"):
            st.setcell(T.rid, T.off[x], D_, v.fresh(D_, x, st))
        st.trace.append(("fit", st.ghost["K"], st.ghost["H"]))
        return [(st, v.fresh(D_, "llhood", st))]

    def c_tq(v, st, a, line):
        own(a[0], "quantile")
        r = v.fresh(D_, "tq", st)
        st.trace.append(("tq", a[1], a[2], r, st.ghost["K"]))
        return [(st, r)]
    v.contracts.update({"@p2_quantile": c_p2, "@tail_push": c_push, "@peaks_push": c_push, "@tail_fit": c_fit, "@tail_quantile": c_tq})

    def t_hist(v, lc):
        out = []
        for m, h in lc.ints.items():
            out.append(Cand("an excess before %s is counted" % m,
                            lambda w, h=h: imp(band(ile(0, g), ilt(g, h(w)), isx(g)), band(ile(0, CNT.at(g)), ilt(CNT.at(g), CNT.at(h(w)))))))
            out.append(Cand("%s(%s) is not negative" % ("CNT", m), lambda w, h=h: ile(0, CNT.at(h(w)))))
            out.append(Cand("CNT(%s) <= %s" % (m, m), lambda w, h=h: ile(CNT.at(h(w)), h(w))))
            out.append(Cand("CNT(%s) bounds CNT(g)" % m, lambda w, h=h: imp(ile(g, h(w)), ile(CNT.at(g), CNT.at(h(w))))))
            out.append(Cand("CNT(g) not negative once %s reached g" % m, lambda w, h=h: imp(band(ile(0, g), ile(g, h(w))), ile(0, CNT.at(g)))))
            out.append(Cand("the excesses before %s are the history" % m,
                            lambda w, h=h: imp(band(ile(0, g), ilt(g, h(w)), isx(g)),
                                               band(ilt(CNT.at(g), w.st.ghost["K"]), feq(w.st.ghost["H"].at(CNT.at(g)), F(False, ex(g)))))))
        return out
    v.templates.append(t_hist)
    outs = fu.run([T.ptr(), Ptr("X", 0), I(64, size)])
    ERR = lambda n: (1 << 32) - n
    okp = []
    for s, r in outs:
        n, Nt = T.pget(s, "n"), T.pget(s, "Nt")
        p2 = [t for t in s.trace if t[0] == "p2"]
        fit = [t for t in s.trace if t[0] == "fit"]
        tq = [t for t in s.trace if t[0] == "tq"]
        need(p2, "a path of spot_fit that does not call p2_quantile")
        fu.post("the excess threshold is estimated at the documented probability", s,
                band(*[band(bnot(t[1].nan), bor(band(ieq(low, 1), req(t[1].p, 1 - lev.p)), band(ieq(low, 0), req(t[1].p, lev.p)))) for t in p2]))
        fu.post("q, level and flags are not touched", s, T.same(s, ["q", "level", "low", "discard_anomalies", "__up_down", "capacity", "data"]))
        fu.post("undefined excess threshold is reported", s, imp(et.nan, ieq(r.poly(), ERR(1003))))
        fu.post("counts every value of the batch", s, ieq(n, size))
        s1 = s.copy()
        s1.add(bnot(et.nan))
        if not v.feasible(s1, True if not s1.pc else s1.pc[-1]):
            continue
        okp.append(s1)
        e1, at = T.get(s1, "excess_threshold"), T.get(s1, "anomaly_threshold")
        fu.post("the excess threshold is the estimate", s1, feq(e1, et))
        fu.post("counts the values strictly beyond the threshold", s1, ieq(Nt, CNT.at(size)))
        fu.post("stores that many excesses", s1, ieq(s1.ghost["K"], CNT.at(size)))
        fu.post("stores the distances in order", s1,
                imp(band(ile(0, g), ilt(g, size), isx(g)), feq(s1.ghost["H"].at(CNT.at(g)), F(False, ex(g)))))
        need(fit and tq, "a path of spot_fit that does not call tail_fit and tail_quantile")
        fu.post("fits the tail on all the excesses", s1, band(ieq(fit[-1][1], CNT.at(size)), fit[-1][2] is s1.ghost["H"]))
        pos = [i for i, t in enumerate(s.trace) if t[0] == "fit"]
        okq = bool(tq) and bool(pos) and s.trace.index(tq[-1]) > pos[-1]
        if okq:
            _, a1, a2, rq, _ = tq[-1]
            okq = band(bnot(a1.nan), bnot(a2.nan), imp(ile(1, size), req(a1.p, CNT.at(size) * inv(size))), req(a2.p, q.p),
                       zb(at.nan) == zb(rq.nan), imp(bnot(rq.nan), req(at.p, et.p + ud.p * rq.p)))
        fu.post("the anomaly threshold is the q-quantile of the fitted tail", s1, okq)
        fu.post("undefined anomaly threshold is reported", s1, imp(at.nan, ieq(r.poly(), ERR(1004))))
        fu.post("success exactly when both thresholds are numbers", s1, imp(bnot(at.nan), ieq(r.poly(), 0)))
    fu.probe("success", okp, lambda s: bnot(T.get(s, "anomaly_threshold").nan))
    fu.probe("upper tail", okp, lambda s: ieq(low, 0))
    fu.probe("lower tail", okp, lambda s: ieq(low, 1))
    fu.probe("at least one excess", okp, lambda s: ilt(0, s.ghost["K"]))
    return fu


# ---------------------------------------------------------------------- C14
def v_brent(order):
    fu = Fun("brent", contracts={}, templates=[t_ints])
    v, st = fu.v, fu.st
    v.tmo = 10.0
    v.opaque = v.merge = True
    v.fanout = 3
    x1, x2, tol = real_var("x1"), real_var("x2"), real_var("tol")
    st.add(rle(0, tol))
    st.add(rle(x1, x2) if order == "up" else rlt(x2, x1))
    lo, hi = (x1, x2) if order == "up" else (x2, x1)
    FF = lambda p: app("FUN", [P(p)], "r")
    st.regs["found"] = Cells(4)
    st.regs["extra"] = Cells(8)
    st.ghost["evals"] = P(0)

    def cb(v, st, fv, a, line):
        if not (isinstance(fv, Ptr) and fv.r == "callback"):
            raise Unsupported("call through an unknown pointer")
        v.oblige(st, "pre: the extra argument is passed on", isinstance(a[1], Ptr) and a[1].r == "extra" and a[1].o.same(0), v.fn, line)
        v.oblige(st, "pre: evaluated at a number of the bracket", band(bnot(a[0].nan), rle(lo, a[0].p), rle(a[0].p, hi)), v.fn, line)
        st.ghost["evals"] = st.ghost["evals"] + 1
        st.pool.append(a[0].p)
        return [(st, F(False, FF(a[0].p)))]
    v.contracts["*"] = cb
    opp = lambda a, b: band(bnot(band(rlt(0, a), rlt(0, b))), bnot(band(rlt(a, 0), rlt(b, 0))))

    def t_brent(v, lc):
        out = []
        for n, g in lc.floats.items():
            out.append(Cand("%s in the bracket" % n, lambda w, g=g: band(bnot(g(w).nan), rle(lo, g(w).p), rle(g(w).p, hi))))
            out.append(Cand("%s is a number" % n, lambda w, g=g: bnot(g(w).nan)))
            for m, h in lc.floats.items():
                if m == n:
                    continue
                out.append(Cand("%s == f(%s)" % (m, n), lambda w, g=g, h=h: req(h(w).p, FF(g(w).p))))
                if m > n:
                    out.append(Cand("%s, %s not of the same strict sign" % (n, m), lambda w, g=g, h=h: opp(g(w).p, h(w).p)))
                    out.append(Cand("%s, %s not of the same strict sign if the ends are not" % (n, m),
                                    lambda w, g=g, h=h: imp(opp(FF(x1), FF(x2)), opp(g(w).p, h(w).p))))
        return out
    v.templates.append(t_brent)
    outs = fu.run([Ptr("found", 0), F(False, x1), F(False, x2), Ptr("callback", 0), Ptr("extra", 0), F(False, tol)])
    same = band(bnot(opp(FF(x1), FF(x2))))
    for s, r in outs:
        c = s.regs["found"].c.get(0)
        f = c[1].poly() if c else fresh_int("unset")
        fu.post("reports success or failure", s, bor(ieq(f, 0), ieq(f, 1)))
        fu.post("at most 202 evaluations", s, ile(s.ghost["evals"], 202))
        fu.post("no root when the ends have the same strict sign", s, imp(same, ieq(f, 0)))
        if f.is_const() and not f.m:
            continue
        s1 = s.copy()
        s1.add(ieq(f, 1))
        fu.post("the root is a number of the bracket", s1, band(bnot(r.nan), rle(lo, r.p), rle(r.p, hi)))
        W = [x1, x2] + list(s.ghost.get("phis", ())) + s.pool
        fr = FF(r.p)
        T4 = 4 * EPS
        near = lambda c: band(rle(lo, c), rle(c, hi), opp(fr, FF(c)), within(c - r.p, r.p, T4, tol))
        fu.post("the root is an exact zero or close to a sign change", s1, bor(req(fr, 0), *[near(c) for c in uniq(W)]))
    fu.probe("root found", [s for s, _ in outs], lambda s: ieq(s.regs["found"].c[0][1].poly(), 1))
    fu.probe("no root found", [s for s, _ in outs], lambda s: ieq(s.regs["found"].c[0][1].poly(), 0))
    return fu


def within(d, r, k, tol):
    """|d| <= k*|r| + tol"""
    a = z3.If(d.zr() >= 0, d.zr(), -d.zr())
    b = z3.If(r.zr() >= 0, r.zr(), -r.zr())
    return a <= P(k).zr() * b + tol.zr()


def uniq(ps):
    d = {}
    for p in ps:
        d[p.key()] = p
    return list(d.values())


# ---------------------------------------------------------------------- C17
def sorted5(a):
    return band(*[rle(a[i], a[i + 1]) for i in range(4)])


def count_le(a, z):
    return sum((of_z3(z3.If(zb(rle(x, z)), z3.IntVal(1), z3.IntVal(0)), True) for x in a), P(0))


def v_sort5():
    fu = Fun("sort5", templates=[t_ints])
    v, st = fu.v, fu.st
    v.unroll = 400
    a = [real_var("a%d" % i) for i in range(5)]
    st.regs["A"] = Cells(40, {8 * i: (D_, F(False, a[i])) for i in range(5)})
    outs = fu.run([Ptr("A", 0)])
    z = real_var("z")
    for s, _ in outs:
        b = [s.cell("A", 8 * i) for i in range(5)]
        fu.post("numbers stay numbers", s, band(*[bnot(x.nan) for x in b]))
        fu.post("the result is sorted", s, sorted5([x.p for x in b]))
        keys = sorted(x.p.key() for x in b)
        if keys == sorted(x.key() for x in a):
            fu.post("the result is a permutation", s, True)
        else:
            fu.post("the result is a permutation", s, ieq(count_le([x.p for x in b], z), count_le(a, z)))
    fu.probe("returns", [s for s, _ in outs])
    return fu


def t_order(v, lc):
    """order between neighbouring float cells of an object, and between float loop variables"""
    out = []
    le = lambda w, g, h: band(bnot(g(w).nan), bnot(h(w).nan), rle(g(w).p, h(w).p))
    for (n, g), (m, h) in itertools.permutations(lc.allfloats.items(), 2):
        a, b = n.rsplit("+", 1), m.rsplit("+", 1)
        if len(a) == 2 and len(b) == 2 and (a[0] != b[0] or abs(int(a[1]) - int(b[1])) != 8):
            continue
        out.append(Cand("%s <= %s" % (n, m), lambda w, g=g, h=h: le(w, g, h)))
    for n, g in lc.allfloats.items():
        out.append(Cand("%s is a number" % n, lambda w, g=g: bnot(g(w).nan)))
    return out


def v_p2(case):
    fu = Fun("p2_quantile", templates=[t_ints, t_order, t_extreme])
    v, st = fu.v, fu.st
    if case == "long":
        v.opaque = v.merge = True
        v.fanout = 3
    size = int_var("size")
    st.add(ile(0, size))
    st.add(ile(size, MAXN))
    st.regs["X"] = Arr("X", 8, size, D_, ro=True)
    p = real_var("p")
    st.add(rle(0, p))
    st.add(rle(p, 1))
    g = int_var("g")
    X = lambda k: app("X", [P(k)], "i", "r")
    v.terms = [size]
    v.ext = {"read": lambda s, k: X(k), "g": g, "witness": [P(i) for i in range(5)], "n": size}
    if case == "short":
        st.add(ilt(size, 5))
    elif case == "five":
        st.add(ieq(size, 5))
    else:
        st.add(ile(5, size))

    def c_sort(v, st, a, line):
        ptr = a[0]
        if not (isinstance(ptr, Ptr) and ptr.o.is_const()):
            raise Unsupported("sort5 argument")
        o = int(ptr.o.cval())
        old = []
        for i in range(5):
            x = v.load(st, Ptr(ptr.r, o + 8 * i), D_, line)
            old.append(x[0][0])
        v.oblige(st, "pre: sort5 of five numbers", band(*[bnot(x.nan) for x in old]), v.fn, line)
        new = [fresh_real("s%d" % i) for i in range(5)]
        st.add(sorted5(new))
        # a permutation: each new value is an old one, and the counts agree at the given points
        for x in new:
            st.add(bor(*[req(x, y.p) for y in old]))
            if case == "five":
                st.add(ieq(count_le(new, x), count_le([y.p for y in old], x)))
                st.add(ieq(count_lt(new, x), count_lt([y.p for y in old], x)))
        for y in old:
            st.add(bor(*[req(x, y.p) for x in new]))
        for i in range(5):
            v.store(st, Ptr(ptr.r, o + 8 * i), D_, F(False, new[i]), line)
        st.ghost["sorted"] = (ptr.r, o, tuple(new))
        return [(st, None)]
    if "@sort5" in v.mod.funcs:
        v.contracts["@sort5"] = c_sort
    outs = fu.run([F(False, p), Ptr("X", 0), I(64, size)])
    for s, r in outs:
        if case == "short":
            fu.post("undefined with fewer than five values", s, r.nan)
            continue
        fu.post("the estimate is a number", s, bnot(r.nan))
        if case == "five":
            xs = [X(i) for i in range(5)]
            fu.post("with five values it is their median", s, band(ile(3, count_le(xs, r.p)), ile(count_lt(xs, r.p), 2)))
            continue
        W = [P(i) for i in range(5)] + list(s.ghost.get("wit", ())) + s.pool[-8:]
        fu.post("not below the smallest value", s, bor(*[band(ile(0, k), ilt(k, size), rle(X(k), r.p)) for k in W]))
        fu.post("not above the largest value", s, bor(*[band(ile(0, k), ilt(k, size), rle(r.p, X(k))) for k in W]))
        loc = s.ghost.get("sorted")
        if loc and loc[0] in s.regs:
            m = [s.cell(loc[0], loc[1] + 8 * i) for i in range(5)]
            if not all(x.p.same(y) for x, y in zip(m, loc[2])):
                # the five running estimates (they are where the first five values were sorted, and have been updated)
                fu.post("the running estimates never cross", s, band(*[bnot(x.nan) for x in m], sorted5([x.p for x in m])))
                for t, q, le in (("first is the smallest", m[0].p, lambda a, b: rle(a, b)), ("last is the largest", m[4].p, lambda a, b: rle(b, a))):
                    fu.post("the %s value seen" % t, s, imp(band(ile(0, g), ilt(g, size)), le(q, X(g))))
                    fu.post("the %s value seen, one of them" % t, s, bor(*[band(ile(0, k), ilt(k, size), req(X(k), q)) for k in W]))
        fu.final = s
    fu.probe("returns", [s for s, _ in outs])
    return fu


def count_lt(a, z):
    return sum((of_z3(z3.If(zb(rlt(x, z)), z3.IntVal(1), z3.IntVal(0)), True) for x in a), P(0))


from .fperr import v_exp, v_log  # noqa: E402
