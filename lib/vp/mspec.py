"""Memory-safety contracts (C10) and text contracts (C12) for rvc.

In mode 'havoc' every floating-point result is an arbitrary double (NaN
included), so what is proved about indices, pointers, integer overflow and
conversions holds for the machine's arithmetic, whatever it computes.  Each
function is verified with its callees replaced by the contracts below (their
preconditions are obligations at the call); functions without a contract here
are inlined.
"""
from .rspec import *


def hv(v, st, name):
    return v.fresh(D_, name, st)


DET = [False]


def mfun(fname, **k):
    fu = Fun(fname, mode="havoc", contracts={}, templates=[t_ints], **k)
    fu.v.tmo = 10.0
    fu.v.merge = True
    fu.v.fanout = 3
    for n in ("@xlog", "@xexp"):
        fu.v.contracts[n] = lambda v, st, a, line: [(st, hv(v, st, "m"))]
    fu.v.contracts["@xpow"] = fu.v.contracts["@xlog"]
    fu.v.det = DET[0]
    fu.alloc = 0

    def no_alloc(what):
        def k(v, st, a, line):
            # only creation and release deal with the allocator (C11)
            fu.alloc += not v.scanning
            v.oblige(st, "frame: " + what, False, v.fn, line)
            return []
        return k
    for n in ("@xmalloc", "@malloc", "@calloc", "@realloc"):
        fu.v.contracts[n] = no_alloc("requests no storage")
    for n in ("@xfree", "@free"):
        fu.v.contracts[n] = no_alloc("releases no storage")
    return fu


def mtail(fu, what, ro=False, empty=True):
    """a detector / tail / peaks in any state that satisfies the window invariant"""
    T = TailState(fu.v, fu.st, "T", what, ro=ro)
    T.ro = ro
    a = fu.st.regs[T.arr]
    a.nonan = False
    cap, cur, fil = T.pget(fu.st, "capacity"), T.pget(fu.st, "cursor"), T.pget(fu.st, "filled")
    fu.v.live = {T.arr: lambda ix: bor(bnot(ieq(fil, 0)), ilt(ix, cur))}
    fu.v.terms = [T.cap, T.cur]
    return T


def winv(T, st):
    """window invariant of a state (and the storage pointer is the window's own)"""
    cap, cur, fil = T.pget(st, "capacity"), T.pget(st, "cursor"), T.pget(st, "filled")
    d = T.get(st, "data")
    return band(isinstance(d, Ptr) and d.r == T.arr and d.o.same(0), ieq(cap, T.cap), ile(0, cur), ilt(cur, cap), bor(ieq(fil, 0), ieq(fil, 1)))


def is_peaks(T, a):
    return isinstance(a, Ptr) and a.r == T.rid and a.o.same(T.poff)


def is_tail(T, a):
    return isinstance(a, Ptr) and a.r == T.rid and "gamma" in T.off and a.o.same(T.off["gamma"] - layout()[("Tail", "gamma")])


def callees(fu, T, names):
    """memory contracts of the library's functions"""
    v = fu.v

    def wpre(v, st, a, line, what, ok):
        need(ok, "%s of something else than the window at hand" % what)
        v.oblige(st, "pre: %s on a valid window" % what, winv(T, st), v.fn, line)

    def push(v, st, a, line):
        wpre(v, st, a, line, "push", is_peaks(T, a[0]) or is_tail(T, a[0]))
        v.oblige(st, "frame: the window may be written", not T.ro, v.fn, line)
        for x in ("e", "e2", "min", "max", "last_erased_data"):
            st.setcell(T.rid, T.off[x], D_, hv(v, st, x))
        for x in ("cursor", "filled"):
            st.setcell(T.rid, T.off[x], TY[x], v.fresh(TY[x], x, st))
        st.add(winv(T, st))
        r = st.wr(T.arr)
        r.base, r.stores = "D!%d" % fresh_id(), ()
        return [(st, None)]

    def fit(v, st, a, line):
        wpre(v, st, a, line, "tail_fit", is_tail(T, a[0]))
        v.oblige(st, "frame: the tail may be written", not T.ro, v.fn, line)
        for x in ("gamma", "sigma"):
            st.setcell(T.rid, T.off[x], D_, hv(v, st, x))
        return [(st, hv(v, st, "ll"))]

    def ll(v, st, a, line):
        wpre(v, st, a, line, "log_likelihood", is_peaks(T, a[0]))
        return [(st, hv(v, st, "ll"))]

    def est(v, st, a, line):
        wpre(v, st, a, line, "estimator", is_peaks(T, a[0]))
        out = []
        for s in v.store(st, a[1], D_, hv(v, st, "g"), line):
            out += [(s2, hv(v, s2, "ll")) for s2 in v.store(s, a[2], D_, hv(v, s, "s"), line)]
        return out

    def brent(v, st, a, line):
        fp, x1, x2, fn, extra, tol = a
        need(isinstance(fn, Fn) and fn.name in v.mod.funcs, "root search of an unknown function")
        # every evaluation: an arbitrary point, the given extra argument
        key = (fn.name, str(extra))
        if key not in fu.cb:
            fu.cb.add(key)
            v.run(st.copy(), fn.name, [hv(v, st, "x"), extra])
        return [(s, hv(v, s, "root")) for s in v.store(st, fp, I32, v.fresh(I32, "found", st), line)]

    def p2(v, st, a, line):
        d, n = a[1], a[2].poly()
        need(isinstance(d, Ptr) and d.r in st.regs and st.regs[d.r].kind == "arr", "quantile of an unknown array")
        ix = scale(d.o, 8)
        v.oblige(st, "pre: p2_quantile reads inside %s" % d.r, bor(ieq(n, 0), band(ile(0, ix), ile(ix + n, st.regs[d.r].n))), v.fn, line)
        return [(st, hv(v, st, "p2"))]
    fu.cb = set()
    C = {"@tail_push": push, "@peaks_push": push, "@tail_fit": fit, "@log_likelihood": ll, "@mom_estimator": est,
         "@grimshaw_estimator": est, "@brent": brent, "@p2_quantile": p2}
    for n in names:
        v.contracts["@" + n] = C["@" + n]


_id = [0]


def fresh_id():
    _id[0] += 1
    return _id[0]


def finish(fu, T, outs, name="returns"):
    for s, r in outs:
        if T is not None:
            fu.post("leaves a valid window", s, winv(T, s))
        if fu.fname not in ("spot_init", "spot_free"):
            fu.post("no call of the allocator is reached", s, not fu.alloc)
    fu.probe(name, [s for s, _ in outs])
    return fu


PEAK_C = {"peaks_push": [], "tail_push": [], "peaks_mean": [], "peaks_var": [], "peaks_size": [], "log_likelihood": [],
          "mom_estimator": ["log_likelihood"], "grimshaw_estimator": ["log_likelihood", "brent"],
          "tail_fit": ["mom_estimator", "grimshaw_estimator"], "tail_quantile": [], "tail_probability": [],
          "spot_quantile": [], "spot_probability": [], "spot_step": ["tail_push", "peaks_push", "tail_fit"]}


def m_fun(fname):
    """memory safety of one function on an arbitrary valid detector"""
    fu = mfun(fname)
    v, st = fu.v, fu.st
    what = {"p": "Peaks", "l": "Peaks", "m": "Peaks", "g": "Peaks", "t": "Tail", "s": "Spot"}[fname[0]]
    ro = fname not in ("peaks_push", "tail_push", "tail_fit", "spot_step")
    T = mtail(fu, what, ro)
    callees(fu, T, PEAK_C[fname])
    f = v.mod.funcs.get("@" + fname)
    need(f, "function " + fname)
    args = [T.ptr()]
    for i, (ty, _) in enumerate(f.params[1:]):
        if ty[0] == "ptr":
            st.regs["out%d" % i] = Cells(8)
            args.append(Ptr("out%d" % i, 0))
        else:
            args.append(v.fresh(ty, "arg%d" % i, st))
    # arbitrary uninitialised results are allowed for the two outputs
    outs = fu.run(args)
    return finish(fu, T, outs)


def m_fit():
    fu = mfun("spot_fit")
    v, st = fu.v, fu.st
    T = mtail(fu, "Spot")
    callees(fu, T, ["p2_quantile", "tail_push", "peaks_push", "tail_fit"])
    size = int_var("size")
    st.add(ile(0, size))
    st.add(ile(size, MAXN))
    st.regs["X"] = Arr("X", 8, size, D_, ro=True, nonan=False)
    v.terms += [size]
    v.templates.append(lambda v, lc: [Cand("the window is valid", lambda w: winv(T, w.st))])
    return finish(fu, T, fu.run([T.ptr(), Ptr("X", 0), I(64, size)]))


def m_p2():
    fu = mfun("p2_quantile")
    v, st = fu.v, fu.st
    size = int_var("size")
    st.add(ile(0, size))
    st.add(ile(size, MAXN))
    st.regs["X"] = Arr("X", 8, size, D_, ro=True, nonan=False)
    v.terms = [size]

    def sort5(v, st, a, line):
        """writes nothing but its five elements (m_sort5)"""
        sts = [st]
        for i in range(5):
            sts = [s2 for s in sts for s2 in v.store(s, Ptr(a[0].r, a[0].o + 8 * i), D_, hv(v, s, "s"), line)]
        return [(s, None) for s in sts]
    if "@sort5" in v.mod.funcs:
        v.contracts["@sort5"] = sort5
    outs = fu.run([hv(v, st, "p"), Ptr("X", 0), I(64, size)])
    fu.probe("fewer than five values", [s for s, _ in outs], lambda s: ilt(size, 5))
    fu.probe("many values", [s for s, _ in outs], lambda s: ilt(100, size))
    return finish(fu, None, outs)


def m_sort5():
    fu = mfun("sort5")
    if "@sort5" not in fu.v.mod.funcs:
        fu.obs = []         # part of its caller
        return fu
    fu.st.regs["A"] = Cells(40)
    return finish(fu, None, fu.run([Ptr("A", 0)]))


def m_brent():
    fu = mfun("brent")
    v, st = fu.v, fu.st
    st.regs["found"] = Cells(4)
    st.regs["extra"] = Cells(8, ro=True)

    def cb(v, st, fv, a, line):
        if not (isinstance(fv, Ptr) and fv.r == "callback"):
            raise Unsupported("call through an unknown pointer")
        v.oblige(st, "pre: the extra argument is passed on", isinstance(a[1], Ptr) and a[1].r == "extra" and a[1].o.same(0), v.fn, line)
        return [(st, hv(v, st, "f"))]
    v.contracts["*"] = cb
    outs = fu.run([Ptr("found", 0), hv(v, st, "x1"), hv(v, st, "x2"), Ptr("callback", 0), Ptr("extra", 0), hv(v, st, "tol")])
    for s, r in outs:
        fu.post("always reports whether a root was found", s, 0 in s.regs["found"].c)
    return finish(fu, None, outs)


# ----------------------------------------------------------- determinism (C08)
def d_fun(fname):
    """the outcome is determined by the detector and the arguments: every value that is read is theirs,
    a constant, or was written before in the same call (in every path of every loop)"""
    DET[0] = True
    try:
        fu = {"brent": m_brent, "sort5": m_sort5}.get(fname, lambda: m_fun(fname))()
    finally:
        DET[0] = False
    o = Obligation("%s: reads only its arguments, constants and what it has written itself" % fname, "proved", "rvc/z3", "", fname, fname)
    fu.v.obs = [] if hasattr(fu, "obs") else [x for x in fu.v.obs if x.name.startswith("pre") and x.status != "proved"] + [o]
    fu.extra = []
    return fu


def d_math(fname):
    """the same for exp, log and pow; the installed float functions are deterministic (assumed) and write only their output"""
    fu = Fun(fname, mode="havoc", contracts={}, templates=[t_ints])
    v, st = fu.v, fu.st
    v.merge, v.det, v.tmo = True, True, 10.0

    def cb(v, st, fv, a, line):
        need(isinstance(fv, Ptr) and fv.r == "FLOATFN", "call through an unknown pointer")
        for x in a:
            if isinstance(x, Ptr):
                (st,) = v.store(st, x, I32, v.fresh(I32, "e", st), line)
        return [(st, hv(v, st, "f"))]
    v.contracts["*"] = cb
    if fname == "xpow":
        v.contracts["@xlog"] = v.contracts["@xexp"] = lambda v, st, a, line: [(st, hv(v, st, "m"))]
    for g, d in v.mod.globals.items():
        if d["ty"] == ("ptr",) and not v.mod.const[g] and d["init"] is not None and d["init"][0] == "g":
            st.regs[g] = Cells(8, {0: (("ptr",), Ptr("FLOATFN", 0))}, ro=True)
    f = v.mod.funcs.get("@" + fname)
    need(f, "function " + fname)
    fu.run([v.fresh(ty, "arg%d" % i, st) for i, (ty, _) in enumerate(f.params)])
    o = Obligation("%s: reads only its arguments, constants and what it has written itself" % fname, "proved", "rvc/z3", "", fname, fname)
    v.obs = [x for x in v.obs if x.name.startswith("frame") and x.status != "proved"] + [o]
    return fu


# ------------------------------------------------------- creation and release
def m_init():
    """spot_init: the storage is large enough for the window it declares"""
    fu = mfun("spot_init")
    v, st = fu.v, fu.st
    T = TailState(v, st, "T", "Spot")
    n = int_var("n")
    st.add(ile(0, n))
    st.add(ilt(n, 1 << 64))

    def c_malloc(v, st, a, line):
        b = a[0].poly()
        m = fresh_int("slots")
        st.add(ile(0, m))
        st.add(ile(m * 8, b))
        st.add(ilt(b, m * 8 + 8))
        s2 = st.copy()
        st.regs["NEW"] = Arr("NEW", 8, m, D_)
        return [(st, Ptr("NEW", 0)), (s2, NULL)]
    v.contracts["@xmalloc"] = c_malloc
    f = v.mod.funcs["@spot_init"]
    args = [T.ptr()] + [v.fresh(ty, "arg%d" % i, st) for i, (ty, _) in enumerate(f.params[1:-1])] + [I(64, n)]
    ok, outs = [], fu.run(args)
    for s, r in outs:
        d = T.get(s, "data")
        cap, cur, fil = T.pget(s, "capacity"), T.pget(s, "cursor"), T.pget(s, "filled")
        good = isinstance(d, Ptr) and d.r == "NEW" and d.o.same(0)
        room = band(ile(1, cap), ile(cap, s.regs["NEW"].n), ile(0, cur), ilt(cur, cap), bor(ieq(fil, 0), ieq(fil, 1))) if good else False
        fu.post("success means a valid window inside the storage obtained", s, imp(ieq(r.poly(), 0), room))
        if good:
            ok.append(s)
    fu.probe("success", ok)
    return finish(fu, None, outs)


def m_free():
    """spot_free: releases the window's own storage only, and forgets it"""
    fu = mfun("spot_free")
    v, st = fu.v, fu.st
    T = mtail(fu, "Spot")

    def c_free(v, st, a, line):
        v.oblige(st, "pre: releases the window's own storage", isinstance(a[0], Ptr) and a[0].r == T.arr and a[0].o.same(0), v.fn, line)
        st.regs.pop(T.arr, None)
        st.trace.append(("free",))
        return [(st, None)]
    v.contracts["@xfree"] = c_free
    outs = fu.run([T.ptr()])
    for s, r in outs:
        d = T.get(s, "data")
        fu.post("no dangling storage", s, isinstance(d, Ptr) and (d.r is None or ("free",) not in s.trace))
    return finish(fu, None, outs)


# ------------------------------------------------------------------------ C12
TEXTD = ('VERSION="vp-version 2.0"', 'LICENSE="vp license text"')


def t_text(g, size):
    def t(v, lc):
        out = []
        w0 = lc.init_view()
        for r in sorted(lc.arrs):
            cur = lambda w, r=r: w.st.regs[r].at(g).poly()
            old = lc.st0.regs[r].at(g).poly()
            for m, h in lc.ints.items():
                try:
                    i0 = h(w0)
                except Skip:
                    continue

                for s in (0, 1):
                    def rng(w, h=h, i0=i0, s=s):
                        x = h(w) + s
                        return bor(band(ile(i0 + s, g), ilt(g, x)), band(ile(x, g), ilt(g, i0 + s)))
                    out.append(Cand("%s unchanged outside what %s%+d visited" % (r, m, s),
                                    lambda w, rng=rng, cur=cur, old=old: bor(rng(w), ieq(cur(w), old))))
                    out.append(Cand("%s is zero where %s%+d visited" % (r, m, s),
                                    lambda w, rng=rng, cur=cur: imp(rng(w), ieq(cur(w), 0))))
                    for q in texts(v, lc.s):
                        src = lambda w, q=q: lc.s.regs[q].at(g).poly()
                        tab = lc.s.regs[q].table
                        L = tab.index(0) if 0 in tab else len(tab)
                        cl = lambda x, L=L: of_z3(z3.If(zb(ilt(x, L)), x.zi(), z3.IntVal(L)), True)
                        out.append(Cand("%s is the text %s where %s%+d visited" % (r, q, m, s),
                                        lambda w, rng=rng, cur=cur, src=src: imp(rng(w), ieq(cur(w), src(w)))))
                        ex = lambda w, src=src, L=L: of_z3(z3.If(zb(band(ilt(g + 1, size), ilt(g, L))), src(w).zi(), z3.IntVal(0)), True)
                        out.append(Cand("%s is the longest prefix of %s, then zeros, where %s%+d visited" % (r, q, m, s),
                                        lambda w, rng=rng, cur=cur, ex=ex: imp(rng(w), ieq(cur(w), ex(w)))))
                        out.append(Cand("%s is the text %s, then zeros, where %s%+d visited" % (r, q, m, s),
                                        lambda w, rng=rng, cur=cur, src=src, L=L: imp(rng(w), ieq(cur(w), of_z3(z3.If(zb(ilt(g, L)), src(w).zi(), z3.IntVal(0)), True)))))
        # lengths of the texts bound the counters
        for q in texts(v, lc.s):
            tab = lc.s.regs[q].table
            L = tab.index(0) if 0 in tab else len(tab)
            for m, h in lc.ints.items():
                try:
                    i0 = h(w0)
                except Skip:
                    continue
                out.append(Cand("%s <= %d (length of %s)" % (m, L, q), lambda w, h=h, L=L: ile(h(w), L)))
                # a flag that says whether the end of the text was met
                for n, fl in lc.ints.items():
                    try:
                        f0 = fl(w0)
                    except Skip:
                        continue
                    if n == m or not (f0.same(0) or f0.same(1)):
                        continue
                    out.append(Cand("%s <= start + %d while %s is %s" % (m, L, n, f0),
                                    lambda w, h=h, fl=fl, f0=f0, L=L, i0=i0: bor(bnot(ieq(fl(w), f0)), ile(h(w) - i0, L))))
                    out.append(Cand("%s > start + %d once %s is not %s" % (m, L, n, f0),
                                    lambda w, h=h, fl=fl, f0=f0, L=L, i0=i0: bor(ieq(fl(w), f0), ilt(L, h(w) - i0))))
                    out.append(Cand("%s <= start + %d while %s is %s, or the end of the buffer" % (m, L, n, f0),
                                    lambda w, h=h, fl=fl, f0=f0, L=L, i0=i0: bor(bnot(ieq(fl(w), f0)), ile(h(w) - i0, L), ile(size, h(w) - i0))))
                # a pointer that stops at the end of the text
                for n, o in lc.ints.items():
                    try:
                        o0 = o(w0)
                    except Skip:
                        continue
                    if n != m:
                        out.append(Cand("%s - start is the smaller of %s - start and %d" % (m, n, L),
                                        lambda w, h=h, o=o, i0=i0, o0=o0, L=L: band(
                                            bor(ieq(h(w) - i0, o(w) - o0), ilt(L, o(w) - o0)),
                                            bor(ieq(h(w) - i0, L), ile(o(w) - o0, L)))))
                # distance of a pointer to its start
                out.append(Cand("%s <= start + %d" % (m, L), lambda w, h=h, L=L, i0=i0: ile(h(w) - i0, L)))
        return out
    return t


def texts(v, st):
    return [r for r in st.ghost.get("texts", ()) if r in st.regs] or \
        [r for r, x in st.regs.items() if x.kind == "arr" and x.table is not None]


def expected(tab, g, size):
    """byte g of a buffer of that size holding the text"""
    L = tab.index(0) if 0 in tab else len(tab)
    e = z3.IntVal(0)
    for k in range(L):
        e = z3.If(g.zi() == k, z3.IntVal(tab[k]), e)
    return of_z3(z3.If(zb(ilt(g + 1, size)), e, z3.IntVal(0)), True), L


def v_text(fname, buf="buffer"):
    """libspot_version / libspot_license / libspot_error on a buffer of any size"""
    fu = Fun(fname, contracts={}, templates=[t_ints], defs=TEXTD)
    v, st = fu.v, fu.st
    size, g = int_var("size"), int_var("g")
    st.add(ile(0, size))
    st.add(ile(size, MAXN))
    if buf == "buffer":
        st.add(ile(0, g))
        st.add(ilt(g, size))
    elif buf == "empty":
        st.add(ieq(size, 0))
    v.terms = [size]
    v.templates = [t_ints, t_text(g, size)]
    v.memo = None
    args = []
    err = None
    if fname == "libspot_error":
        err = v.fresh(I32, "err", st)
        args.append(err)
    if buf == "null":
        outs = fu.run(args + [NULL, I(64, size)])
        fu.probe("returns", [s for s, _ in outs])
        if not fu.v.obs:
            fu.post("a null buffer is tolerated", outs[0][0], True)
        return fu
    st.regs["B"] = Arr("B", 1, size, ("i", 8))
    outs = fu.run(args + [Ptr("B", 0), I(64, size)])
    fu.probe("returns", [s for s, _ in outs])
    if buf == "empty":
        fu.post("an empty buffer is tolerated", outs[0][0], True)
        return fu
    want = {"libspot_version": b"vp-version 2.0", "libspot_license": b"vp license text"}.get(fname)
    for s, _ in outs:
        now, old = s.regs["B"].at(g).poly(), app("B", [g], "i", "i")
        s.add(ile(0, old))
        s.add(ilt(old, 256))
        if err is not None:
            s = s.copy()
            known = band(ile(1000, err.p), ile(err.p, 1005))
            fu.post("an unknown code writes nothing", s, bor(known, ieq(now, old)))
            s.add(known)
            if not v.feasible(s, known):
                continue
        tx = [r for r in s.ghost.get("texts", ())]
        for r in tx:
            # the bytes of the text at the index looked at
            x = s.regs[r].base_read(g).poly()
            for k, c in enumerate(s.regs[r].table):
                s.add(imp(ieq(g, k), ieq(x, c)))
        if want is None:
            need(tx, "a message that is not a text")
            # the message: the text of the path that explains the buffer
            tab = s.regs[tx[0]].table
            if len(tx) > 1:
                tabs = [s.regs[r].table for r in tx]
                tabs = [t for t in tabs if v.valid(s, ieq(now, expected(t, g, size)[0])) is True]
                need(len(tabs) == 1, "a message that is not one text")
                tab = tabs[0]
        else:
            tab = list(want) + [0]
        e, L = expected(tab, g, size)
        fu.post("the longest prefix that fits, then zeros to the end", s, ieq(now, e))
        if err is not None:
            c = [k for k in range(1000, 1006) if v.feasible(s, ieq(err.p, k))]
            fu.post("a message is not empty", s, L > 0)
            fu.texts = getattr(fu, "texts", {})
            for k in c:
                fu.texts.setdefault(k, set()).add(bytes(tab[:L]))
    if err is not None:
        t = getattr(fu, "texts", {})
        for k in range(1000, 1006):
            fu.post("code %d has one message of its own" % k, st, len(t.get(k, ())) == 1 and
                    all(t.get(j) != t[k] for j in range(1000, 1006) if j != k))
        for k in range(1000, 1006):
            fu.probe("code %d" % k, [s for s, _ in outs], lambda s, k=k: ieq(err.p, k))
        fu.probe("an unknown code", [s for s, _ in outs], lambda s: ilt(err.p, 900))
    return fu


ENTRY = [("m_fun", f) for f in PEAK_C] + [("m_fit",), ("m_p2",), ("m_sort5",), ("m_brent",), ("m_init",), ("m_free",)]
