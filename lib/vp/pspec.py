"""Contracts of the python binding (C15) for rvc.

/repo/python/libspotmodule.c is compiled against the installed Python.h (with
the limited API of 3.12, in which reference counting is done by function calls)
and each entry point found in the type's tables is verified against contracts
of the CPython API, in which every call may fail, and of the library.

Ghost state (cells no code can reach): is an exception pending, how many
references and buffers does the code own, does the detector have storage, how
often was the library called and what did it answer.
"""
from .rspec import *
from . import ir

PYDEF = ("Py_LIMITED_API=0x030c0000", 'VERSION="v"')
EXC, REFS, BUFS, INIT, FAIL, CALLS, STATUS, TPFREE = range(0, 64, 8)
OWN, VAL, LEN = 1 << 20, (1 << 20) + 8, (1 << 20) + 16
BASE = 16                       # the detector's offset in the object (PyObject_HEAD)
I64 = ("i", 64)
I32 = ("i", 32)


def py_include():
    return [p for p in ("/usr/include/python3.12",) if os.path.exists(p)]


def py_source():
    """the binding in a tree where ../dist/spot.h is the current header"""
    import shutil
    d = os.path.join(scratch(), "py_tree_%d" % os.getpid())
    os.makedirs(d + "/python", exist_ok=True)
    os.makedirs(d + "/dist", exist_ok=True)
    with open(d + "/dist/spot.h", "w") as f:
        f.write('#include "%s/include/spot.h"\n' % REPO)
    shutil.copy(os.path.join(REPO, "python", "libspotmodule.c"), d + "/python/libspotmodule.c")
    return d + "/python/libspotmodule.c"


_PYMOD = []


def pymodule():
    if not py_include():
        raise Unsupported("no Python.h")
    if not _PYMOD:
        _PYMOD.append(module(PYDEF, srcs=[py_source()], incs=py_include()))
    return _PYMOD[0]


def table(mod, suffix):
    """entries of the arrays of a struct type"""
    out = []
    for g, d in mod.globals.items():
        ty = d["ty"]
        if ty[0] == "arr" and ty[2][0] == "named" and ty[2][1].split(".")[-1] == suffix and d["init"] and d["init"][0] == "agg":
            out += [e[2] for e in d["init"][2] if e[0] == "agg"]
    return out


def text(mod, g):
    d = mod.globals[g]["init"]
    if d[0] == "zero":
        return ""
    return bytes(x[2] for x in d[2]).split(b"\0")[0].decode("latin1")


def entry(what):
    """(C function, calling convention) of a method or slot"""
    mod = pymodule()
    if what in ("tp_init", "tp_dealloc"):
        n = {"tp_init": 60, "tp_dealloc": 52}[what]
        l = {e[1][1] for e in table(mod, "PyType_Slot") if e[0] == ("c", I32, n)}
        need(len(l) == 1, "slot " + what)
        return l.pop(), what
    l = {(e[1][1], e[2][2]) for e in table(mod, "PyMethodDef") if e[0][0] == "g" and text(mod, e[0][1]) == what}
    need(len(l) == 1, "method " + what)
    return l.pop()


def gh(st, o):
    return st.cell("GH", o).poly()


def sgh(st, o, x):
    st.setcell("GH", o, I64, I(64, P(x)))


def t_copy(v, lc):
    """an array is the copy of another one where a counter has been"""
    out = []
    w0 = lc.init_view()
    g = v.gidx
    for r in sorted(lc.arrs):
        if lc.s.regs[r].ety != D_:
            continue
        cur = lambda w, r=r: w.st.regs[r].at(g)
        old = lc.st0.regs[r].at(g)
        for m, h in lc.ints.items():
            try:
                i0 = h(w0)
            except Skip:
                continue

            def rng(w, h=h, i0=i0):
                x = h(w)
                return bor(band(ile(i0, g), ilt(g, x)), band(ile(x, g), ilt(g, i0)))
            out.append(Cand("%s unchanged outside what %s visited" % (r, m), lambda w, rng=rng, cur=cur, old=old: bor(rng(w), feq(cur(w), old))))
            for q, x in lc.s.regs.items():
                if q == r or x.kind != "arr" or x.ety != D_:
                    continue
                src = lambda w, q=q: w.st.regs[q].at(g)
                out.append(Cand("%s is a copy of %s where %s visited" % (r, q, m),
                                lambda w, rng=rng, cur=cur, src=src: imp(rng(w), feq(cur(w), src(w)))))
    return out


class Py:
    """the interpreter and the library as seen by one entry point"""

    def __init__(self, fname):
        self.mod = pymodule()
        fu = self.fu = Fun(fname, contracts={}, templates=[t_ints, t_copy], defs=PYDEF)
        v, st = self.v, self.st = fu.v, fu.st
        v.tmo = 10.0
        v.gidx = self.g = int_var("g")
        st.add(ile(0, self.g))
        L = layout()
        st.regs["GH"] = Cells(64)
        for o in range(0, 64, 8):
            st.setcell("GH", o, I64, ival(64, 0))
        self.init0 = int_var("initialised")
        st.add(bor(ieq(self.init0, 0), ieq(self.init0, 1)))
        sgh(st, INIT, self.init0)
        # the object: a detector with storage, or without
        T = self.T = TailState(v, State(), "SELF", "Spot")
        cells = {BASE + T.off[x]: (TY.get(x, D_), T.v0[x]) for x in T.v0}
        cells[0] = (I64, self.new("refcnt", I64, st))
        cells[8] = (("ptr",), Ptr("TYPE", 0))
        cells[OWN] = (I64, ival(64, 0))
        for x, val in T.v0.items():
            if isinstance(val, I) and x not in ("cursor", "capacity", "filled"):
                st.add(ile(0, val.poly()))
                st.add(ilt(val.poly(), 1 << val.w))
        st.regs["SELF"] = Cells(BASE + L[("Spot", ".")], cells, ro=True)
        st.regs[T.arr] = Arr(T.arr, 8, T.cap, D_, ro=True, nonan=False)
        have = ieq(self.init0, 1)
        st.add(ile(0, T.cap))
        st.add(ile(T.cap, MAXN))
        st.add(ile(0, T.cur))
        st.add(bor(ilt(T.cur, T.cap), band(ieq(T.cap, 0), ieq(T.cur, 0))))
        st.add(imp(have, band(ile(1, T.cap), bor(ieq(T.fil, 0), ieq(T.fil, 1)))))
        st.add(imp(bnot(have), ieq(T.cap, 0)))
        st.add(ile(0, T.fil))
        st.add(ilt(T.fil, 1 << 32))
        st.regs["TYPE"] = Cells(16, {OWN: (I64, ival(64, 0))})
        for a in ("ARG", "ARGS", "KW", "NONE"):
            st.regs[a] = Cells(16, {OWN: (I64, ival(64, 0))}, ro=True)
        # what the argument is worth
        self.argval = F(z3.Bool("nan_arg"), real_var("arg"))
        self.N = int_var("N")
        st.add(ile(0, self.N))
        st.add(ile(self.N, MAXN))
        st.regs["V"] = Arr("V", 8, self.N, D_, ro=True, nonan=False)
        v.terms = [self.N, T.cap, T.cur]
        v.glob_hook = self.globals_
        v.ptr_hook = self.pointers
        for n in dir(self):
            if n.startswith("c_"):
                v.contracts["@" + n[2:]] = getattr(self, n)
        for a, b in ALIAS.items():
            v.contracts["@" + a] = v.contracts["@" + b]
        v.contracts["*"] = self.indirect

    def new(self, n, ty, st):
        return self.v.fresh(ty, n, st)

    # -------------------------------------------------------------- memory
    def globals_(self, v, st, g):
        d = v.mod.globals[g]
        if d["init"] is None:
            if g == "@_Py_NoneStruct":
                st.regs[g] = Cells(16, {OWN: (I64, ival(64, 0))})
                return True
            if g.startswith("@PyExc_"):
                st.regs[g] = Cells(8, {0: (("ptr",), Ptr("EXCTYPE", 0))}, ro=True)
                return True
            if g in ("@_Py_TrueStruct", "@_Py_FalseStruct"):
                st.regs[g] = Cells(16, {OWN: (I64, ival(64, 0))})
                return True
            return False
        cells = {}
        v.init_cells(cells, d["ty"], d["init"], 0, st)
        st.regs[g] = Cells(v.mod.size(d["ty"]), cells, ro=True)
        return True

    def pointers(self, st, pr, a, b):
        """the storage pointer is null exactly when the object has no storage"""
        if pr in ("eq", "ne") and isinstance(a, Ptr) and isinstance(b, Ptr):
            for x, y in ((a, b), (b, a)):
                if x.r == self.T.arr and y.r is None:
                    e = ieq(gh(st, INIT), 0)
                    return e if pr == "eq" else bnot(e)
        return None

    def obj(self, st, kind, val=None):
        rid = "O%d#%s" % (st.nalloc, kind)
        st.nalloc += 1
        c = {OWN: (I64, ival(64, 1)), 8: (("ptr",), Ptr("TYPE", 0))}
        if val is not None:
            c[VAL] = (D_ if isinstance(val, F) else I64, val)
        st.regs[rid] = Cells(16, c)
        st.ghost["kind:" + rid] = kind
        sgh(st, REFS, gh(st, REFS) + 1)
        return Ptr(rid, 0)

    def raise_(self, st, api=True):
        """an exception is pending; api: because an operation of the interpreter failed"""
        sgh(st, EXC, 1)
        if api:
            sgh(st, FAIL, 1)
        return st

    def may_fail(self, st, ok, null=NULL):
        """[failed outcome, successful outcome]"""
        s = st.copy()
        return [(self.raise_(s), null), (st, ok(st))]

    def code_runs(self, st):
        """python code may run: the object may be initialised anew"""
        p = fresh_int("initialised")
        st.add(bor(ieq(p, 0), ieq(p, 1)))
        sgh(st, INIT, p)

    def isobj(self, st, p):
        return isinstance(p, Ptr) and p.r is not None and p.r in st.regs and st.regs[p.r].kind == "cells" and OWN in st.regs[p.r].c and p.o.same(0)

    def pre(self, st, name, c, line):
        self.v.oblige(st, "pre: " + name, c, self.v.fn, line)

    def immortal(self, p):
        return p.r in ("@_Py_NoneStruct", "@_Py_TrueStruct", "@_Py_FalseStruct")

    # -------------------------------------------------- references
    def known(self, p):
        need(isinstance(p, Ptr) and (p.r is None or p.r in self.st.regs or p.r[:1] in "O@" or p.r.startswith("ITEM:")), "reference to an unknown object")

    def c__Py_DecRef(self, v, st, a, line):
        p = a[0]
        self.known(p)
        self.pre(st, "a reference to release", self.isobj(st, p), line)
        if not self.isobj(st, p) or self.immortal(p):
            return [(st, None)]
        n = st.cell(p.r, OWN).poly()
        self.pre(st, "the reference released is owned", ile(1, n), line)
        st.setcell(p.r, OWN, I64, I(64, n - 1))
        sgh(st, REFS, gh(st, REFS) - 1)
        return [(st, None)]

    def c_Py_DecRef(self, v, st, a, line):
        if isinstance(a[0], Ptr) and a[0].r is None:
            return [(st, None)]
        return self.c__Py_DecRef(v, st, a, line)

    def c__Py_IncRef(self, v, st, a, line):
        p = a[0]
        self.known(p)
        need(not (p.r or "").startswith("ITEM:"), "shared item")
        self.pre(st, "a reference to share", self.isobj(st, p), line)
        if not self.isobj(st, p) or self.immortal(p):
            return [(st, None)]
        st.setcell(p.r, OWN, I64, I(64, st.cell(p.r, OWN).poly() + 1))
        sgh(st, REFS, gh(st, REFS) + 1)
        return [(st, None)]

    def c_Py_IncRef(self, v, st, a, line):
        if isinstance(a[0], Ptr) and a[0].r is None:
            return [(st, None)]
        return self.c__Py_IncRef(v, st, a, line)

    def c_Py_NewRef(self, v, st, a, line):
        return [(s, a[0]) for s, _ in self.c__Py_IncRef(v, st, a, line)]

    def steal(self, st, p, line):
        if self.isobj(st, p):
            self.c__Py_DecRef(self.v, st, [p], line)
        return p

    # -------------------------------------------------- exceptions
    def c_PyErr_Occurred(self, v, st, a, line):
        e = ieq(gh(st, EXC), 1)
        out = []
        if v.feasible(st, bnot(e)):
            s = st.copy()
            s.add(bnot(e))
            out.append((s, NULL))
        if v.feasible(st, e):
            st.add(e)
            out.append((st, Ptr("EXCTYPE", 0)))
        return out

    def c_PyErr_SetString(self, v, st, a, line):
        self.pre(st, "an exception type and a message", isinstance(a[0], Ptr) and a[0].r == "EXCTYPE" and isinstance(a[1], Ptr) and a[1].r is not None, line)
        r = st.regs.get(a[1].r)
        if r is not None and r.kind == "cells" and not r.c:
            self.pre(st, "the message was written before", ("text", a[1].r, a[1].o.key()) in st.trace, line)
        return [(self.raise_(st, False), None)]

    def c_PyErr_Format(self, v, st, a, line):
        return [(self.raise_(st, False), NULL)]

    def c_PyErr_SetNone(self, v, st, a, line):
        return [(self.raise_(st, False), None)]

    def c_PyErr_NoMemory(self, v, st, a, line):
        return [(self.raise_(st, False), NULL)]

    def c_PyErr_Clear(self, v, st, a, line):
        sgh(st, EXC, 0)
        return [(st, None)]

    # -------------------------------------------------- numbers
    def number(self, st, p):
        """value of an object as a double; None if unknown"""
        if p.r == "ARG":
            return self.argval
        if p.r and p.r.startswith("ITEM:"):
            return st.regs[p.r[5:]].at(p.o)
        if p.r and p.r in st.regs and VAL in st.regs[p.r].c:
            x = st.cell(p.r, VAL)
            return x if isinstance(x, F) else F(False, x.poly())
        return None

    def c_PyFloat_AsDouble(self, v, st, a, line):
        p = a[0]
        if p.r is None:
            return [(self.raise_(st, False), fval(-1))]
        x = self.number(st, p)
        need(x is not None, "number of an unknown object")
        self.code_runs(st)
        s = st.copy()
        return [(self.raise_(s), fval(-1)), (st, x)]

    def c_PyFloat_FromDouble(self, v, st, a, line):
        return self.may_fail(st, lambda s: self.obj(s, "float", a[0]))

    def c_PyLong_FromLong(self, v, st, a, line):
        x = I(64, v.signed(st, a[0]))
        return self.may_fail(st, lambda s: self.obj(s, "int", x))

    def c_PyLong_FromUnsignedLong(self, v, st, a, line):
        x = I(64, a[0].poly())
        return self.may_fail(st, lambda s: self.obj(s, "int", x))

    # -------------------------------------------------- sequences
    def sequence(self, st, kind, fail=True):
        def ok(s):
            p = self.obj(s, kind)
            s.ghost["items:" + p.r] = "V"
            return p
        self.code_runs(st)
        return self.may_fail(st, ok)

    def c_PySequence_List(self, v, st, a, line):
        need(isinstance(a[0], Ptr) and a[0].r == "ARG", "list of an unknown object")
        return self.sequence(st, "list")

    def c_PySequence_Tuple(self, v, st, a, line):
        need(isinstance(a[0], Ptr) and a[0].r == "ARG", "tuple of an unknown object")
        return self.sequence(st, "tuple")

    def c_PySequence_Fast(self, v, st, a, line):
        need(isinstance(a[0], Ptr) and a[0].r == "ARG", "sequence of an unknown object")
        s = st.copy()
        return self.sequence(st, "list") + self.sequence(s, "tuple")[1:]

    def length(self, st, p):
        """number of items of a list (which PyList_Append makes longer) or tuple"""
        if LEN in st.regs[p.r].c:
            return st.cell(p.r, LEN).poly()
        return st.regs[self.items(st, p)].n

    def items(self, st, p):
        return st.ghost.get("items:" + p.r) if isinstance(p, Ptr) and p.r else None

    def size_of(self, v, st, a, line, kinds):
        p = a[0]
        need(isinstance(p, Ptr), "size of an unknown object")
        if p.r is None or st.ghost.get("kind:" + p.r) not in kinds or not self.items(st, p):
            # not such an object: an error of the caller
            return [(self.raise_(st, False), ival(64, -1))]
        return [(st, I(64, self.length(st, p)))]

    def c_PyList_Size(self, v, st, a, line):
        return self.size_of(v, st, a, line, ("list",))

    def c_PyTuple_Size(self, v, st, a, line):
        return self.size_of(v, st, a, line, ("tuple",))

    def c_PySequence_Size(self, v, st, a, line):
        return self.size_of(v, st, a, line, ("list", "tuple"))

    def item(self, v, st, a, line, kinds):
        p, i = a[0], v.signed(st, a[1])
        need(isinstance(p, Ptr), "item of an unknown object")
        if p.r is None or st.ghost.get("kind:" + p.r) not in kinds or not self.items(st, p):
            return [(self.raise_(st, False), NULL)]
        r = self.items(st, p)
        self.pre(st, "an item of a live sequence", ile(1, st.cell(p.r, OWN).poly()), line)
        ok = band(ile(0, i), ilt(i, self.length(st, p)))
        out = []
        if v.feasible(st, bnot(ok)):
            s = st.copy()
            s.add(bnot(ok))
            out.append((self.raise_(s, False), NULL))
        if v.feasible(st, ok):
            st.add(ok)
            st.pool.append(i)
            out.append((st, Ptr("ITEM:" + r, i)))
        return out

    def c_PyList_GetItem(self, v, st, a, line):
        return self.item(v, st, a, line, ("list",))

    def c_PyTuple_GetItem(self, v, st, a, line):
        return self.item(v, st, a, line, ("tuple",))

    def c_PySequence_GetItem(self, v, st, a, line):
        """a new reference"""
        out = []
        for s, p in self.item(v, st, a, line, ("list", "tuple")):
            out.append((s, p if p.r is None else self.obj(s, "item", s.regs[p.r[5:]].at(p.o))))
        return out

    def c_PyList_New(self, v, st, a, line):
        n = v.signed(st, a[0])
        self.pre(st, "a list of a size that is not negative", ile(0, n), line)

        def ok(s):
            p = self.obj(s, "list")
            r = "LV:" + p.r
            s.regs[r] = Arr(r, 8, n, D_, nonan=False)
            s.ghost["items:" + p.r] = r
            if n.same(0):
                s.regs[r].n = P(1 << 61)
                s.setcell(p.r, LEN, I64, ival(64, 0))
            return p
        return self.may_fail(st, ok)

    def c_PyList_Append(self, v, st, a, line):
        """one more item, which the list shares"""
        p, x = a[0], a[1]
        r = self.items(st, p)
        need(r and r.startswith("LV:") and LEN in st.regs[p.r].c, "an item more for an unknown list")
        if isinstance(x, Ptr) and x.r is None:
            return [(self.raise_(st, False), ival(32, -1))]
        need(isinstance(x, Ptr) and x.r in st.regs and VAL in st.regs[x.r].c, "unknown list item")
        self.pre(st, "the item is a live object", ile(1, st.cell(x.r, OWN).poly()), line)
        val = st.cell(x.r, VAL)
        need(isinstance(val, F), "list item")
        f = self.raise_(st.copy())
        n = st.cell(p.r, LEN).poly()
        w = st.wr(r)
        w.stores = w.stores + ((n, val),)
        st.setcell(p.r, LEN, I64, I(64, n + 1))
        return [(f, ival(32, -1)), (st, ival(32, 0))]

    def c_PyList_SetItem(self, v, st, a, line):
        p, i, x = a[0], v.signed(st, a[1]), a[2]
        r = self.items(st, p)
        need(r and r.startswith("LV:"), "item of an unknown list")
        need(x.r is not None and VAL in st.regs[x.r].c, "unknown list item")
        val = st.cell(x.r, VAL)
        need(isinstance(val, F), "list item")
        self.steal(st, x, line)
        ok = band(ile(0, i), ilt(i, self.length(st, p)))
        out = []
        if v.feasible(st, bnot(ok)):
            s = st.copy()
            s.add(bnot(ok))
            out.append((self.raise_(s, False), ival(32, -1)))
        if v.feasible(st, ok):
            st.add(ok)
            w = st.wr(r)
            w.stores = w.stores + ((i, val),)
            out.append((st, ival(32, 0)))
        return out

    # -------------------------------------------------- buffers
    def c_malloc(self, v, st, a, line):
        b = a[0].poly()
        m = fresh_int("slots")
        st.add(ile(0, m))
        st.add(ile(m * 8, b))
        st.add(ilt(b, m * 8 + 8))
        s2 = st.copy()
        sgh(s2, FAIL, 1)
        # nothing or a block, when nothing is asked for
        s3 = st.copy()
        s3.add(ieq(b, 0))
        rid = "B%d" % st.nalloc
        st.nalloc += 1
        st.regs[rid] = Arr(rid, 8, m, D_, nonan=False)
        sgh(st, BUFS, gh(st, BUFS) + 1)
        st.ghost["heap:" + rid] = "live"
        out = [(st, Ptr(rid, 0)), (s2, NULL)]
        if v.feasible(s3, True):
            out.append((s3, NULL))
        return out

    def c_calloc(self, v, st, a, line):
        need(a[1].poly().is_const() and a[1].poly().cval() == 8 or a[0].poly().is_const(), "calloc")
        return self.c_malloc(v, st, [I(64, a[0].poly() * a[1].poly())], line)

    def c_free(self, v, st, a, line):
        p = a[0]
        if isinstance(p, Ptr) and p.r is None:
            return [(st, None)]
        live = isinstance(p, Ptr) and st.ghost.get("heap:" + str(p.r)) == "live" and p.o.same(0)
        self.pre(st, "the buffer released is a live one", live, line)
        if live:
            st.ghost["heap:" + p.r] = "freed"
            st.wr(p.r).n = P(0)
            sgh(st, BUFS, gh(st, BUFS) - 1)
        return [(st, None)]

    # -------------------------------------------------- values from C
    def cstr(self, st, p):
        need(isinstance(p, Ptr) and p.r and p.r.startswith("@") and p.o.same(0), "a text that is not constant")
        return text(self.mod, p.r)

    def c_Py_BuildValue(self, v, st, a, line):
        f = self.cstr(st, a[0])
        need(f[:1] == "{" and f[-1:] == "}" and f.count("{") == 1, "format " + f)
        codes = [c for c in f[1:-1] if c not in " ,:\t"]
        need(len(codes) == len(a) - 1 and len(codes) % 2 == 0, "arguments of the format " + f)
        d, bad = {}, False
        for k in range(0, len(codes), 2):
            need(codes[k] == "s", "key of the format " + f)
            key, c, x = self.cstr(st, a[1 + k]), codes[k + 1], a[2 + k]
            if c in "NO":
                need(isinstance(x, Ptr), "object of the format")
                if x.r is None:
                    bad = True
                elif c == "N":
                    self.steal(st, x, line)
                    x = Ptr(x.r, 0)
            elif c == "d":
                need(isinstance(x, F), "format d")
            elif c in "kilnKILb":
                need(isinstance(x, I) and x.w == (64 if c in "klnKL" else 32), "format " + c)
                x = I(64, v.signed(st, x) if c in "iln" else x.poly())
            else:
                raise Unsupported("format " + f)
            d[key] = x
        if bad:
            return [(self.raise_(st, False), NULL)]

        def ok(s):
            p = self.obj(s, "dict")
            s.ghost["dict:" + p.r] = tuple(d.items())
            return p
        return self.may_fail(st, ok)

    def c_PyByteArray_FromStringAndSize(self, v, st, a, line):
        p, n = a[0], a[1].poly()
        good = isinstance(p, Ptr) and p.r == "SELF" and p.o.same(BASE) and n.same(layout()[("Spot", ".")])
        self.pre(st, "raw: the whole detector and nothing else", good, line)
        return self.may_fail(st, lambda s: self.obj(s, "bytes"))

    # -------------------------------------------------- arguments
    def c_PyArg_ParseTupleAndKeywords(self, v, st, a, line):
        f = self.cstr(st, a[2]).split(":")[0].split(";")[0]
        need(isinstance(a[3], Ptr) and a[3].r and a[3].o.same(0), "keyword list")
        v.ensure_global(st, a[3].r)
        names, k = [], 0
        while True:
            x = st.regs[a[3].r].c[k][1]
            if x.r is None:
                break
            names.append(self.cstr(st, x))
            k += 8
        opt, kinds = False, []
        for c in f:
            if c == "|":
                opt = True
            elif c != "$":
                kinds.append((c, opt))
        need(len(kinds) == len(names) == len(a) - 4, "keywords of the format " + f)
        self.code_runs(st)
        s = st.copy()
        kw = {}
        for (c, opt), n, p in zip(kinds, names, a[4:]):
            ty = {"d": D_, "i": I32, "p": I32, "I": I32, "k": I64, "K": I64, "l": I64, "n": I64}.get(c)
            need(ty, "format " + f)
            val = self.new("kw_" + n, ty, st)
            given = fresh_bool("given_" + n) if opt else True
            kw[n] = (given, val, opt)
            for t in (st, s):
                old = v.load(t, p, ty, line)
                need(len(old) == 1, "argument")
                v.store(t, p, ty, ite(given, val, old[0][0]), line)
        st.ghost["kw"] = tuple(kw.items())
        return [(self.raise_(s), ival(32, 0)), (st, ival(32, 1))]

    # -------------------------------------------------- the library
    def detector(self, st, p, line, what):
        self.pre(st, "%s is given the object's own detector" % what, isinstance(p, Ptr) and p.r == "SELF" and p.o.same(BASE), line)

    def status(self, st):
        x = fresh_int("status")
        st.add(bor(ieq(x, 0), band(ile(-1005, x), ile(x, -1000))))
        sgh(st, CALLS, gh(st, CALLS) + 1)
        sgh(st, STATUS, x)
        return I(32, of_z3(z3.If(zb(ilt(x, 0)), (x + (1 << 32)).zi(), x.zi()), True))

    def calm(self, st, line, what):
        self.pre(st, "no exception is pending when %s is called" % what, ieq(gh(st, EXC), 0), line)

    def c_spot_fit(self, v, st, a, line):
        self.detector(st, a[0], line, "spot_fit")
        self.calm(st, line, "spot_fit")
        self.pre(st, "the detector has storage", bnot(ieq(gh(st, INIT), 0)), line)
        n = a[2].poly()
        self.pre(st, "spot_fit is given the number of values", ieq(n, self.N), line)
        p = a[1]
        if p.r is None:
            self.pre(st, "no values, no buffer", ieq(n, 0), line)
        else:
            r = st.regs.get(p.r)
            need(r is not None and r.kind == "arr" and p.o.same(0), "values that are not in a buffer")
            self.pre(st, "the values are inside the buffer", ile(n, r.n), line)
            self.pre(st, "spot_fit is given exactly the values", imp(ilt(self.g, n), feq(r.at(self.g), st.regs["V"].at(self.g))), line)
        return [(st, self.status(st))]

    def c_spot_step(self, v, st, a, line):
        self.detector(st, a[0], line, "spot_step")
        self.calm(st, line, "spot_step")
        self.pre(st, "the detector has storage", bnot(ieq(gh(st, INIT), 0)), line)
        self.pre(st, "spot_step is given exactly the value", feq(a[1], self.argval), line)
        x = fresh_int("status")
        st.add(bor(band(ile(0, x), ile(x, 2)), band(ile(-1005, x), ile(x, -1000))))
        sgh(st, CALLS, gh(st, CALLS) + 1)
        sgh(st, STATUS, x)
        return [(st, I(32, of_z3(z3.If(zb(ilt(x, 0)), (x + (1 << 32)).zi(), x.zi()), True)))]

    def answer(self, v, st, a, line, what):
        self.detector(st, a[0], line, what)
        self.calm(st, line, what)
        self.pre(st, "%s is given exactly the value" % what, feq(a[1], self.argval), line)
        sgh(st, CALLS, gh(st, CALLS) + 1)
        st.ghost["asked"] = what
        x = F(fresh_bool("nan_answer"), fresh_real("answer"))
        st.ghost["answer"] = x
        return [(st, x)]

    def c_spot_quantile(self, v, st, a, line):
        return self.answer(v, st, a, line, "spot_quantile")

    def c_spot_probability(self, v, st, a, line):
        return self.answer(v, st, a, line, "spot_probability")

    def c_spot_init(self, v, st, a, line):
        self.detector(st, a[0], line, "spot_init")
        self.calm(st, line, "spot_init")
        self.pre(st, "the previous storage has been released", ieq(gh(st, INIT), 0), line)
        kw = dict(st.ghost.get("kw", ()))
        D = {"q": None, "low": ival(32, 0), "discard_anomalies": ival(32, 1), "level": fval(Fraction(0.98)), "max_excess": ival(64, 500)}
        for n, x in zip(("q", "low", "discard_anomalies", "level", "max_excess"), a[1:]):
            need(n in kw, "keyword " + n)
            given, val, opt = kw[n]
            want = val if D[n] is None else ite(given, val, D[n])
            if n in ("low", "discard_anomalies"):
                e = zb(ieq(want.poly(), 0)) == zb(ieq(x.poly(), 0))
            elif isinstance(x, F):
                e = feq(want, x)
            else:
                e = ieq(want.poly(), x.poly())
            self.pre(st, "spot_init is given %s" % n, e, line)
        r = self.status(st)
        sgh(st, INIT, of_z3(z3.If(zb(ieq(gh(st, STATUS), 0)), z3.IntVal(1), z3.IntVal(0)), True))
        return [(st, r)]

    def c_spot_free(self, v, st, a, line):
        self.detector(st, a[0], line, "spot_free")
        sgh(st, INIT, 0)
        return [(st, None)]

    def c_libspot_error(self, v, st, a, line):
        p, n = a[1], a[2].poly()
        r = st.regs.get(p.r)
        need(r is not None and r.kind == "cells" and p.o.is_const(), "message buffer")
        self.pre(st, "the message fits the buffer", band(ile(0, p.o), ile(n + p.o, r.size)), line)
        self.pre(st, "the message is that of the library's answer", ieq(v.signed(st, a[0]), P(0) - gh(st, STATUS)), line)
        st.trace.append(("text", p.r, p.o.key()))
        return [(st, None)]

    def c_libspot_version(self, v, st, a, line):
        p, n = a[0], a[1].poly()
        r = st.regs.get(p.r)
        need(r is not None and r.kind == "cells" and p.o.is_const(), "buffer")
        self.pre(st, "the version fits the buffer", band(ile(0, p.o), ile(n + p.o, r.size)), line)
        st.trace.append(("text", p.r, p.o.key()))
        return [(st, None)]

    # -------------------------------------------------- types, modules
    def c_PyType_GetSlot(self, v, st, a, line):
        need(isinstance(a[0], Ptr) and a[0].r == "TYPE" and a[1].poly().same(74), "slot")
        return [(st, Ptr("TPFREE", 0))]

    def release(self, v, st, a, line):
        self.pre(st, "the object itself is released", isinstance(a[0], Ptr) and a[0].r == "SELF" and a[0].o.same(0), line)
        self.pre(st, "the storage is released before the object", ieq(gh(st, INIT), 0), line)
        sgh(st, TPFREE, gh(st, TPFREE) + 1)
        st.wr("SELF").size = 0
        return [(st, None)]

    def c_PyObject_Free(self, v, st, a, line):
        if isinstance(a[0], Ptr) and a[0].r == "SELF":
            return self.release(v, st, a, line)
        return self.c_free(v, st, a, line)

    def indirect(self, v, st, fv, a, line):
        if fv.r == "TPFREE":
            return self.release(v, st, a, line)
        raise Unsupported("call through an unknown pointer")

    def c_PyType_FromSpec(self, v, st, a, line):
        return [(st, self.obj(st, "type"))]

    def c_PyType_Ready(self, v, st, a, line):
        return [(st, ival(32, 0))]

    def c_PyModule_Create2(self, v, st, a, line):
        return [(st, self.obj(st, "module"))]

    def c_PyModule_AddStringConstant(self, v, st, a, line):
        if isinstance(a[2], Ptr) and a[2].r in st.regs and st.regs[a[2].r].kind == "cells":
            self.pre(st, "the text of a constant was written before", ("text", a[2].r, a[2].o.key()) in st.trace, line)
        st.trace.append(("const", self.cstr(st, a[1]), None))
        return [(st, ival(32, 0))]

    def c_PyModule_AddIntConstant(self, v, st, a, line):
        st.trace.append(("const", self.cstr(st, a[1]), a[2].poly()))
        return [(st, ival(32, 0))]

    def c_PyModule_AddObject(self, v, st, a, line):
        self.steal(st, a[2], line)
        st.trace.append(("const", self.cstr(st, a[1]), st.ghost.get("kind:" + str(a[2].r))))
        return [(st, ival(32, 0))]

    def c_PyModule_AddObjectRef(self, v, st, a, line):
        st.trace.append(("const", self.cstr(st, a[1]), st.ghost.get("kind:" + str(a[2].r))))
        return [(st, ival(32, 0))]

    def c_set_allocators(self, v, st, a, line):
        st.trace.append(("alloc", a[0].name if isinstance(a[0], Fn) else None, a[1].name if isinstance(a[1], Fn) else None))
        return [(st, None)]

    # -------------------------------------------------- outcomes
    def returned(self, s, r):
        """one object or an exception; nothing else is kept"""
        fu = self.fu
        null = isinstance(r, Ptr) and r.r is None
        if null:
            fu.post("returns nothing with an exception pending", s, ieq(gh(s, EXC), 1))
            fu.post("owns no reference when it fails", s, ieq(gh(s, REFS), 0))
        else:
            fu.post("returns an object with no exception pending", s, ieq(gh(s, EXC), 0))
            fu.post("returns an object", s, self.isobj(s, r))
            if self.isobj(s, r):
                n = 0 if self.immortal(r) else 1
                fu.post("owns exactly the reference it returns", s, band(ieq(gh(s, REFS), n), True if self.immortal(r) else ieq(s.cell(r.r, OWN).poly(), 1)))
        fu.post("releases every buffer", s, ieq(gh(s, BUFS), 0))
        return not null


ALIAS = {"_Py_BuildValue_SizeT": "Py_BuildValue", "_PyArg_ParseTupleAndKeywords_SizeT": "PyArg_ParseTupleAndKeywords",
         "PyMem_Malloc": "malloc", "PyMem_RawMalloc": "malloc", "PyObject_Malloc": "malloc", "PyMem_Free": "free",
         "PyMem_RawFree": "free", "PyMem_Calloc": "calloc", "PyMem_RawCalloc": "calloc", "PySequence_Length": "PySequence_Size",
         "PyLong_FromSsize_t": "PyLong_FromLong", "PyLong_FromLongLong": "PyLong_FromLong",
         "PyLong_FromSize_t": "PyLong_FromUnsignedLong", "PyLong_FromUnsignedLongLong": "PyLong_FromUnsignedLong"}


def call(what, args):
    f, conv = entry(what)
    py = Py(f[1:])
    need(conv == {1: 8, 0: 4}[len(args)], "calling convention of " + what)
    a = [Ptr("SELF", 0)] + args
    if not args and len(py.mod.funcs[f].params) == 2:
        a.append(NULL)
    outs = py.fu.run(a)
    return py, outs


def p_fit():
    py, outs = call("fit", [Ptr("ARG", 0)])
    fu = py.fu
    good = []
    for s, r in outs:
        if py.returned(s, r):
            good.append(s)
            fu.post("succeeds only when the library does", s, band(ieq(gh(s, CALLS), 1), ieq(gh(s, STATUS), 0)))
        else:
            fu.post("fails only when something failed", s, bor(ieq(gh(s, FAIL), 1), ilt(gh(s, STATUS), 0), ieq(gh(s, INIT), 0)))
    fu.probe("success", good, lambda s: ilt(100, py.N))
    fu.probe("an empty iterable", [s for s, _ in outs], lambda s: band(ieq(py.N, 0), ieq(gh(s, CALLS), 1)))
    fu.probe("the library refuses", [s for s, _ in outs], lambda s: ilt(gh(s, STATUS), 0))
    fu.probe("a value is not a number", [s for s, _ in outs], lambda s: ieq(gh(s, FAIL), 1))
    return fu


def p_step():
    py, outs = call("step", [Ptr("ARG", 0)])
    fu = py.fu
    good = []
    for s, r in outs:
        if py.returned(s, r):
            good.append(s)
            x = s.cell(r.r, VAL) if py.isobj(s, r) and VAL in s.regs[r.r].c else None
            fu.post("the result is the library's answer", s, band(ieq(gh(s, CALLS), 1), isinstance(x, I) and ieq(x.poly(), gh(s, STATUS))))
        else:
            fu.post("fails only when something failed", s, bor(ieq(gh(s, FAIL), 1), ieq(gh(s, INIT), 0)))
    fu.probe("success", good, lambda s: ieq(gh(s, STATUS), 2))
    return fu


def p_ask(what):
    py, outs = call(what, [Ptr("ARG", 0)])
    fu = py.fu
    good = []
    for s, r in outs:
        if py.returned(s, r):
            good.append(s)
            x = s.cell(r.r, VAL) if py.isobj(s, r) and VAL in s.regs[r.r].c else None
            a = s.ghost.get("answer")
            fu.post("the result is the library's answer", s, band(ieq(gh(s, CALLS), 1), s.ghost.get("asked") == "spot_" + what,
                                                                  a is not None and isinstance(x, F) and feq(x, a)))
        else:
            fu.post("fails only when something failed", s, ieq(gh(s, FAIL), 1))
    fu.probe("success", good)
    return fu


def window_list(py, s, p):
    """p is the list of the stored values"""
    T = py.T
    r = py.items(s, p)
    if not (r and r.startswith("LV:")):
        return False
    n = of_z3(z3.If(zb(ieq(T.fil, 0)), T.cur.zi(), T.cap.zi()), True)
    return band(ieq(py.length(s, p), n), imp(ilt(py.g, n), feq(s.regs[r].at(py.g), s.regs[T.arr].at(py.g))))


def p_raw(what):
    """methods without argument"""
    py, outs = call(what, [])
    fu, T = py.fu, py.T
    good = []
    for s, r in outs:
        if not py.returned(s, r):
            fu.post("fails only when something failed", s, ieq(gh(s, FAIL), 1))
            continue
        good.append(s)
        if what == "excesses":
            fu.post("the stored values, in order", s, window_list(py, s, r))
        elif what == "as_dict":
            D = lambda p: dict(s.ghost.get("dict:" + str(p.r), ())) if isinstance(p, Ptr) else {}
            d = D(r)
            t = D(d.get("tail"))
            p = D(t.get("peaks"))
            c = D(p.get("container"))
            want = {"q": d, "level": d, "discard_anomalies": d, "low": d, "anomaly_threshold": d, "excess_threshold": d, "Nt": d, "n": d,
                    "gamma": t, "sigma": t, "e": p, "e2": p, "min": p, "max": p, "cursor": c, "capacity": c, "last_erased_data": c, "filled": c}
            for k, w in want.items():
                x, f = w.get(k), T.v0[k]
                if isinstance(f, F):
                    e = isinstance(x, F) and feq(x, f)
                else:
                    m = f.poly() if f.w == 64 else py.v.signed(s, f)
                    e = isinstance(x, I) and ieq(x.poly(), m)
                fu.post("reports %s" % k, s, e)
            fu.post("reports the stored values", s, "data" in c and window_list(py, s, c["data"]))
        elif what == "raw":
            fu.post("returns bytes", s, s.ghost.get("kind:" + r.r) == "bytes")
    fu.probe("success", good, lambda s: ieq(py.init0, 1))
    fu.probe("success without storage", good, lambda s: ieq(py.init0, 0))
    return fu


def p_init():
    f, _ = entry("tp_init")
    py = Py(f[1:])
    fu = py.fu
    py.st.wr("SELF").ro = False
    outs = fu.run([Ptr("SELF", 0), Ptr("ARGS", 0), Ptr("KW", 0)])
    for s, r in outs:
        z, neg = ieq(r.poly(), 0), ile(1 << 31, r.poly())
        fu.post("answers zero or a negative number", s, bor(z, neg))
        fu.post("success: no exception, the library accepted", s, imp(z, band(ieq(gh(s, EXC), 0), ieq(gh(s, CALLS), 1), ieq(gh(s, STATUS), 0))))
        fu.post("failure: an exception", s, imp(neg, ieq(gh(s, EXC), 1)))
        fu.post("fails only when something failed", s, imp(neg, bor(ieq(gh(s, FAIL), 1), ilt(gh(s, STATUS), 0))))
        fu.post("keeps no reference", s, ieq(gh(s, REFS), 0))
        fu.post("releases every buffer", s, ieq(gh(s, BUFS), 0))
    fu.probe("success", [s for s, _ in outs], lambda s: ieq(gh(s, INIT), 1))
    fu.probe("the library refuses", [s for s, _ in outs], lambda s: ilt(gh(s, STATUS), 0))
    return fu


def p_dealloc():
    f, _ = entry("tp_dealloc")
    py = Py(f[1:])
    fu, st = py.fu, py.st
    st.wr("SELF").ro = False
    st.setcell("TYPE", OWN, I64, ival(64, 1))      # every instance holds a reference to its type
    sgh(st, REFS, 1)
    outs = fu.run([Ptr("SELF", 0)])
    for s, r in outs:
        fu.post("releases the object once", s, ieq(gh(s, TPFREE), 1))
        fu.post("releases the storage", s, ieq(gh(s, INIT), 0))
        fu.post("releases the type", s, ieq(gh(s, REFS), 0))
        fu.post("releases every buffer", s, ieq(gh(s, BUFS), 0))
    fu.probe("returns", [s for s, _ in outs])
    return fu


def p_module():
    mod = pymodule()
    need("@PyInit_libspot" in mod.funcs, "PyInit_libspot")
    py = Py("PyInit_libspot")
    fu = py.fu
    outs = fu.run([])
    want = {"NORMAL": 0, "EXCESS": 1, "ANOMALY": 2}
    for s, r in outs:
        c = {t[1]: t[2] for t in s.trace if t[0] == "const"}
        fu.post("returns the module", s, isinstance(r, Ptr) and s.ghost.get("kind:" + str(r.r)) == "module")
        fu.post("no exception is pending", s, ieq(gh(s, EXC), 0))
        for k, n in want.items():
            fu.post("%s is the library's" % k, s, k in c and ieq(P(c[k]), n))
        fu.post("provides the type and the version", s, c.get("Spot") == "type" and "__version__" in c)
        fu.post("the library is given allocators", s, [t[1:] for t in s.trace if t[0] == "alloc"][-1:] == [("@malloc", "@free")])
    fu.probe("returns", [s for s, _ in outs])
    # attributes
    L = layout()
    at = {}
    for e in table(mod, "PyMemberDef"):
        if e[0][0] == "g":
            at[text(mod, e[0][1])] = (e[1][2], e[2][2], e[3][2])
    T = py.T
    for k in ("q", "level", "anomaly_threshold", "excess_threshold", "Nt", "n", "gamma", "sigma"):
        fu.post("attribute %s is the detector's, read-only" % k, py.st,
                at.get(k) == (4 if TY.get(k, D_) == D_ else 12, BASE + T.off[k], 1))
    return fu


PENTRY = [("p_fit",), ("p_step",), ("p_ask", "quantile"), ("p_ask", "probability"), ("p_raw", "excesses"), ("p_raw", "as_dict"),
          ("p_raw", "raw"), ("p_init",), ("p_dealloc",), ("p_module",)]
