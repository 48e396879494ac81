"""The checks: which contracts decide which property."""
import os, shutil, time
from concurrent.futures import ThreadPoolExecutor
from .common import *
from . import cbmc
from .decide import Check
from .oracle import Oracle

CBMC_TRUST = ["CBMC 6.11 (goto-cc front end, goto-instrument --dfcc, symbolic execution, bit-blasting)",
              "cvc5 1.1.2, MiniSat, kissat", "the contract files in /verif/contracts"]
CBMC_ASSUME = [
    "x86-64 data model, IEEE-754 binary64 arithmetic in round-to-nearest, no excess precision (machine arithmetic is modelled bit-precisely)",
    "windows have at most 2^48 slots (CBMC object size)",
]


def jobs(c, specs, pool=4):
    """run several cbmc jobs, in order of submission"""
    with ThreadPoolExecutor(pool) as ex:
        for r in ex.map(lambda s: cbmc.job(*s[0], **s[1]), specs):
            c.add(r)


RVC_TRUST = ["clang 18.1 -O0 and opt 18.1 (mem2reg, simplifycfg): the LLVM IR of /repo's sources",
             "rvc (lib/vp/rvc.py, poly.py, ir.py): symbolic execution, loop cutting, obligation generation",
             "z3 (python API) with nlsat, cvc5 1.1.2 as second opinion", "the contracts in lib/vp/rspec.py"]
RVC_ASSUME = ["floating-point arithmetic is treated as real arithmetic with an undefined value (NaN): rounding, infinities and signed zeros are not modelled",
              "integers are machine integers; windows and batches have at most 2^60 values"]
A_EXPLOG = "exp and log are the mathematical functions (their accuracy is C09)"


def rvc(c, specs, limit=420, only=None):
    """verify functions with rvc, one process each: specs = [(name, args...)]"""
    import multiprocessing as mp
    from . import rspec, mspec, pspec
    os.environ.setdefault("VP_RVC_DEADLINE", str(limit * 0.45 if TIER == "quick" else limit))
    try:
        rspec.module()
        if any(sp[0] == "v_text" for sp in specs):
            rspec.module(mspec.TEXTD)
        if any(sp[0].startswith("p_") for sp in specs):
            pspec.pymodule()
        rspec.layout()
    except Exception as e:
        for sp in specs:
            c.add(([Obligation(sp[0] + ": within reach of the verifier", "unknown", "rvc", str(e)[:300], detail=repr(e)[:1500])], {}))
        return
    ctx = mp.get_context("fork")
    run, todo, res = {}, list(enumerate(specs)), {}
    try:
        while todo or run:
            while todo and len(run) < NCPU:
                i, sp = todo.pop(0)
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_rvc_child, args=(b, sp), daemon=True)
                p.start()
                b.close()
                run[i] = (p, a, time.time(), sp)
            for i, (p, a, t, sp) in list(run.items()):
                if a.poll(0.05):
                    try:
                        res[i] = a.recv()
                    except EOFError:
                        res[i] = None
                    p.join()
                    del run[i]
                elif time.time() - t > limit:
                    p.kill()
                    p.join()
                    res[i] = None
                    del run[i]
    finally:
        for p, *_ in run.values():
            p.kill()
    for i, sp in enumerate(specs):
        r = res.get(i)
        if r is None:
            r = ([Obligation(" ".join(sp) + ": within reach of the verifier", "unknown", "rvc", "time limit", detail="time limit or crash of the verifier process")],
                 {"function": sp[0]})
        obs, info = r
        if only:
            obs = [o for o in obs if only(o)]
        c.add((obs, info))
    c.extra.setdefault("rvc", [])
    for r in res.values():
        if r:
            c.extra["rvc"].append(r[1])
    c.extra["loop_invariant_obligations_discharged"] = sum(x.get("invariant_obligations", 0) for x in c.extra["rvc"])
    c.extra["solver_queries"] = sum(x.get("queries", 0) for x in c.extra["rvc"])


def _rvc_child(conn, sp):
    import signal
    from . import rspec, mspec, pspec, common
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        name = " ".join(sp)
        r = rspec.guarded(name, lambda: next(getattr(m, sp[0]) for m in (rspec, mspec, pspec) if hasattr(m, sp[0]))(*sp[1:]))
        for o in r[0]:
            for k in ("name", "text", "detail", "where", "func", "backend"):
                setattr(o, k, str(getattr(o, k)))
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def J(*a, **k):
    return (a, k)


STEP_R = ["tail_push", "peaks_push", "tail_fit", "tail_quantile"]


def C01():
    c = Check("C01")
    c.functions = ["spot_init", "tail_init (inlined)", "peaks_init (inlined)", "ubend_init (inlined)", "xmalloc (contract, proved by C11)"]
    c.trusted = CBMC_TRUST
    c.assumptions = CBMC_ASSUME + ["max_excess between 2^48 and 2^61 is not covered (beyond CBMC's object sizes)"]
    jobs(c, [J("create", "create.c", "h_create", "spot_init", ["xmalloc", "xfree"])])
    c.oracle = Oracle("C01")
    return c


def C02():
    c = Check("C02")
    c.functions = ["spot_step", "spot_quantile (inlined)", "tail_push / peaks_push (contract, C04)", "tail_fit (contract, C06)", "tail_quantile (contract, C07)"]
    c.trusted = CBMC_TRUST
    c.assumptions = CBMC_ASSUME + ["the excess threshold is not infinite"]
    jobs(c, [J("verdict", "step.c", "h_step", "spot_step", STEP_R, ["P_C02"])])
    c.oracle = Oracle("C02")
    return c


def C03():
    c = Check("C03")
    c.functions = ["spot_step", "spot_quantile (inlined)", "tail_push / peaks_push (contract, C04)", "tail_fit (contract, C06)", "tail_quantile (contract, C07)"]
    c.trusted = CBMC_TRUST
    c.assumptions = CBMC_ASSUME + ["the excess threshold is not infinite"]
    jobs(c, [J("frame", "step.c", "h_step", "spot_step", STEP_R, ["P_C03"])])
    c.oracle = Oracle("C03")
    return c


def C04():
    c = Check("C04")
    c.functions = ["ubend_push", "ubend_size", "peaks_size", "ubend_init", "xmalloc (contract, proved by C11)"]
    c.trusted = CBMC_TRUST
    c.assumptions = CBMC_ASSUME + ["fewer than 2^62 insertions"]
    jobs(c, [J("push", "window.c", "h_push", "ubend_push"),
             J("size", "window.c", "h_size", "ubend_size"),
             J("psize", "window.c", "h_psize", "peaks_size"),
             J("init", "window.c", "h_init", "ubend_init", ["xmalloc"])])
    c.oracle = Oracle("C04")
    return c


LEMMAS = ["lemma_sym", "lemma_anti", "lemma_addsym", "lemma_neg", "lemma_mirror"]


def C08():
    c = Check("C08")
    from . import mspec
    D = ["brent"] + list(mspec.PEAK_C)
    c.functions = ["spot_step", "spot_quantile", "spot_probability"] + ["%s (determinism: reads contract)" % x for x in D + ["xlog", "xexp", "xpow"]]
    c.trusted = CBMC_TRUST + RVC_TRUST
    c.assumptions = CBMC_ASSUME + ["a zero excess acts the same in the tail functions whatever its sign", "installed float functions are deterministic"]
    P = ("sat", "cvc5", "kissat")
    R = ["tail_push", "peaks_push", "tail_fit", "tail_quantile", "tail_probability"] + LEMMAS
    S = [J("step", "mirror.c", "h_mstep", None, R + ["spot_quantile"], ["WITH_QUANTILE"], solvers=P, timeout=200),
         J("probability", "mirror.c", "h_mprob", None, R, solvers=P, timeout=200),
         J("quantile", "mirror.c", "h_mquant", None, R, solvers=P, timeout=200)]
    for l in LEMMAS:
        S.append(J(l, "mirror.c", "h_" + l, l, ["lemma_addsym", "lemma_neg"] if l == "lemma_mirror" else [],
                   solvers=P, timeout=400))
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(jobs, c, S, 3)
        rvc(c, [("d_fun", x) for x in D] + [("d_math", x) for x in ("xlog", "xexp", "xpow")])
        f.result()
    c.oracle = Oracle("C08")
    return c


def wasm_dir():
    d = os.path.join(scratch(), "wasm_tree")
    os.makedirs(d + "/wasm", exist_ok=True)
    os.makedirs(d + "/dist", exist_ok=True)
    with open(d + "/dist/spot.h", "w") as f:
        f.write('#include "%s/include/spot.h"\n' % REPO)
    shutil.copy(os.path.join(REPO, "wasm", "main.c"), d + "/wasm/main.c")
    return d + "/wasm/main.c"


def C11():
    c = Check("C11")
    from . import mspec
    c.functions = ["xmalloc", "xfree", "set_allocators", "spot_init", "spot_free", "ubend_init", "ubend_free", "spot_new (wasm)"] + \
        ["%s (no request, no release)" % x for x in list(mspec.PEAK_C) + ["spot_fit", "p2_quantile", "sort5", "brent"]]
    c.trusted = CBMC_TRUST + RVC_TRUST
    c.assumptions = CBMC_ASSUME + ["the C library's calloc/malloc behave as in CBMC's library (wasm/main.c)"]
    jobs(c, [J("xmalloc", "alloc.c", "h_xmalloc", "xmalloc"),
             J("xfree", "alloc.c", "h_xfree", "xfree"),
             J("life", "alloc.c", "h_life", dfcc=False),
             J("wasm", "wasm_new.c", "h_new", dfcc=False, srcs=cbmc.sources() + [wasm_dir()],
               incs=[os.path.join(VERIF, "contracts", "stubs")], flags=["--malloc-may-fail", "--malloc-fail-null"])])
    rvc(c, [e for e in mspec.ENTRY if e not in (("m_init",), ("m_free",))], only=lambda o: "storage" in o.name or "allocator" in o.name or o.status == "unknown" and "within reach" in o.name)
    c.oracle = Oracle("C11")
    return c


def C12():
    c = Check("C12")
    c.functions = ["libspot_version", "libspot_license", "libspot_error", "strncpy (inlined, loop invariants)"]
    c.trusted = RVC_TRUST
    c.assumptions = ["buffers of at most 2^60 bytes", "the version and license texts are those given to the compiler (a probe text here)"]
    rvc(c, [("v_text", f, b) for f in TEXTS for b in ("buffer", "null", "empty")])
    c.oracle = Oracle("C12")
    return c


TEXTS = ("libspot_error", "libspot_version", "libspot_license")


def C10():
    from . import mspec
    c = Check("C10")
    c.functions = [f for f in mspec.PEAK_C] + ["spot_fit", "p2_quantile", "sort5", "brent", "grimshaw_w (through brent's contract)", "spot_init", "spot_free",
                                               "xexp", "xlog", "xpow", "xmin", "musl_frexp", "musl_ldexp", "xmalloc", "xfree"] + list(TEXTS)
    c.trusted = RVC_TRUST + CBMC_TRUST
    c.assumptions = ["windows, batches and buffers have at most 2^60 elements",
                     "the detector passed in is one that spot_init accepted (window invariant), not yet released; batches and buffers do not overlap it",
                     "the caller's allocator returns null or storage of the requested size; the caller's float functions terminate and touch nothing else"]
    S = dict(dfcc=False, srcs=[], incs=[os.path.join(REPO, "src")], unwind=24, solvers=("sat", "kissat"), timeout=240, flags=["--conversion-check"],
             only=lambda p: "type conversion" not in p["description"] or "float" in p["description"])
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(jobs, c, [J("math_" + h, "mathsafe.c", "h_" + h, **S) for h in ("exp", "log", "frexp", "ldexp", "min")] +
                      [J("xmalloc", "alloc.c", "h_xmalloc", "xmalloc"), J("xfree", "alloc.c", "h_xfree", "xfree")])
        rvc(c, sorted(mspec.ENTRY, key=lambda x: x not in (("m_p2",), ("m_brent",))) + [("v_text", f, b) for f in TEXTS for b in ("buffer", "null", "empty")])
        f.result()
    for o in c.obs:
        # who calls the allocator is C11; what follows such a call was not followed here
        if "frame: requests no storage" in o.name or "frame: releases no storage" in o.name or "no call of the allocator" in o.name:
            o.skip = o.status == "proved"
            o.status = "unknown"
        # the texts themselves are C12
        if o.name.startswith("libspot_") and "/" not in o.name:
            o.skip = True
    c.obs = [o for o in c.obs if not getattr(o, "skip", False)]
    c.oracle = Oracle("C10", san=True)
    return c


def C05():
    c = Check("C05")
    c.functions = ["peaks_init", "peaks_push", "tail_push", "ubend_push, ubend_init (inlined)", "peaks_update_stats (inlined, loop invariant)", "peaks_size", "peaks_mean", "peaks_var", "ubend_size (inlined)"]
    c.trusted = RVC_TRUST
    c.assumptions = RVC_ASSUME + ["pushed values are numbers (spot_step and spot_fit push no NaN: C02, C13)"]
    rvc(c, [("v_push", "peaks_push"), ("v_push", "tail_push"), ("v_push", "peaks_push", "drift"), ("v_push", "tail_push", "drift"), ("v_moments", "peaks_mean"), ("v_moments", "peaks_var"), ("v_moments", "peaks_size"), ("v_lemmas_stats",), ("v_init",)])
    c.oracle = Oracle("C05")
    return c


def C06():
    c = Check("C06")
    c.functions = ["tail_fit", "grimshaw_estimator", "grimshaw_simplified_log_likelihood, grimshaw_v (inlined, loop invariants)",
                   "mom_estimator (contract, C16)", "log_likelihood (contract, C16)", "brent (contract, C14)"]
    c.trusted = RVC_TRUST
    c.assumptions = RVC_ASSUME + [A_EXPLOG, "stored excesses are not negative and not all zero", "the exponential candidate has a defined likelihood (sum of excesses positive)"]
    rvc(c, [("v_tailfit",), ("v_grimshaw",)])
    c.oracle = Oracle("C06")
    return c


def C07():
    c = Check("C07")
    c.functions = ["tail_quantile", "tail_probability", "spot_quantile", "spot_probability", "xpow (inlined)", "xexp, xlog (contracts, C09)"]
    c.trusted = RVC_TRUST + ["axioms of exp and log: exp(log x) = x, log(exp x) = x, monotone, exp > 0, exp 0 = 1, log 1 = 0"]
    c.assumptions = RVC_ASSUME + [A_EXPLOG]
    rvc(c, [("v_tailq", f) for f in ("tail_quantile", "tail_probability", "spot_quantile", "spot_probability")] + [("v_lemmas_tail",)])
    c.oracle = Oracle("C07")
    return c


FPERR_TRUST = ["clang 18.1 -O0 and opt 18.1 (mem2reg, simplifycfg): the LLVM IR of /repo's sources",
               "fperr (lib/vp/fperr.py): standard model of rounding errors, case splitting, mean value bound",
               "mpmath interval arithmetic (exp and log at the middle of a cell)"]


def C09():
    c = Check("C09")
    c.functions = ["xexp", "_exp_cf_6 (inlined)", "xlog", "_log_cf_11 (inlined)", "is_nan (inlined)", "xpow", "musl_frexp", "musl_ldexp", "set_float_utils, internal_set_float_utils"]
    c.trusted = FPERR_TRUST + CBMC_TRUST
    c.assumptions = ["IEEE-754 binary64 arithmetic in round-to-nearest, no excess precision and no contraction",
                     "the default decomposition and scaling functions are in use (set_float_utils replaces them by the caller's)"]
    n = 16
    rvc(c, [("v_log", "%d/%d" % (i, n)) for i in range(n)] + [("v_exp", "%d/%d" % (i, n)) for i in range(n)])
    S = dict(dfcc=False, defs=["WITH_STATICS"], srcs=[], incs=[os.path.join(REPO, "src")], unwind=4, solvers=("sat", "kissat"), timeout=240)
    jobs(c, [J("frexp", "fpcore.c", "h_frexp", **S), J("frexp0", "fpcore.c", "h_frexp0", **S), J("ldexpnan", "fpcore.c", "h_ldexpnan", **S),
             J("ldexp", "fpcore.c", "h_ldexp", **S), J("pow", "fpcore.c", "h_pow", "xpow", ["xexp", "xlog"]),
             J("utils", "fpcore.c", "h_utils", dfcc=False, unwind=24)])
    c.oracle = Oracle("C09")
    return c


def C13():
    c = Check("C13")
    c.functions = ["spot_fit (loop invariant over a ghost history)", "p2_quantile (contract, C17)", "tail_push/peaks_push (contract, C04)", "tail_fit (contract, C06)", "tail_quantile (contract, C07)"]
    c.trusted = RVC_TRUST
    c.assumptions = RVC_ASSUME + ["the detector is fresh (empty window)"]
    rvc(c, [("v_fit",)])
    c.oracle = Oracle("C13")
    return c


def C14():
    c = Check("C14")
    c.functions = ["brent (loop invariant)", "_fabs (inlined)", "the searched function (uninterpreted, total)"]
    c.trusted = RVC_TRUST
    c.assumptions = RVC_ASSUME + ["the searched function is deterministic and never NaN; the tolerance is not negative"]
    rvc(c, [("v_brent", "up"), ("v_brent", "down")])
    c.oracle = Oracle("C14")
    return c


def C16():
    c = Check("C16")
    c.functions = ["log_likelihood (loop invariant)", "mom_estimator", "peaks_mean, peaks_var (inlined)", "grimshaw_estimator", "grimshaw_w (loop invariant)", "grimshaw_v (loop invariant)"]
    c.trusted = RVC_TRUST
    c.assumptions = RVC_ASSUME + [A_EXPLOG, "the window statistics are those of the stored values (C05), the window is not empty"]
    rvc(c, [("v_loglik", "zero"), ("v_loglik", "shape"), ("v_loglik", "undefined"), ("v_mom",), ("v_grimshaw",)])
    c.oracle = Oracle("C16")
    return c


def C17():
    c = Check("C17")
    c.functions = ["p2_quantile", "quantile (loop invariants)", "parabolic, linear, sign, init_p2 (inlined)", "sort5"]
    c.trusted = RVC_TRUST
    c.assumptions = RVC_ASSUME + ["the batch contains no NaN"]
    rvc(c, [("v_p2", "long"), ("v_sort5",), ("v_p2", "short"), ("v_p2", "five")], limit=700)
    c.oracle = Oracle("C17", inside="p2.c")
    return c




def py_object():
    """the binding, compiled for the stand-in of the interpreter (replay/C15.c)"""
    from . import pspec
    src = pspec.py_source()
    out = os.path.join(scratch(), "libspotmodule.o")
    r = sh(["gcc", "-std=gnu11", "-O1", "-g", "-w"] + ["-D" + d for d in pspec.PYDEF] + ["-I" + i for i in pspec.py_include()] +
           ["-D%s=vp_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "free")] + ["-c", src, "-o", out], 120)
    return out if r.rc == 0 else None


def C15():
    from . import pspec
    c = Check("C15")
    c.functions = ["Spot_fit", "Spot_step", "Spot_quantile", "Spot_probability", "Spot_excesses", "Spot_as_dict", "Spot_raw", "Spot_init", "Spot_dealloc",
                   "PyInit_libspot (an import that succeeds)", "to_python_list, excesses, Ubend_as_dict, Peaks_as_dict, Tail_as_dict (inlined)"]
    c.trusted = RVC_TRUST[:3] + ["the contracts of the CPython API, the C allocator and the library in lib/vp/pspec.py (assumed)",
                                 "Python.h of 3.12 with Py_LIMITED_API (reference counting by calls)"]
    c.assumptions = ["iterables of at most 2^60 values; the list PySequence_List returns is known to nobody else",
                     "the library's functions behave as C01 to C14 say (their contracts here: the status they return, the storage they hold)",
                     "no other thread uses the object during a call; python code run by a conversion may initialise the object again"]
    rvc(c, pspec.PENTRY)
    o = py_object()
    c.oracle = Oracle("C15", extra=([o] if o else []) + ["-D" + d for d in pspec.PYDEF if "VERSION" not in d] + ["-I" + i for i in pspec.py_include()])
    return c


ALL = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
