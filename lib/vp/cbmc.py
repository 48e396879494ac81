"""Back end A: CBMC code contracts (DFCC) on the real C functions.

Each job links a contract file of /verif/contracts with the sources of /repo
(compiled from the working tree on every run), instruments the contract of one
function with goto-instrument --dfcc, and discharges every obligation with a
portfolio (CBMC's SAT back end, cvc5, kissat)."""
import json, os, glob, time, threading
from concurrent.futures import ThreadPoolExecutor
from .common import *

CHECKS = ["--pointer-check", "--bounds-check", "--div-by-zero-check", "--signed-overflow-check",
          "--undefined-shift-check", "--float-overflow-check"]
CHECKS = CHECKS[:-1]


class ToolError(Exception):
    pass


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.c")))


def build(contract, harness, defs=(), enforce=None, replace=(), srcs=None, incs=(), tag="",
          dfcc=True, extra_instr=(), goto_extra=()):
    d = tempfile.mkdtemp(dir=scratch(), prefix="job_")
    a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
    cfile = os.path.join(VERIF, "contracts", contract)
    cmd = ["goto-cc", "--function", harness] + ["-D" + x for x in defs] + \
          ["-I" + os.path.join(VERIF, "contracts")] + ["-I" + i for i in incs] + \
          ["-I" + os.path.join(REPO, "include")] + list(goto_extra) + [cfile] + \
          (sources() if srcs is None else list(srcs)) + ["-o", a]
    r = sh(cmd, 120)
    if r.rc != 0 or not os.path.exists(a):
        raise ToolError("goto-cc failed: " + " ".join(cmd) + "\n" + r.err[-3000:] + r.out[-2000:])
    cmds = [" ".join(cmd)]
    if not dfcc:
        r = sh(["goto-instrument", "--drop-unused-functions", a, b], 120)
        if r.rc != 0 or not os.path.exists(b):
            raise ToolError("goto-instrument failed\n" + r.err[-3000:] + r.out[-3000:])
        return b, cmds
    cmd = ["goto-instrument", "--dfcc", harness]
    if enforce:
        cmd += ["--enforce-contract", enforce]
    for f in replace:
        cmd += ["--replace-call-with-contract", f]
    cmd += list(extra_instr) + [a, b]
    r = sh(cmd, 120)
    if r.rc != 0 or not os.path.exists(b):
        raise ToolError("goto-instrument failed: " + " ".join(cmd) + "\n" + r.err[-3000:] + r.out[-3000:])
    cmds.append(" ".join(cmd))
    return b, cmds


def list_props(gb, flags):
    r = sh(["cbmc", gb, "--show-properties", "--json-ui"] + flags, 120)
    try:
        for x in json.loads(r.out):
            if "properties" in x:
                return x["properties"]
    except Exception:
        pass
    raise ToolError("cbmc --show-properties failed\n" + r.out[-2000:] + r.err[-2000:])


def parse(out):
    """results, messages of a json-ui run"""
    try:
        js = json.loads(out)
    except Exception:
        return None, "no json output"
    res, msg = None, []
    for x in js:
        if "result" in x:
            res = x["result"]
        if x.get("messageType") in ("ERROR", "WARNING"):
            msg.append(x.get("messageText", ""))
    return res, "\n".join(msg)


def trace_inputs(trace, prefix="in_"):
    """values of the in_* inputs of the harness in a counterexample"""
    vals = {}
    for s in trace or []:
        if s.get("stepType") != "assignment":
            continue
        lhs = s.get("lhs", "")
        base = lhs.split("!")[0]
        if base.startswith(prefix) and "." not in base and "[" not in base:
            v = s.get("value", {})
            d = v.get("data")
            if d is None:
                continue
            if "binary" in v and v.get("name") == "float":
                vals[base] = {"bits": "0x%016x" % int(v["binary"], 2), "value": d}
            else:
                vals[base] = d
    return vals


SOLVERS = {"sat": [], "cvc5": ["--cvc5"], "kissat": ["--external-sat-solver", "kissat"],
           "z3": ["--z3"]}


def solve(gb, props, flags, solvers, timeout, cancel=None):
    """Decide a list of property names with the first solver that answers.
    Returns (dict name -> result record, solver, wall, note)"""
    base = ["cbmc", gb, "--json-ui", "--slice-formula"] + flags
    for p in props:
        base += ["--property", p]
    done = threading.Event()
    out = {}
    weak = []
    lock = threading.Lock()
    notes = []

    def go(s):
        r = sh(base + SOLVERS[s], timeout, cancel=done)
        if done.is_set() and r.timeout:
            return
        if r.timeout:
            notes.append("%s: timeout %ds" % (s, timeout))
            return
        res, msg = parse(r.out)
        if res is None:
            notes.append("%s: %s %s" % (s, msg[-500:], r.err[-300:]))
            return
        m = {x["property"]: x for x in res}
        if any(p not in m or m[p]["status"] not in ("SUCCESS", "FAILURE") for p in props):
            notes.append("%s: %s %s" % (s, [m.get(p, {}).get("status") for p in props][:3], msg[-300:]))
            return
        fails = any(m[p]["status"] == "FAILURE" for p in props)
        with lock:
            # cvc5's models are not trusted on their own (its combination of
            # floating point with other theories can answer sat wrongly)
            if fails and s in ("cvc5", "z3") and len(solvers) > 1:
                weak.append((m, s))
                return
            if not out:
                out["m"], out["s"] = m, s
        done.set()

    t = time.time()
    ths = [threading.Thread(target=go, args=(s,)) for s in solvers]
    for x in ths:
        x.start()
    for x in ths:
        x.join()
    if not out and weak:
        out["m"], out["s"] = weak[0]
        notes.append("counterexample of %s only" % weak[0][1])
    return out.get("m"), out.get("s"), time.time() - t, "; ".join(notes)


def job(name, contract, harness, enforce=None, replace=(), defs=(), unwind=None, srcs=None,
        incs=(), timeout=150, solvers=("sat", "cvc5"), checks=True, dfcc=True, only=None,
        bounded="", goto_extra=(), extra_instr=(), flags=(), single=("postcondition", "assertion"), pool=4):
    """Prove every obligation of one contract.  Returns (obligations, info)."""
    obs = []
    info = {"job": name, "contract": contract, "enforced": enforce, "replaced": list(replace)}
    try:
        gb, cmds = build(contract, harness, defs, enforce, replace, srcs, incs, dfcc=dfcc,
                         goto_extra=goto_extra, extra_instr=extra_instr)
        fl = (CHECKS if checks else ["--no-standard-checks"]) + list(flags)
        if unwind:
            fl += ["--unwind", str(unwind), "--unwinding-assertions"]
        info["cmds"] = cmds + ["cbmc b.gb " + " ".join(fl)]
        props = list_props(gb, fl)
    except ToolError as e:
        obs.append(Obligation(name + ".build", "unknown", "goto-cc", str(e)[:400], detail=str(e),
                              func=enforce or harness))
        return obs, info
    if only:
        props = [p for p in props if only(p)]
    vac = [p for p in props if p["description"].startswith("VACUITY")]
    norm = [p for p in props if not p["description"].startswith("VACUITY")]
    isingle = [p for p in norm if any(("." + k + ".") in p["name"] for k in single)]
    batch = [p for p in norm if p not in isingle]
    tasks = [("batch", batch)] if batch else []
    tasks += [("one", [p]) for p in isingle]
    tasks += [("vac", vac)] if vac else []

    def run(task):
        kind, ps = task
        names = [p["name"] for p in ps]
        if kind == "vac":
            sv = ("sat",) if "sat" in solvers else solvers
        elif kind == "batch":
            sv = tuple(solvers)[:1] if "sat" not in solvers else ("sat",)
        else:
            sv = solvers
        m, s, w, note = solve(gb, names, fl, sv, timeout)
        if m is None and kind == "batch" and len(sv) < len(solvers):
            m, s, w, note2 = solve(gb, names, fl, solvers, timeout)
            note += "; " + note2
        return kind, ps, m, s, w, note

    with ThreadPoolExecutor(pool) as ex:
        results = list(ex.map(run, tasks))
    for kind, ps, m, s, w, note in results:
        for i, p in enumerate(ps):
            loc = p.get("sourceLocation", {})
            where = "%s:%s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"))
            st, det, ins = "unknown", note, {}
            if m is not None:
                r = m[p["name"]]
                st = "proved" if r["status"] == "SUCCESS" else "failed"
                if kind == "vac":
                    st = "proved" if r["status"] == "FAILURE" else "vacuous"
                if st == "failed" and ".unwind." in p["name"]:
                    st, det = "unknown", "the loop runs further than the unwinding bound"
                if st == "failed":
                    ins = trace_inputs(r.get("trace"))
                    det = p.get("expression", "")[:1500]
            obs.append(Obligation(name + ":" + p["name"], st, "cbmc/" + (s or "none"), p["description"],
                                  where, loc.get("function", ""), w if i == 0 else 0.0, det, ins, bounded))
            obs[-1].probe = kind == "vac"
    # traces for the failures (a second run: traces are only printed on demand)
    bad = [o for o in obs if o.status == "failed" and not o.inputs]
    for o in bad[:4]:
        pn = o.name.split(":", 1)[1]
        sv = o.backend.split("/")[1]
        r = sh(["cbmc", gb, "--json-ui", "--trace", "--property", pn] + fl + SOLVERS.get(sv, []), timeout)
        res, _ = parse(r.out)
        for x in res or []:
            if x["property"] == pn:
                o.inputs = trace_inputs(x.get("trace"))
    return obs, info
