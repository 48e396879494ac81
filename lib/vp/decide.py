"""Turns obligations into the outcome of a check."""
import json, os, sys, time
from .common import *


class Check:
    def __init__(self, pid, level="proof"):
        self.pid, self.level = pid, level
        self.obs, self.infos = [], []
        self.functions, self.assumptions, self.trusted = [], [], []
        self.oracle = None
        self.extra = {}
        self.cmds = []
        self.notes = []

    def add(self, r):
        obs, info = r
        self.obs += obs
        self.infos.append(info)
        for c in info.get("cmds", []):
            self.cmds.append(c)

    def known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(p):
            for l in open(p):
                if l.startswith("finding: property=%s " % self.pid):
                    out.append(l.split(" ", 2)[2].strip())
        return out

    def evidence(self, violations, cases, wall):
        real = [o for o in self.obs if not getattr(o, "probe", False)]
        probes = [o for o in self.obs if getattr(o, "probe", False)]
        unb = [o for o in real if not o.bounded]
        bnd = [o for o in real if o.bounded]
        by = {}
        for o in unb:
            if o.status == "proved":
                by[o.backend] = by.get(o.backend, 0) + 1
        instr = sum(1 for o in unb if "__CPROVER_contracts" in o.func or "__CPROVER_contracts" in o.name)
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": {
                "obligations": len(unb),
                "discharged": sum(o.status == "proved" for o in unb),
                "of_which_contract_instrumentation": instr,
                "checker_cmd": "bin/check " + self.pid,
                "underlying_cmds": self.cmds[:40],
                "trusted_base": self.trusted,
                "functions_under_contract": self.functions,
                "discharged_by_backend": by,
                "solver_wall_s": round(sum(o.wall for o in self.obs), 1),
                "reachability_probes": len(probes),
                "reachability_probes_reached": sum(o.status == "proved" for o in probes),
                "bounded_obligations_not_counted_as_proved": [
                    {"name": o.name, "status": o.status, "bound": o.bounded} for o in bnd][:60],
                "bounded_obligations": len(bnd),
                "undecided": [o.as_dict() for o in real if o.status == "unknown"][:20],
                "native_cross_check_cases": cases,
                "samples": [o.as_dict() for o in unb if "postcondition" in o.name or "assertion" in o.name or
                            not o.backend.startswith("cbmc")][:25],
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 1), "violations": violations}
        ev["coverage"].update(self.extra)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self):
        pid = self.pid
        bad = [o for o in self.obs if o.status in ("failed", "vacuous")]
        unk = [o for o in self.obs if o.status == "unknown"]
        if not self.obs:
            unk = [Obligation("no obligations", "unknown")]
        thorough = TIER == "thorough"
        found, cases = None, 0
        if self.oracle:
            if bad:
                for o in bad:
                    if o.inputs:
                        found = self.oracle.given(o.inputs)
                        if found:
                            found["obligation"] = o.name
                            break
                if not found:
                    found, c = self.oracle.search(120 if thorough else 60)
                    cases += c
            elif unk:
                found, c = self.oracle.search(180 if thorough else 90)
                cases += c
            else:
                found, c = self.oracle.search(120 if thorough else 4)
                cases += c
            if self.oracle.err:
                self.notes.append("oracle: " + self.oracle.err[:500])
        for k in self.known():
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        viol = 1 if (bad or found) else 0
        self.evidence(viol, cases, time.time() - T0)
        nr = [o for o in self.obs if not getattr(o, "probe", False)]
        print("%s: %d obligations, %d discharged, %d failed, %d undecided, %d bounded; native cross-check %d cases; %.1fs" % (
            pid, len(nr), sum(o.status == "proved" for o in nr), len(bad), len(unk),
            sum(bool(o.bounded) for o in nr), cases, time.time() - T0))
        for o in unk[:8]:
            print("UNDECIDED %s: %s" % (o.name, (o.detail or o.text)[:300].replace("\n", " | ")))
        for n in self.notes:
            print("NOTE " + n[:400])
        if not viol:
            if unk:
                print("%s: undecided obligations were replaced by a bounded check (search on the real code), which found nothing" % pid)
            return 0
        rp = os.path.join(VERIF, "evidence", "replay_%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            for o in bad[:20]:
                f.write("\nFAILED OBLIGATION %s\n  function %s at %s\n  %s\n  back end %s: %s\n  verifier output: %s\n  inputs: %s\n" % (
                    o.name, o.func, o.where, o.text, o.backend,
                    "reachability probe not reachable" if o.status == "vacuous" else "counterexample",
                    o.detail, json.dumps(o.inputs)))
            if found:
                f.write("\nFAILING INPUT on the real code (%s)\n" % found["how"])
                f.write("build: %s\nrun: %s %s\n" % (" ".join(self.oracle.cmd("oracle")) if hasattr(self.oracle, "cmd") else "", "./oracle", " ".join(found["args"])))
                f.write(found["output"] + "\n")
        for o in bad[:10]:
            print("FAILED %s [%s %s] %s" % (o.name, o.func, o.where, o.text[:200]))
        if found:
            print(found["output"][:1500])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        return 1
