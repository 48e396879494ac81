"""Native replay: compiles /repo/src with the oracle of a property and runs it."""
import os, glob
from concurrent.futures import ThreadPoolExecutor
from .common import *

DEFS = ['-DVERSION="vp-version 2.0"', '-DLICENSE="vp license text"']


class Oracle:
    def __init__(self, pid, extra=(), san=False, inside=None):
        # inside: a source file the oracle includes, to see its static functions (if that compiles)
        self.inside = inside
        self.pid = pid
        self.src = os.path.join(VERIF, "replay", pid + ".c")
        self.exe = None
        self.err = ""
        self.extra = list(extra)
        self.san = san

    def cmd(self, out):
        c = ["gcc", "-std=gnu11", "-O1", "-g", "-w", "-ffp-contract=off"] + DEFS
        if self.san:
            c += ["-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero", "-fsanitize=float-cast-overflow",
                  "-fno-sanitize-recover=all"]
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
        if self.inside:
            f = os.path.join(REPO, "src", self.inside)
            srcs = [x for x in srcs if x != f]
            c += ['-DINSIDE="%s"' % f]
        return c + ["-I" + os.path.join(VERIF, "replay"), "-I" + os.path.join(REPO, "include"), self.src] + \
            srcs + self.extra + ["-lm", "-o", out]

    def build(self):
        if self.exe or not os.path.exists(self.src):
            return self.exe is not None
        out = os.path.join(scratch(), "oracle_" + self.pid)
        r = sh(self.cmd(out), 120)
        if r.rc != 0 and self.inside:
            self.inside = None
            r = sh(self.cmd(out), 120)
        if r.rc != 0:
            self.err = r.err[-3000:]
            return False
        self.exe = out
        return True

    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "print_stacktrace=1"}

    def given(self, inputs):
        if not self.build():
            return None
        args = []
        for k, v in inputs.items():
            if isinstance(v, dict):
                v = v["bits"]
            v = str(v)
            if v in ("TRUE", "FALSE"):
                v = "1" if v == "TRUE" else "0"
            args.append("%s=%s" % (k, v.rstrip("ulUL") if not v.startswith("0x") and v[-1:] in "ulUL" else v))
        r = sh([self.exe, "given"] + args, 60, env=self.env)
        if r.rc not in (0, 2) and not r.timeout:
            return {"how": "counterexample of the verifier", "args": ["given"] + args, "output": r.out[-4000:] + r.err[-3000:]}
        return None

    def search(self, seconds, seed=None, procs=None):
        """Returns (found, cases)"""
        if not self.build():
            return None, 0
        seed = SEED if seed is None else seed
        procs = procs or NCPU

        def one(i):
            return sh([self.exe, "search", str(seed * 64 + i), str(seconds)], seconds + 90, env=self.env)
        with ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(one, range(procs)))
        cases = 0
        found = None
        for i, r in enumerate(rs):
            if r.rc == 0:
                for l in r.out.splitlines():
                    if l.startswith("cases "):
                        cases += int(l.split()[1])
            elif r.rc is not None and r.rc not in (-9, -15) and not r.timeout and found is None:
                n = ""
                for l in r.out.splitlines():
                    if l.startswith("case "):
                        n = l.split()[1]
                found = {"how": "directed search on the real code (seed %d)" % (seed * 64 + i),
                         "args": ["case", n] if n else ["search", str(seed * 64 + i), str(seconds)],
                         "output": r.out[-4000:] + r.err[-3000:]}
        return found, cases
