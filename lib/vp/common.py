"""Paths, process helpers and the outcome record shared by all checks."""
import os, subprocess, time, signal, tempfile, shutil, atexit, json, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NCPU = max(2, min(8, os.cpu_count() or 4))
T0 = time.time()

_scratch = None


def scratch():
    """A scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vp_")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class Run:
    def __init__(self, rc, out, err, wall, timeout):
        self.rc, self.out, self.err, self.wall, self.timeout = rc, out, err, wall, timeout


_live = set()
_lock = threading.Lock()


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


def sh(cmd, timeout=120, cwd=None, env=None, inp=None, cancel=None):
    """Run a command in its own process group; kill the group on timeout or
    when the event `cancel` is set."""
    t = time.time()
    e = dict(os.environ, TMPDIR=scratch())
    if env:
        e.update(env)
    fo = tempfile.TemporaryFile(dir=scratch())
    fe = tempfile.TemporaryFile(dir=scratch())
    p = subprocess.Popen(cmd, stdout=fo, stderr=fe, cwd=cwd, env=e,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         start_new_session=True)
    with _lock:
        _live.add(p)
    if inp is not None:
        try:
            p.stdin.write(inp.encode() if isinstance(inp, str) else inp)
            p.stdin.close()
        except BrokenPipeError:
            pass
    to = False
    while True:
        try:
            p.wait(timeout=0.2 if cancel is not None else max(0.05, timeout - (time.time() - t)))
            break
        except subprocess.TimeoutExpired:
            pass
        if time.time() - t >= timeout or (cancel is not None and cancel.is_set()):
            to = True
            kill_group(p)
            p.wait()
            break
    with _lock:
        _live.discard(p)
    fo.seek(0)
    fe.seek(0)
    return Run(p.returncode, fo.read().decode(errors="replace"),
               fe.read().decode(errors="replace"), time.time() - t, to)


def kill_all():
    for p in list(_live):
        kill_group(p)


atexit.register(kill_all)


class Obligation:
    """One proof obligation and its outcome.
    status: proved | failed | unknown"""

    def __init__(self, name, status, backend="", text="", where="", func="", wall=0.0,
                 detail="", inputs=None, bounded=""):
        self.name, self.status, self.backend = name, status, backend
        self.text, self.where, self.func, self.wall = text, where, func, wall
        self.detail, self.inputs, self.bounded = detail, inputs or {}, bounded

    def as_dict(self):
        d = {"name": self.name, "status": self.status, "backend": self.backend,
             "function": self.func, "where": self.where, "what": self.text[:300],
             "wall_s": round(self.wall, 2)}
        if self.bounded:
            d["bounded"] = self.bounded
        if self.inputs:
            d["inputs"] = self.inputs
        if self.detail and self.status != "proved":
            d["detail"] = self.detail[:4000]
        return d
