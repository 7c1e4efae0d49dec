"""Shared bookkeeping: obligations, results, paths."""
import os, subprocess, time, hashlib, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("URI_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"

PROVED, FAILED, UNDECIDED = "proved", "failed", "undecided"


class Unsupported(Exception):
    """The generator met something outside its reach: the function is undecided, never violated."""


class Obligation:
    def __init__(self, name, function, status, backend, secs=0.0, detail="", hints=None):
        self.name, self.function, self.status, self.backend = name, function, status, backend
        self.secs, self.detail, self.hints = secs, detail, hints or []


class Report:
    """What the deductive part of one check did."""

    def __init__(self):
        self.obs = []
        self.functions = {}      # function -> how (contract / inlined / ...)
        self.assumed = []        # assumed contracts (not checked)
        self.bounded = []        # functions covered only by the bounded stand-in
        self.notes = []
        self.hints = []          # suggested inputs that belong to no decided obligation
        self.closed = False
        self.lock = threading.Lock()

    def add(self, *a, **k):
        with self.lock:
            o = Obligation(*a, **k)
            if not self.closed or o.status == UNDECIDED:
                self.obs.append(o)

    def undecided(self, name, function, why):
        self.add(name, function, UNDECIDED, "-", 0.0, why)
        with self.lock:
            self.bounded.append(f"{function}: {why}")

    def count(self, st):
        return sum(1 for o in self.obs if o.status == st)


def run(cmd, timeout=None, cwd=None, inp=None, env=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, input=inp, errors="replace", env=env)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout", time.time() - t


def hexcase(fields):
    return " ".join("." + (f if isinstance(f, bytes) else f.encode("latin1")).hex() for f in fields)
