"""Builds and runs the replay / bounded-search harness from /repo's current sources."""
import glob, os, re, concurrent.futures as cf
from .common import *

UNIT = {"C01": "p_uri", "C02": "p_uri", "C03": "p_uri", "C04": "p_uri", "C05": "p_uri", "C06": "p_uri", "C07": "p_uri",
        "C08": "p_uri", "C09": "p_pct", "C10": "p_pct", "C11": "p_puny", "C12": "p_puny", "C13": "p_puny",
        "C14": "p_parts", "C15": "p_ucs", "C16": "p_rule", "C17": "p_alg"}
FLAGS = ["-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DURI_FUZZTEST=0"]
ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:exitcode=77:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0:exitcode=77", LC_ALL="C")


def dictionary(path):
    """Words and numbers of the sources under test; the generators mix them into inputs."""
    words, nums = set(), set()
    for f in glob.glob(REPO + "/lib/uri/*.cpp") + glob.glob(REPO + "/include/uri/*.hpp"):
        try:
            t = open(f, errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"//[^\n]*", "", t)
        if not f.endswith("icubaby.hpp"):
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                w = m.group(1)
                if 0 < len(w) <= 24 and "\\" not in w:
                    words.add(w)
            for m in re.finditer(r"'([^'\\\n])'", t):
                words.add(m.group(1))
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F']+|0b[01']+|\d[\d']*)[uUlLzZ]*\b", t):
            try:
                v = int(m.group(1).replace("'", ""), 0) if not re.fullmatch(r"0\d+", m.group(1)) else int(m.group(1), 8)
            except ValueError:
                continue
            if 0 <= v < 2**32:
                nums.add(v)
    with open(path, "w") as o:
        for w in sorted(words):
            o.write("w ." + w.encode("utf8").hex() + "\n")
        for n in sorted(nums):
            o.write(f"n {n}\n")


class Harness:
    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        self.exe = os.path.join(work, "harness")
        self.error = None

    def build(self):
        h = os.path.join(VERIF, "harness")
        srcs = [os.path.join(h, x + ".cpp") for x in ("main", "oracles", UNIT[self.prop])]
        srcs += sorted(glob.glob(REPO + "/lib/uri/*.cpp"))
        objs = []

        def one(i, s):
            o = os.path.join(self.work, f"h{i}.o")
            rc, out, err, _ = run(["g++", *FLAGS, f"-I{REPO}/include", f"-I{h}", "-c", s, "-o", o], timeout=300)
            return rc, err, o

        with cf.ThreadPoolExecutor(8) as ex:
            for rc, err, o in ex.map(lambda a: one(*a), list(enumerate(srcs))):
                if rc != 0:
                    self.error = "harness does not build: " + err[:2000]
                    return False
                objs.append(o)
        rc, out, err, _ = run(["g++", "-fsanitize=address,undefined", "-o", self.exe, *objs], timeout=300)
        if rc != 0:
            self.error = "harness does not link: " + err[:2000]
            return False
        dictionary(os.path.join(self.work, "dict"))
        return True

    def search(self, secs, hints, procs=8, maxcases=10**9):
        """Returns dict(evaluations, nontrivial, samples, failure or None)."""
        hf = os.path.join(self.work, "hints")
        with open(hf, "w") as f:
            for x in hints:
                try:
                    f.write((x if isinstance(x, str) else hexcase(x)) + "\n")
                except (AttributeError, TypeError, UnicodeError):
                    pass  # not a case: the search goes on without it
        nohints = os.path.join(self.work, "nohints")
        open(nohints, "w").close()

        def one(i):
            out = os.path.join(self.work, f"out{i}")
            rc, so, se, t = run([self.exe, "search", self.prop, str(SEED * 1000 + i), str(secs), str(maxcases), hf if i == 0 else nohints,
                                 os.path.join(self.work, "dict"), out], timeout=secs + 120, env=ENV)
            r = {"evaluations": 0, "nontrivial": 0, "samples": [], "failure": None, "hints": 0}
            try:
                for line in open(out, errors="replace"):
                    k, _, v = line.rstrip("\n").partition(" ")
                    if k in ("evaluations", "nontrivial", "hints"):
                        r[k] = int(v)
                    elif k == "sample":
                        r["samples"].append(v)
                    elif k == "case:":
                        r["failure"] = {"case": v, "message": "", "stderr": se[-4000:]}
                    elif k == "message:":
                        r["failure"]["message"] = v
            except OSError:
                r["error"] = f"no output (rc {rc}): {se[-500:]}"
            return r

        with cf.ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(one, range(procs)))
        tot = {"evaluations": sum(r["evaluations"] for r in rs), "nontrivial": sum(r["nontrivial"] for r in rs),
               "samples": [s for r in rs for s in r["samples"]][:6], "failure": next((r["failure"] for r in rs if r["failure"]), None),
               "errors": [r["error"] for r in rs if r.get("error")], "hints": rs[0]["hints"]}
        if tot["failure"]:
            tot["failure"] = self.shrink(tot["failure"])
        return tot

    def replay(self, case):
        f = os.path.join(self.work, "replay")
        open(f, "w").write(case + "\n")
        rc, so, se, _ = run([self.exe, "replay", self.prop, f], timeout=120, env=ENV)
        return rc == 1, so

    def shrink(self, fail):
        """Greedy: drop bytes of fields while the failure stays (a few seconds)."""
        case = fail["case"].split()
        t0 = time.time()
        changed = True
        while changed and time.time() - t0 < 10:
            changed = False
            for i, f in enumerate(case):
                b = bytes.fromhex(f[1:])
                step = max(1, len(b) // 2)
                while step >= 1 and time.time() - t0 < 10:
                    k = 0
                    while k < len(b) and time.time() - t0 < 10:
                        nb = b[:k] + b[k + step:]
                        trial = case[:i] + ["." + nb.hex()] + case[i + 1:]
                        bad, _ = self.replay(" ".join(trial))
                        if bad:
                            b, case, changed = nb, trial, True
                        else:
                            k += step
                    step //= 2
                if len(case) > 8 and time.time() - t0 > 8:
                    break
        bad, msg = self.replay(" ".join(case))
        if bad:
            fail = dict(fail, case=" ".join(case), message=(msg.split("\n") + ["", ""])[1])
        return fail
