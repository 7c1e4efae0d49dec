#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROP: decides one property of /repo's current tree. See DESIGN.md."""
import importlib, json, os, shutil, subprocess, sys, tempfile, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vv.common import *
from vv import harness

# Contracts that a property's proof uses at calls and that another property's check proves: they are discharged again in the same run.
# A failure there means that this proof does not stand, not that this property is broken: it becomes an undecided obligation here.
USES = {"C01": ["C16"], "C02": ["C16"], "C03": ["C16"], "C04": ["C16"], "C05": ["C04", "C16"], "C07": ["C01", "C02"], "C10": ["C09"], "C11": ["C12"],
        "C13": ["C15", "C17"], "C14": ["C09", "C10", "C13"]}


def obligations_only(prop, path):
    """check.py --obligations PROP FILE: the deductive part alone, for a check that uses PROP's contracts"""
    rep = Report()
    work = tempfile.mkdtemp(prefix="vv-")
    try:
        importlib.import_module("vv.props." + prop.lower()).prove(rep, work)
    except Exception as e:
        rep.undecided(prop + ".extract", prop, str(e)[:1000])
    shutil.rmtree(work, ignore_errors=True)
    with open(path + ".tmp", "w") as f:
        json.dump([[o.name, str(o.function), o.status, o.backend, o.secs, str(o.detail)[:2000]] for o in rep.obs], f)
    os.rename(path + ".tmp", path)


def start_uses(prop, work):
    out = []
    for d in USES.get(prop, []):
        p = os.path.join(work, "uses-" + d)
        out.append((d, p, subprocess.Popen([sys.executable, os.path.abspath(__file__), "--obligations", d, p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                           preexec_fn=lambda: os.nice(5))))
    return out


def collect_uses(prop, rep, uses, until):
    for d, path, proc in uses:
        try:
            proc.wait(max(1, until - time.time()))
        except subprocess.TimeoutExpired:
            proc.kill()
        try:
            obs = json.load(open(path))
        except Exception:
            rep.undecided(f"{prop}.uses.{d}", d, "the contracts used were not all discharged in time")
            continue
        for name, fn, status, back, secs, detail in obs:
            if status == FAILED:
                status, detail = UNDECIDED, "a contract used by this proof fails: " + detail
            rep.add(f"{prop}.uses.{name}", fn, status, back, secs, detail)


def findings(prop):
    out = []
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        if line.startswith(f"finding: property={prop} "):
            key, _, text = line.split(f"property={prop} ", 1)[1].strip().partition(" ")
            out.append((key.removeprefix("key="), text))
    return out


def pending_hints():
    """inputs suggested by obligations that failed in a proof that was not finished"""
    from vv import sym
    return [h for ex in list(sym.LIVE) for b in list(ex.buf) for h in b[6]][:200]


def main():
    prop = sys.argv[1]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vv-")
    rep = Report()
    H = harness.Harness(prop, work)
    built = []
    th = threading.Thread(target=lambda: built.append(H.build()))
    th.start()
    try:
        mod = importlib.import_module("vv.props." + prop.lower())
    except ModuleNotFoundError:
        mod = None
    def prove():
        try:
            mod.prove(rep, work)
        except Unsupported as e:
            rep.undecided(prop + ".extract", prop, str(e))
        except Exception as e:  # a fault of the machinery is not a violation
            rep.undecided(prop + ".machinery", prop, "internal: " + "".join(traceback.format_exception(e))[-1500:])

    if mod is not None:
        limit = 450 if TIER != "thorough" else 1800
        uses = start_uses(prop, work)
        tp = threading.Thread(target=prove, daemon=True)
        tp.start()
        tp.join(limit)
        if tp.is_alive():
            rep.closed = True
            rep.undecided(prop + ".time", prop, f"the proof did not finish within {limit} s")
            rep.hints += pending_hints()
        else:
            collect_uses(prop, rep, uses, t0 + limit)
        for _, _, q in uses:
            q.kill()
    t_proof = time.time() - t0
    th.join()
    if not built or not built[0]:
        # The tree's own code does not compile with the harness: nothing can be decided by running.
        print(f"note: {H.error}")
    failed = [o for o in rep.obs if o.status == FAILED]
    und = [o for o in rep.obs if o.status == UNDECIDED]
    thorough = TIER == "thorough"
    clean = rep.obs and not failed and not und
    secs = (120 if thorough else 6) if clean else (300 if thorough else 75)
    if mod is None:
        secs = 300 if thorough else 45
    res = {"evaluations": 0, "nontrivial": 0, "samples": [], "failure": None, "errors": [H.error or ""], "hints": 0}
    hints = [h for o in failed + und for h in o.hints] + rep.hints
    corpus = os.path.join(VERIF, "corpus", prop + ".txt")
    if os.path.exists(corpus):
        hints += [l.strip() for l in open(corpus) if l.startswith(".")]
    if built and built[0]:
        res = H.search(secs, hints)
    out = []
    code = 0
    fl = findings(prop)
    for key, text in fl:
        live = mod.finding_live(key) if mod is not None and hasattr(mod, "finding_live") else True
        if live:
            out.append(f"KNOWN-FINDING: property={prop} {text}")
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", "replay", prop + ".txt")
    if res["failure"]:
        f = res["failure"]
        with open(rp, "w") as o:
            o.write(f"property: {prop}\nwhat fails: {f['message']}\n")
            o.write("# replay: build /verif/harness against /repo (vv/harness.py) and run: harness replay " + prop + " <this file>\n")
            o.write(f"case: {f['case']}\n")
            for i, x in enumerate(f["case"].split()):
                o.write(f"# field {i}: {bytes.fromhex(x[1:])!r}\n")
            for x in failed:
                o.write(f"failed obligation: {x.name} [{x.function}] {x.detail[:1500]}\n")
            o.write("--- output of the run ---\n" + f.get("stderr", "") + "\n")
        out.append(f"VIOLATION property={prop} replay={rp}")
        code = 1
    elif failed and not getattr(mod, "CONFIRM", False):
        with open(rp, "w") as o:
            o.write(f"property: {prop}\nno failing input was found within the search budget ({res['evaluations']} cases)\n")
            for x in failed:
                o.write(f"failed obligation: {x.name}\n  function: {x.function}\n  back end: {x.backend}, {x.secs:.2f} s\n  output: {x.detail[:4000]}\n")
        out.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
        code = 1
    ev = evidence(prop, mod, rep, res, t0, t_proof, code, work)
    shutil.rmtree(work, ignore_errors=True)
    for o in failed:
        print(f"failed obligation: {o.name} [{o.function}] {o.detail[:300]}")
    for o in und:
        print(f"undecided: {o.name} [{o.function}] {o.detail[:300]}")
    print(f"{prop}: {len(rep.obs)} obligations, {rep.count(PROVED)} proved, {len(failed)} failed, {len(und)} undecided; {res['evaluations']} cases run; {time.time()-t0:.1f} s")
    for l in out:
        print(l)
    sys.stdout.flush()
    return code


def evidence(prop, mod, rep, res, t0, t_proof, code, work):
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "exploration")
    backs = {}
    for o in rep.obs:
        b = backs.setdefault(o.backend, {"obligations": 0, "proved": 0, "secs": 0.0})
        b["obligations"] += 1
        b["proved"] += o.status == PROVED
        b["secs"] = round(b["secs"] + o.secs, 3)
    cov = {
        "obligations": len(rep.obs),
        "discharged": rep.count(PROVED),
        "failed": [o.name for o in rep.obs if o.status == FAILED],
        "undecided": [f"{o.name}: {o.detail[:200]}" for o in rep.obs if o.status == UNDECIDED],
        "checker_cmd": f"python3-vt check.py {prop}",
        "trusted_base": getattr(mod, "TRUSTED", []) + rep.assumed,
        "functions_under_contract": rep.functions,
        "back_ends": backs,
        "obligation_list": [{"name": o.name, "function": o.function, "status": o.status, "back_end": o.backend, "secs": round(o.secs, 3)} for o in rep.obs][:400],
        "solver_secs": round(sum(o.secs for o in rep.obs), 2),
        "bounded_stand_ins": rep.bounded,
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["nontrivial"],
        "rule": "replay/bounded search on the real code (ASan, UBSan, assertions on) against independent oracles: generated, mutated and enumerated inputs; non-trivial as each oracle counts it; distinct by hash of the input",
        "samples": [[repr(bytes.fromhex(x[1:])) for x in s.split()] for s in res["samples"]] or ["none"],
        "explanation": "obligations are the deductive part; evaluations are the bounded cross-check and are never counted as proof",
        "notes": rep.notes,
    }
    if not rep.obs:
        for k in ("obligations", "discharged", "checker_cmd", "trusted_base"):
            cov.pop(k)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) if mod else [], "wall_s": round(time.time() - t0, 2), "violations": code}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return ev


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--obligations":
            obligations_only(*sys.argv[2:4])
            os._exit(0)
        rc = main()
    except Exception:
        # a fault of the machinery decides nothing
        print("note: the check itself failed:\n" + traceback.format_exc())
        rc = 0
    sys.stdout.flush()
    os._exit(rc)   # a proof thread past its time limit is left behind
