"""Run one property's check: explore every harness instance symbolically, replay
counterexamples on the real code, write evidence.

usage: python3-vt -m vf.run PROPERTY [quick|thorough]
"""
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
REALPY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
QUICK_BUDGET = float(os.environ.get("VF_BUDGET", "0")) or None


def load_findings():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def explore(h, params, deadline, known, seed, nsample, outq=None):
    """Explore one harness instance; returns a result dict."""
    from . import core, values, symio, symctx, ops
    from .core import Engine, DeadPath, Unsupported, Nondeterminism
    import metaknowledge as mk
    rng = random.Random(seed)
    e = Engine(deadline=deadline)
    Engine.current = e
    res = dict(harness=h["name"], module=h["module"], params=params, paths=0, dead={}, undecided=[], cex=[],
               samples=[], findings=[], checks=0, asserted=0, complete=True, labels={})
    t0 = time.time()
    seen_path = 0
    ncex = 0
    while True:
        e.start_path()
        symio.reset()
        c = symctx.SymCtx(mk, known)
        cwd = os.getcwd()
        status = "ok"
        try:
            h["fn"](c, **params)
        except symctx.Counterexample as x:
            status = "cex"
            cx = (x.msg, x.model, x.detail)
        except DeadPath as x:
            status = "dead"
        except Unsupported as x:
            status = "unsupported"
            res["undecided"].append("unsupported: %s" % x)
        except Nondeterminism as x:
            status = "nondet"
            res["undecided"].append("nondeterminism: %s" % x)
        except RecursionError as x:
            status = "unsupported"
            res["undecided"].append("recursion")
        except Exception as x:
            status = "cex"
            tb = traceback.format_exc()
            try:
                what = str(x)
            except BaseException:
                what = repr(type(x))
            cx = ("unexpected %s: %s" % (type(x).__name__, what), None, tb[-3000:])
        finally:
            try:
                os.chdir(cwd)
            except OSError:
                pass
            c.cleanup()
            del symio.ROOTS[:]
        if e.dead and status not in ("nondet",):
            status = "dead"
        res["checks"] += c.nchecks
        res["asserted"] += c.asserted
        for k, v in c.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + v
        if status == "dead":
            res["dead"][e.dead] = res["dead"].get(e.dead, 0) + 1
            if e.dead not in ("assume", "infeasible"):
                res["complete"] = False
        elif status == "nondet":
            res["complete"] = False
            break
        elif status == "unsupported":
            res["complete"] = False
            # still decide something about this path: its model is replayed on the real code
            m = e.feasible_model()
            if m is not None and len(res["samples"]) < nsample + 200:
                res["samples"].append(case_of(h, params, c, m, None))
        else:
            res["paths"] += 1
            m = cx[1] if status == "cex" and cx[1] is not None else None
            if status == "cex":
                if m is None:
                    m = e.feasible_model()
                if m is not None:
                    case = case_of(h, params, c, m, None)
                    case["msg"], case["detail"] = cx[0], cx[2]
                    res["cex"].append(case)
                    ncex += 1
            else:
                seen_path += 1
                if len(res["samples"]) < nsample:
                    m = e.feasible_model()
                    if m is not None:
                        res["samples"].append(case_of(h, params, c, m, c.obs))
                else:
                    k = rng.randrange(seen_path)
                    if k < nsample:
                        m = e.feasible_model()
                        if m is not None:
                            res["samples"][k] = case_of(h, params, c, m, c.obs)
                for fid, fm in c.findings:
                    if len([1 for f in res["findings"] if f["fid"] == fid]) < 2 and fm is not None:
                        cs = case_of(h, params, c, fm, None)
                        cs["fid"] = fid
                        res["findings"].append(cs)
        if ncex >= 12:
            res["complete"] = False
            break
        if deadline and time.time() > deadline:
            if any(d.pending for d in e.trace):
                res["complete"] = False
                res["dead"]["time budget"] = res["dead"].get("time budget", 0) + 1
            break
        if not e.next_path():
            break
    res["undecided"] += e.undecided
    if e.undecided:
        res["complete"] = False
    res.update(queries=e.queries, solver_s=round(e.solver_s, 3), branches=e.branches, forks=e.forks,
               realised=e.realised, unknowns=e.unknowns, wall_s=round(time.time() - t0, 3),
               functions=sorted(ops.FUNCS))
    if core.FORKS:
        sys.stderr.write("forks %s %s %s\n" % (h["name"], params, sorted(core.FORKS.items(), key=lambda x: -x[1])[:8]))
        core.FORKS.clear()
    return res


def case_of(h, params, c, model, obs):
    from .symctx import model_value
    from .ctx import canon
    case = dict(module=h["module"], harness=h["name"], params=params,
                inputs={k: model_value(v, model) for k, v in c.inputs.items()})
    if obs is not None:
        try:
            case["obs"] = [[l, canon(model_value(v, model))] for l, v in obs]
        except Exception:
            case["obs"] = None
    return case


def cover(d, prop):
    """for development: which lines of the code under test are run, one file per process under d"""
    import atexit
    seen, mon = set(), sys.monitoring
    mon.use_tool_id(3, "vf")

    def line(code, n):
        if "/metaknowledge/" in code.co_filename:
            seen.add((code.co_filename, n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    from multiprocessing import util

    def done():
        with open(os.path.join(d, "%s.%d" % (prop, os.getpid())), "w") as f:
            f.writelines("%s:%d\n" % x for x in sorted(seen))
    util.Finalize(None, done, exitpriority=1)


def worker(args):
    idx, prop, hi, params, budget, known, seed, nsample = args
    from .ctx import REGISTRY
    h = REGISTRY[prop][hi]
    if os.environ.get("VF_COV"):
        cover(os.environ["VF_COV"], prop)
    try:
        return idx, explore(h, params, time.time() + budget, known, seed, nsample)
    except BaseException as x:
        return idx, dict(harness=h["name"], module=h["module"], params=params, error=traceback.format_exc()[-3000:],
                         paths=0, cex=[], samples=[], findings=[], checks=0, asserted=0, complete=False,
                         undecided=["internal error: %r" % (x,)], dead={}, queries=0, solver_s=0, branches=0,
                         forks=0, realised=0, unknowns=0, wall_s=0, functions=[], labels={})


def real_batch(cases, timeout=300, hashseed="0"):
    """Run cases on the real code in one subprocess; None if it failed."""
    if not cases:
        return []
    d = tempfile.mkdtemp(prefix="vf_batch_")
    try:
        i, o = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(i, "w") as f:
            json.dump(cases, f)
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", VF_REPO=REPO)
        p = subprocess.run([REALPY, os.path.join(HERE, "vf", "replay.py"), "--batch", i, o], env=env, cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        if p.returncode != 0 or not os.path.exists(o):
            sys.stderr.write(p.stderr.decode()[-2000:])
            return None
        with open(o) as f:
            return json.load(f)
    except subprocess.TimeoutExpired:
        return None
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    from . import hook
    hook.install({"metaknowledge": REPO, "harness": HERE})
    from .ctx import REGISTRY
    import_error = None
    try:
        import metaknowledge  # noqa: F401
    except BaseException:
        import_error = traceback.format_exc()
    with open(os.path.join(HERE, "vf", "modules.json")) as f:
        mods = json.load(f)
    for m in (os.environ.get("VF_MODS") or mods[prop]).split():
        importlib.import_module("harness." + m)
    findings = [f for f in load_findings() if f.get("property") == prop and f.get("status") == "known"]
    known = [f["id"] for f in findings]
    tasks = []
    total = QUICK_BUDGET or (150 if tier == "quick" else 780)
    for hi, h in enumerate(REGISTRY[prop]):
        for params in h[tier]:
            tasks.append((hi, params))
    nproc = int(os.environ.get("VF_PROCS", "8"))
    # every task may use what is left of the total budget; they run in order, nproc at a time
    nsample = 12 if tier == "quick" else 40
    results = []
    order = list(range(len(tasks)))
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=1) as pool:
        pend = []
        # estimate: each task gets a fair share, at least a third of the budget
        share = max(total / 3.0, total * nproc / max(1, len(tasks)))
        share = min(share, total)
        for k in order:
            hi, params = tasks[k]
            pend.append(pool.apply_async(worker, ((k, prop, hi, params, share, known, seed + k, nsample),)))
        for k, p in enumerate(pend):
            left = max(5.0, total + 60 - (time.time() - t0))
            try:
                results.append(p.get(timeout=left)[1])
            except mp.TimeoutError:
                hi, params = tasks[k]
                h = REGISTRY[prop][hi]
                results.append(dict(harness=h["name"], module=h["module"], params=params, paths=0, cex=[], samples=[],
                                    findings=[], checks=0, asserted=0, complete=False,
                                    undecided=["task did not finish in the time budget"], dead={}, queries=0,
                                    solver_s=0, branches=0, forks=0, realised=0, unknowns=0, wall_s=left,
                                    functions=[], labels={}))
        pool.terminate()
    # ---- replay on the real code
    cex = [c for r in results for c in r["cex"]]
    samples = [c for r in results for c in r["samples"]]
    fcases = [c for r in results for c in r["findings"]]
    violation = None
    disagreements, validated, inconclusive = [], 0, []
    if cex:
        cex.sort(key=lambda c: len(json.dumps(c["inputs"])))
        for hs in ("0", "1", "2"):
            out = real_batch(cex, hashseed=hs)
            if out is None:
                # one of them may have killed the interpreter: try one by one
                out = [(real_batch([c], timeout=60, hashseed=hs) or [{"status": "error"}])[0] for c in cex[:20]]
            for c, r in zip(cex, out):
                if r["status"] == "violated":
                    c["why"] = r.get("why", "")
                    violation = violation or c
                    break
            if violation:
                break
        if not violation:
            inconclusive += [c for c in cex]
    if samples:
        out = real_batch(samples)
        if out is None:
            inconclusive.append({"msg": "replay of sampled paths failed to run"})
        else:
            for c, r in zip(samples, out):
                if r["status"] == "violated":
                    c["why"] = r.get("why", "")
                    c["msg"] = "path believed to hold"
                    if violation is None:
                        violation = c
                    disagreements.append(dict(inputs=c["inputs"], why=r.get("why")))
                elif c.get("obs") is not None and sorted(json.dumps(o) for o in c["obs"]) != sorted(json.dumps(o) for o in r["obs"]):
                    disagreements.append(dict(harness=c["harness"], inputs=c["inputs"], encoded=c["obs"], real=r["obs"]))
                elif r["status"] == "infeasible":
                    disagreements.append(dict(harness=c["harness"], inputs=c["inputs"], why="assumption fails on replay"))
                elif c.get("obs") is not None:
                    validated += 1
    confirmed = {}
    if fcases:
        out = real_batch(fcases) or []
        for c, r in zip(fcases, out):
            if any(f[0] == c["fid"] for f in r.get("findings", [])):
                confirmed.setdefault(c["fid"], c)
            elif r["status"] == "violated" and violation is None:
                c["why"] = r.get("why", "")
                violation = c
    # ---- report
    rc = 0
    if import_error:
        print("the package could not be imported under instrumentation:\n" + import_error[-1500:])
        rc = 2
    errors = [r for r in results if r.get("error")]
    for r in errors:
        print("INTERNAL %s%s: %s" % (r["harness"], r["params"], r["error"]))
    for f in findings:
        if f["id"] in confirmed:
            print("KNOWN-FINDING: property=%s %s [%s] e.g. %s" % (
                prop, f["what"], f["id"], json.dumps(confirmed[f["id"]]["inputs"])[:300]))
    vac = [r for r in results if r["complete"] and r["checks"] == 0]
    for c in inconclusive[:6]:
        print("INCONCLUSIVE: counterexample did not reproduce on the real code: %s %s %s" % (
            c.get("harness"), c.get("msg"), json.dumps(c.get("inputs"))[:400]))
        if os.environ.get("VF_DEBUG"):
            print(c.get("params"), c.get("detail"))
    for d in disagreements[:6]:
        print("ENCODING-DISAGREEMENT: %s" % json.dumps(d)[:800])
    if violation:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        violation["property"] = prop
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print("violated: %s" % violation.get("why", violation.get("msg")))
        print("inputs: %s" % json.dumps(violation["inputs"])[:1500])
        print("replay with: %s %s %s" % (REALPY, os.path.join(HERE, "vf", "replay.py"), path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    S = lambda k: sum(r[k] for r in results)
    funcs = sorted(set(f for r in results for f in r["functions"] if f.startswith("metaknowledge")))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=S("branches") + S("paths"), transitions=S("forks") + S("branches"),
            traces_validated_against_impl=validated,
            samples=[dict(harness=c["harness"], params=c["params"], inputs=c["inputs"]) for c in
                     random.Random(seed).sample(samples, min(8, len(samples)))],
            exhaustive=all(r["complete"] for r in results) and not inconclusive,
            what="states: symbolic decision points plus completed paths; transitions: branch sides taken; every path "
                 "condition and assertion is decided by z3 over all inputs of the stated shape",
            instances=len(tasks), instances_exhausted=sum(1 for r in results if r["complete"]),
            paths=S("paths"), assertions_reached=S("checks"), assertions_discharged_by_solver=S("asserted"),
            solver_queries=S("queries"), solver_s=round(S("solver_s"), 2), solver_unknown=S("unknowns"),
            values_realised_by_forking=S("realised"), functions_encoded=funcs,
            bounds=[dict(harness=h["name"], bounds=h["bounds"], shapes=len(h[tier])) for h in REGISTRY[prop]],
            not_exhausted=[dict(harness=r["harness"], params=r["params"], why=(r["undecided"][:3] + list(r["dead"])))
                           for r in results if not r["complete"]][:20],
            vacuous=[dict(harness=r["harness"], params=r["params"]) for r in vac],
            inconclusive=len(inconclusive), encoding_disagreements=len(disagreements),
            known_findings_confirmed=sorted(confirmed)),
        assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d instances (%d exhausted), %d paths, %d checks (%d by solver), %d queries, %.1fs solver, "
          "%d replays agree, %d disagree, %d inconclusive, %.1fs" % (
              prop, tier, len(tasks), ev["coverage"]["instances_exhausted"], S("paths"), S("checks"), S("asserted"),
              S("queries"), S("solver_s"), validated, len(disagreements), len(inconclusive), time.time() - t0))
    if os.environ.get("VF_DEBUG"):
        for r in results:
            print("  %s%s paths=%d checks=%d complete=%s dead=%s und=%s %.1fs solver %.1f" % (
                r["harness"], r["params"], r["paths"], r["checks"], r["complete"], r["dead"], r["undecided"][:2],
                r["wall_s"], r["solver_s"]))
        if vac:
            print("VACUOUS", [(r["harness"], r["params"]) for r in vac])
    return rc


ASSUMPTIONS = [
    "hash() of two different strings differs (records and citations compare by hash of their id)",
    "files are decoded text; codecs are not modelled; csv, re, pickle, os.stat and open are replaced by the models in vf/symio.py and vf/symre.py",
    "symbolic text ranges over the alphabets and lengths each harness states; nothing is claimed outside them",
    "sets iterate in insertion order during symbolic execution; replay uses the real interpreter with hash seeds 0, 1 and 2",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv))
