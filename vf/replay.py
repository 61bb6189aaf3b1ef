"""Run harness inputs against the real, uninstrumented package.

usage: python replay.py FILE        one replay file; exit 1 if the violation reproduces
       python replay.py --batch IN OUT
"""
import contextlib
import importlib
import io
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


def setup():
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import metaknowledge as mk
    return mk


def run_one(mk, case):
    from vf import ctx
    mod = importlib.import_module(case["module"])
    fn = getattr(mod, case["harness"])
    c = ctx.ConcreteCtx(mk, case["inputs"])
    res = {"status": "holds"}
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn(c, **case["params"])
    except ctx.Violation as e:
        res = {"status": "violated", "why": str(e)}
    except ctx.Infeasible:
        res = {"status": "infeasible"}
    except Exception as e:
        res = {"status": "violated", "why": "unexpected %s: %s" % (type(e).__name__, e),
               "trace": traceback.format_exc()[-2000:]}
    finally:
        os.chdir(cwd)
        c.cleanup()
    res["obs"] = c.obs
    res["findings"] = [[f, str(m)] for f, m in c.findings]
    res["inputs"] = c.inputs
    return res


def main():
    mk = setup()
    if sys.argv[1] == "--batch":
        with open(sys.argv[2]) as f:
            cases = json.load(f)
        out = [run_one(mk, c) for c in cases]
        with open(sys.argv[3], "w") as f:
            json.dump(out, f, default=repr)
        return 0
    with open(sys.argv[1]) as f:
        case = json.load(f)
    r = run_one(mk, case)
    print("property %s, harness %s.%s%s" % (case["property"], case["module"], case["harness"], case["params"]))
    print("inputs: %s" % json.dumps(case["inputs"], ensure_ascii=True))
    print("result: %s %s" % (r["status"], r.get("why", "")))
    if r.get("trace"):
        print(r["trace"])
    return 1 if r["status"] == "violated" else 0


if __name__ == "__main__":
    sys.path = [p for p in sys.path if os.path.realpath(p or ".") != os.path.dirname(os.path.abspath(__file__))]
    sys.exit(main())
