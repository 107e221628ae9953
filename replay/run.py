"""replay/run.py PROP --seed S --budget SECONDS --out FILE | --case REPLAYFILE
Runs concrete cases of a property on the real code against independent oracles."""
import sys, os, json, argparse, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
def one(m, prop, case):
    import rt
    rt.seed(case.get("seed", 0))
    try:
        m.CASES[prop][case["kind"]](case)
        return None
    except rt.Fail as e: return str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any("/yuca/" in f.filename for f in tb) and not isinstance(e, (MemoryError,)):
            f = [f for f in tb if "/yuca/" in f.filename][-1]
            return f"{type(e).__name__}: {e} (yuca/{f.filename.split('/yuca/')[-1]}:{f.lineno})"
        raise
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--out"); ap.add_argument("--case"); ap.add_argument("--hints", default="[]"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import rt
    m = importlib.import_module("cases_" + {**{f"C{i:02d}": "step" for i in range(1, 10)}, "C11": "c10", "C19": "c18", "C20": "c18"}.get(a.prop, a.prop.lower()))
    if a.case:
        c = json.load(open(a.case)).get("failing_input")
        if not c: print("no failing input recorded"); sys.exit(2)
        r = one(m, a.prop, c["case"]); print("reproduced: " + r if r else "not reproduced"); sys.exit(1 if r else 0)
    t0 = time.time(); n = 0; failed = None; err = None; kinds = {}
    try:
        for case in m.cases(a.prop, a.seed):
            if time.time() - t0 > a.budget: break
            n += 1; kinds[case["kind"]] = kinds.get(case["kind"], 0) + 1
            try: r = one(m, a.prop, case)
            except (TypeError, ValueError, IndexError, AttributeError) as e:
                # only where obligations have already failed: the result cannot even be taken apart as the property says it can be
                if a.hints == "[]" or not any(w in str(e) for w in ("unpack", "NoneType", "not subscriptable", "not iterable", "out of range")): raise
                r = f"the result is not of the stated form: {type(e).__name__}: {e}"
            if r:
                failed = {"case": case, "what": r}; break
    except BaseException as e:
        err = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
    res = {"cases": n, "failed": failed, "kinds": kinds}
    if err: res["error"] = err
    if a.out:
        with open(a.out, "w") as f: json.dump(res, f)
    if a.v or not a.out: print(json.dumps(res, indent=1))
    sys.stdout.flush(); os._exit(0)
if __name__ == "__main__": main()
