#!/usr/bin/env python3
"""Decide one property of /repo's current tree:  check.py C02 [--tier quick|thorough]

exit 0  every obligation generated from the current source is discharged and no replayed case fails
exit 1  one line  VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import os, sys, json, time, argparse, importlib, multiprocessing as mp, subprocess, traceback, warnings, hashlib
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VC_REPO", "/repo")
REAL_PY = "/opt/venv/bin/python"
BASE_TRUST = [
    "pyvc: the verification-condition generator (AST transformation, path exploration, loop summarisation rule, ring normaliser) and z3 5.3 / cvc5 1.1.2",
    "assumed contracts of torch / numpy / copy / os operations (pyvc/torch_impl.py, numpy_impl.py, arr.py, stubs.py); cross-checked, bounded, by the replay executions below",
    "floating-point arithmetic treated as exact real arithmetic (x/0 := 0; no NaN, infinity, overflow or rounding); Python integers are mathematical",
    "device placement (CUDA), autograd and wall-clock time are outside the model",
]

def worker(prop, name, opts, q):
    try:
        from pyvc import harness as HH
        k = [k for k in HH.REG[prop] if k.name == name][0]
        r = HH.run_contract(k, timeout=opts["timeout"], time_scale=opts["time_scale"])
    except BaseException as e:
        r = {"contract": name, "functions": [], "bounded": None, "obs": [], "error": f"verifier error {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}",
             "paths": 0, "time": 0, "solver_time": 0, "queries": 0, "notes": []}
    try: q.put((name, r))
    except Exception as e: q.put((name, dict(r, obs=[], error=f"result transport {e}")))
    q.close(); q.join_thread()
    os._exit(0)

def run_all(prop, ks, opts, jobs, witness=lambda: False):
    """every contract in its own process; stops once an obligation has failed and a failing input is known"""
    ctx = mp.get_context("fork")
    todo = list(ks); running = {}; res = {}
    scale = opts.get("time_scale", 1.0)
    end = time.time() + opts.get("deadline", 1e9)
    bad = False
    while todo or running:
        if bad and witness() or time.time() > end:
            late = time.time() > end
            for n, (p, q, t0, k) in running.items(): p.kill()
            for k in [r[3] for r in running.values()] + todo:
                res[k.name] = fail_result(k, "time limit of the whole check exceeded" if late else None)
                res[k.name]["skipped"] = not late
            break
        while todo and len(running) < jobs:
            k = todo.pop(0)
            q = ctx.SimpleQueue() if False else ctx.Queue()
            p = ctx.Process(target=worker, args=(prop, k.name, opts, q), daemon=True)
            p.start()
            running[k.name] = (p, q, time.time(), k)
        for n in list(running):
            p, q, t0, k = running[n]
            got = None
            try:
                got = q.get(timeout=0.02)
            except Exception:
                got = None
            if got is None:
                dead = not p.is_alive()
                over = time.time() - t0 > k.time_limit * scale * 1.3 + 30
                if dead:
                    try: got = q.get(timeout=0.5)
                    except Exception: got = (n, fail_result(k, "verifier process ended without a result"))
                elif over:
                    p.kill(); got = (n, fail_result(k, f"verifier exceeded its time limit ({k.time_limit * scale:.0f} s)"))
            if got is not None:
                res[n] = got[1]
                bad = bad or bool(got[1]["error"]) or any(o["status"] != "proved" for o in got[1]["obs"])
                p.join(2); 
                if p.is_alive(): p.kill()
                del running[n]
    return [res[k.name] for k in ks]

def fail_result(k, why):
    return {"contract": k.name, "functions": k.functions, "bounded": k.bounded, "obs": [], "error": why, "paths": 0, "time": 0,
            "solver_time": 0, "queries": 0, "notes": []}

def start_replay(prop, seed, budget, out, hints=()):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMPI_ALLOW_RUN_AS_ROOT="1",
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="2", VC_REPO=REPO, PYTHONHASHSEED="0")
    return subprocess.Popen([REAL_PY, "-W", "ignore", os.path.join(HERE, "replay", "run.py"), prop, "--seed", str(seed),
                             "--budget", str(budget), "--out", out] + (["--hints", json.dumps(list(hints))] if hints else []),
                            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def end_replay(p, out, limit):
    try: o, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); o, _ = p.communicate()
    try:
        with open(out) as f: r = json.load(f)
    except Exception:
        r = {"cases": 0, "failed": None, "error": (o or "")[-2000:]}
    return r

def known_findings():
    """entries  KNOWN-FINDING: property=<id> [<key>] <what fails>"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:"):
                d = l[len("KNOWN-FINDING:"):].strip()
                pid = d.split()[0].split("=")[1]
                key = d[d.index("[") + 1:d.index("]")]
                out.setdefault(pid, {})[key] = d[d.index("]") + 1:].strip()
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VC_JOBS", "8")))
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(HERE, "evidence"); os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    tmp = os.path.join(ev, "replay", f"{prop}.run.{os.getpid()}.json")
    rp = None if a.no_replay else start_replay(prop, seed, 20 if tier == "quick" else 150, tmp)
    fails, results, load_err, ks = [], [], None, []
    try:
        from pyvc import loader; loader.install()
        from pyvc import harness as HH
        cm = importlib.import_module("contracts." + prop.lower())
        ks = [k for k in HH.REG.get(prop, []) if a.only in k.name and (tier == "thorough" or k.tier == "quick")]
        for m in getattr(cm, "PRELOAD", ()):
            importlib.import_module(m)
    except BaseException as e:
        load_err = f"{type(e).__name__}: {e}"
        if a.v: traceback.print_exc()
    if load_err: fails.append(("load", "source loads under the verifier", "error", load_err))
    else:
        opts = {"timeout": 15000 if tier == "quick" else 60000, "time_scale": 3.0 if tier == "quick" else 10.0, "deadline": 540 if tier == "quick" else 7200}
        ks_run = sorted(ks, key=lambda k: -k.time_limit)
        found = {}
        def have_witness():
            """the replay started alongside has already found a failing input"""
            if rp is None: return False
            if "w" not in found and rp.poll() is not None:
                try: found["w"] = bool(json.load(open(tmp)).get("failed"))
                except Exception: found["w"] = False
            return found.get("w", False)
        results = run_all(prop, ks_run, opts, a.jobs, have_witness)
        for r in results:
            if r["error"]: fails.append((r["contract"], "all obligations generated", "error", r["error"]))
            bad = [o for o in r["obs"] if o["status"] != "proved"]
            for o in bad: fails.append((r["contract"], o["name"], o["status"], o["detail"], o["model"]))
            if not r["error"] and not r["obs"] and not r.get("skipped"): fails.append((r["contract"], "obligation count", "error", "contract generated no obligation"))
            if a.v:
                print(f"-- {r['contract']}: {sum(o['status']=='proved' for o in r['obs'])}/{len(r['obs'])} paths {r['paths']} t {r['time']}s solver {r['solver_time']}s")
                if r["error"]: print("   ERROR", r["error"])
                for o in bad: print("   ", o["status"], o["backend"], o["name"], (o["detail"] or "")[:400], o["model"])
        if not results: fails.append(("none", "obligation count", "error", "no contract registered"))
    known = known_findings().get(prop, {})
    kf_hit = []
    real_fails = []
    for f in fails:
        key = f"{f[0]} :: {f[1]}"
        if key in known and f[2] == "cex": kf_hit.append(key)
        else: real_fails.append(f)
    rr = {"cases": 0, "failed": None}
    rtot = 0; rerr = None
    if rp is not None:
        rr = end_replay(rp, tmp, 240 if tier == "quick" else 600); rtot += rr.get("cases", 0); rerr = rr.get("error")
        if real_fails and not rr.get("failed"):
            hints = sorted({f[0] for f in real_fails})
            p2 = start_replay(prop, seed + 1000, 150 if tier == "quick" else 400, tmp, hints)
            rr = end_replay(p2, tmp, 300 if tier == "quick" else 700); rtot += rr.get("cases", 0)
    try: os.unlink(tmp)
    except OSError: pass
    witness = rr.get("failed")
    for k in (rr.get("known") or []): kf_hit.append(k)
    viol = bool(real_fails) or bool(witness)
    # evidence
    proved_sets = [r for r in results if not r["bounded"]]
    bounded = [r for r in results if r["bounded"]]
    obl = sum(len(r["obs"]) for r in proved_sets); dis = sum(o["status"] == "proved" for r in proved_sets for o in r["obs"])
    backends = {}
    for r in proved_sets:
        for o in r["obs"]:
            if o["status"] == "proved": backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    try:
        from contracts import meta
        trust = BASE_TRUST + meta.TRUST.get(prop, [])
    except Exception: trust = BASE_TRUST
    funs = sorted({f for r in results for f in r["functions"]})
    evd = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
           "coverage": {"obligations": obl, "discharged": dis,
                        "checker_cmd": f"python3-vt -W ignore check.py {prop} --tier {tier}",
                        "trusted_base": trust,
                        "functions_under_contract": funs,
                        "contracts": [{"name": r["contract"], "obligations": len(r["obs"]), "discharged": sum(o["status"] == "proved" for o in r["obs"]),
                                       "paths": r["paths"], "solver_time_s": r["solver_time"], "time_s": r["time"], "queries": r["queries"],
                                       **({"bounded": r["bounded"]} if r["bounded"] else {}), **({"error": r["error"]} if r["error"] else {})} for r in results],
                        "back_ends": backends,
                        "solver_time_s": round(sum(r["solver_time"] for r in results), 2),
                        "bounded_contracts": [{"name": r["contract"], "bound": r["bounded"], "obligations": len(r["obs"])} for r in bounded],
                        "replay_cases_on_real_code": rtot,
                        **({"replay_error": rerr} if rerr else {})},
           "assumptions": trust + sorted({n for r in results for n in r["notes"]}),
           "wall_s": round(time.time() - t0, 2), "violations": int(viol)}
    with open(os.path.join(ev, f"{prop}.json"), "w") as f: json.dump(evd, f, indent=1)
    for k in dict.fromkeys(kf_hit): print(f"KNOWN-FINDING: property={prop} [{k}] {known.get(k, '')}")
    if a.v: print(f"replay cases {rtot} err {rerr} witness {witness}")
    if viol:
        h = hashlib.sha1(json.dumps([real_fails and real_fails[0][:2], witness], default=str).encode()).hexdigest()[:8]
        path = os.path.join(ev, "replay", f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "failed_obligations": [dict(zip(("contract", "obligation", "status", "detail", "model"), x)) for x in real_fails[:40]],
                       "failing_input": witness, "rerun": f"{REAL_PY} -W ignore {HERE}/replay/run.py {prop} --case {path}" if witness else None}, f, indent=1, default=str)
        for x in real_fails[:8]: print(f"failed obligation: {x[0]} :: {x[1]} [{x[2]}] {str(x[3])[:300]}")
        if witness: print(f"failing input on the real code: {json.dumps(witness)[:600]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if witness else " no-failing-input-found"))
        sys.stdout.flush(); os._exit(1)
    print(f"{prop}: {dis}/{obl} obligations discharged in {len(results)} contracts, {rtot} replayed cases, {time.time()-t0:.1f} s")
    sys.stdout.flush(); os._exit(0)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException as e:
        # the verifier itself failed: nothing was decided
        traceback.print_exc()
        print(f"VIOLATION property={sys.argv[1] if len(sys.argv) > 1 else '?'} replay=none no-failing-input-found")
        sys.stdout.flush(); os._exit(1)
