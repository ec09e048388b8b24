"""Check driver: python -B -m pyvc.run <property> [--tier quick|thorough] [--replay FILE] [--only NAME]"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _short(v):
    if isinstance(v, str) and len(v) > 200:
        return v[:200] + "..."
    return v


def run_harness(h, tier, seed, budget):
    """One contract: prove, replay refutations, cross-check natively, fall back to bounds where out of reach."""
    import builtins
    import logging

    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(12000)
    from . import lib
    from . import sym as S
    from .engine import Engine

    res = {"name": h.name, "obligations": {}, "violations": [], "notes": [], "functions": [], "models": [], "native_runs": 0, "native_checks": 0,
           "discarded": 0, "samples": [], "mode": "proved", "paths": 0, "covered": 0, "solver_s": 0.0, "queries": 0, "by_cvc5": 0, "distinct": 0,
           "assumptions": list(h.opts.get("assumes", ()))}
    t0 = time.time()
    opts = h.opts
    mismatch = None

    def engine(unroll):
        e = Engine(timeout_ms=opts.get("timeout_ms", 6000), max_paths=opts.get("max_paths", 6000),
                   max_seconds=opts.get("seconds", budget), unroll=unroll)
        e.cfg_split_bound = opts.get("split_bound")
        return e

    def merge(e):
        for n, o in e.obls.items():
            r = res["obligations"].setdefault(n, {"instances": 0, "discharged": 0, "trivial": 0, "failed": 0, "unknown": 0, "cvc5": 0, "lang": 0, "ms": 0.0})
            r["instances"] += o.instances
            r["discharged"] += o.discharged
            r["trivial"] += o.trivial
            r["failed"] += o.failed
            r["unknown"] += o.unknown
            r["cvc5"] += o.by_cvc5
            r["lang"] += o.by_lang
            r["ms"] = round(r["ms"] + o.ms, 1)
        res["functions"] = sorted(set(res["functions"]) | e.funcs)
        res["models"] = sorted(set(res["models"]) | e.models_used)
        res["paths"] += e.paths
        res["covered"] += e.covered_paths
        res["solver_s"] += e.solver_s
        res["queries"] += e.queries

    failures = []
    engine_run = not opts.get("native_only")
    if engine_run:
        e = engine(opts.get("unroll"))
        builtins.__pyvc__ = e
        if os.environ.get("PYVC_PROF"):
            import cProfile
            prof = cProfile.Profile()
            prof.enable()
        try:
            e.explore(h.fn)
        except lib.ContractMismatch as m:
            mismatch = str(m)
        except BaseException as x:
            e.unsupported.append(f"engine: {type(x).__name__}: {x}")
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
        if os.environ.get("PYVC_PROF"):
            import pstats
            prof.disable()
            pstats.Stats(prof).sort_stats("tottime").print_stats(30)
        merge(e)
        failures += e.failures
        if opts.get("unroll") is not None:
            res["mode"] = "bounded"
            res["notes"].append(f"bounded: at most {opts['unroll']} iterations/elements")
        for u in e.unsupported:
            if u.startswith("ContractMismatch"):
                mismatch = u
        if e.unsupported:
            res["mode"] = "undecided"
            res["notes"] += sorted(set(e.unsupported))[:6]
            if not failures and mismatch is None and opts.get("unroll") is None and opts.get("fallback", True):
                # bounded stand-in: the same contract with loops unrolled
                e2 = engine(opts.get("fallback_unroll", 2))
                e2.max_seconds = min(e2.max_seconds, opts.get("fallback_seconds", 20))
                e2.cfg_split_bound = opts.get("split_bound", 2)
                builtins.__pyvc__ = e2
                try:
                    e2.explore(h.fn)
                except BaseException as x:
                    e2.unsupported.append(f"{type(x).__name__}: {x}")
                failures += e2.failures
                res["notes"].append(f"bounded stand-in: {e2.paths} paths with at most {e2.unroll} iterations, {sum(o.discharged for o in e2.obls.values())} instances discharged, open: {sorted(set(e2.unsupported))[:3]}")
                res["bounded"] = {"paths": e2.paths, "instances": sum(o.instances for o in e2.obls.values()), "discharged": sum(o.discharged for o in e2.obls.values())}
        if mismatch is not None:
            res["mode"] = "mismatch"
            res["notes"].append("contract does not match the code: " + mismatch)
    else:
        res["mode"] = "native"

    # replay of counter-models on the real code
    seen = set()
    for f in failures:
        confirmed = None
        model, draws = f.pop("model"), f.pop("draws")
        imprecise = f.get("imprecise")
        if model is not None:
            for j in range(4):
                try:
                    st, name, det, mode = lib.run_native(h, lib.ModelSource(model, draws, j))
                except BaseException as x:
                    f["replay_error"] = f"{type(x).__name__}: {x}"
                    break
                if st == "violation":
                    confirmed = (name, det, mode.log)
                    break
                f["replay"] = st if det is None else f"{st}: {det}"
        f["confirmed"] = confirmed is not None
        if confirmed:
            key = confirmed[0]
            if key not in seen:
                seen.add(key)
                res["violations"].append({"obligation": confirmed[0], "detail": confirmed[1], "log": confirmed[2], "symbolic": f["obligation"], "kind": "counterexample",
                                          "model": f.get("model_text", "")})
    # native cross-check and directed search with the same contract
    runs = opts.get("runs", 60) * (1 if tier == "quick" else 12)
    deadline = time.time() + opts.get("native_seconds", 8) * (1 if tier == "quick" else 8)
    if res["mode"] == "bounded":
        runs *= 5
    if (failures or res["mode"] == "undecided") and not res["violations"]:  # no proof: the same contract is searched natively for longer
        runs *= 40
        deadline = time.time() + 40
    if opts.get("native", True) and not (res["violations"]):
        logs = set()
        for i in range(runs):
            if time.time() > deadline:
                break
            s = f"{seed}:{h.name}:{i}"
            st, name, det, mode = lib.run_native(h, lib.RandomSource(s))
            if st == "discard":
                res["discarded"] += 1
                continue
            if st == "mismatch":
                res["notes"].append("native run: " + str(det))
                break
            res["native_runs"] += 1
            res["native_checks"] += mode.checks
            logs.add(hashlib.sha1(repr(sorted(mode.log.items(), key=str)).encode()).hexdigest())
            if len(res["samples"]) < 2:
                res["samples"].append({k: _short(v) for k, v in list(mode.log.items())[:12]})
            if st == "violation":
                res["violations"].append({"obligation": name, "detail": det, "log": mode.log, "kind": "native",
                                          "symbolic": failures[0]["obligation"] if failures else None})
                break
        res["distinct"] = len(logs)
    if failures and not res["violations"]:
        # only refutations of an inductive step (arbitrary loop state) have no input to replay; any other one that does not replay is the tool's
        sure = [f for f in failures if f.get("inductive") and not f.get("imprecise")]
        for f in sure[:1]:
            res["violations"].append({"obligation": f["obligation"], "detail": f.get("detail", ""), "log": None, "kind": "refuted",
                                      "model": f.get("model_text", ""), "inductive": f.get("inductive"), "replay": f.get("replay") or f.get("replay_error")})
        if not sure:
            res["mode"] = "undecided"
            if os.environ.get("PYVC_TRACE"):
                for f in failures:
                    print("not replayed:", f["obligation"], f.get("log") or f.get("model_text"), f.get("replay"), file=sys.stderr)
            res["notes"].append(f"refutation of {failures[0]['obligation']} did not replay on the real code ({failures[0].get('replay') or failures[0].get('replay_error')}): {failures[0].get('detail', '')}")
    if engine_run and res["mode"] == "proved" and not res["violations"]:
        if res["covered"] == 0 or sum(o["instances"] for o in res["obligations"].values()) == 0:
            res["mode"] = "undecided"
            res["notes"].append("vacuous: no covered path or no obligation")
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def _worker(args):
    mod, name, tier, seed, budget, native = args
    try:
        m = importlib.import_module("contracts." + mod)
        from . import lib
        h = next(h for h in lib.REGISTRY if h.name == name and h.fn.__module__ == m.__name__)
        if native:
            h.opts["native_only"] = True
        return run_harness(h, tier, seed, budget)
    except BaseException as x:
        return {"name": name, "crash": f"{type(x).__name__}: {x}", "tb": traceback.format_exc()[-2000:]}


def child(args, q):
    r = _worker(args)
    with open(q, "w") as f:
        json.dump(r, f, default=str)
    os._exit(0)


def schedule(jobs, nproc, limit):
    """Fork one process per contract, at most nproc at a time, killing any that overrun."""
    import tempfile
    results = {}
    running = {}
    pending = list(jobs)
    tmp = tempfile.mkdtemp(prefix="pyvc")
    t_end = time.time() + limit
    n = 0
    while pending or running:
        while pending and len(running) < nproc:
            j = pending.pop(0)
            n += 1
            out = os.path.join(tmp, f"{n}.json")
            pid = os.fork()
            if pid == 0:
                try:
                    child(j, out)
                finally:
                    os._exit(3)
            running[pid] = (j, out, time.time())
        done = []
        for pid, (j, out, t) in running.items():
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                done.append(pid)
                try:
                    with open(out) as f:
                        results[j[1]] = json.load(f)
                    os.unlink(out)
                except Exception as x:
                    results[j[1]] = {"name": j[1], "crash": f"worker ended without a result (status {st}): {x}"}
            elif time.time() - t > j[4] * 3 + 120 or time.time() > t_end:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                done.append(pid)
                results[j[1]] = {"name": j[1], "crash": "time limit"}
        for p in done:
            del running[p]
        if not done:
            time.sleep(0.02)
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    return results


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, VERIF)
    pid = a.property
    try:
        importlib.import_module("contracts." + pid)
    except BaseException as x:
        # the contracts cannot be applied to this tree at all
        if not a.replay:
            tb = traceback.format_exc()
            os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", "replay", f"{pid}-import.txt")
            with open(path, "w") as f:
                f.write(tb)
            print(tb)
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            sys.exit(1)
        raise
    from . import lib
    hs = [h for h in lib.REGISTRY if h.fn.__module__ == "contracts." + pid and (a.tier == "thorough" or not h.opts.get("thorough_only"))]
    if a.only:
        hs = [h for h in hs if h.name == a.only]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        h = next(h for h in hs if h.name == r["harness"])
        if r.get("log") is None:
            print("no failing input was found; failed obligation:", r["obligation"])
            print(r.get("model", ""))
            sys.exit(1)
        st, name, det, mode = lib.run_native(h, lib.LogSource(r["log"]))
        print(st, name, det)
        print(json.dumps(mode.log, indent=1, default=str))
        sys.exit(1 if st == "violation" else 0)
    budget = 60 if a.tier == "quick" else 240
    jobs = [(pid, h.name, a.tier, seed, h.opts.get("seconds", budget), False) for h in hs]
    results = schedule(jobs, 8, 640)
    again = [(pid, h.name, a.tier, seed, 30, True) for h in hs if "crash" in results[h.name]]
    if again:  # the prover gave no answer: the contract is at least searched natively
        second = schedule(again, 8, 120)
        for n, r in second.items():
            if "crash" not in r:
                r["mode"] = "undecided"
                r["notes"].append("prover: " + results[n]["crash"])
                results[n] = r
    explored = any("crash" not in r for r in results.values())
    known = load_known()
    viol, exit_code = [], 0
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    total = disc = triv = inst = nruns = nchecks = distinct = cvc5 = lang = 0
    solver = 0.0
    funcs, models, assumptions, samples = set(), set(), [], []
    modes, notes, per_obl = {}, {}, {}
    for h in hs:
        r = results[h.name]
        if "crash" in r:
            modes[h.name] = "undecided"
            notes[h.name] = [r["crash"]]
            print(f"NOTE {pid}.{h.name}: {r['crash']}")
            if a.v:
                print(r.get("tb", ""))
            continue
        if r["mode"] == "proved" and h.opts.get("bound"):
            r["mode"] = "bounded"
            r["notes"].append("bounded: " + h.opts["bound"])
        modes[h.name] = r["mode"]
        if r["notes"]:
            notes[h.name] = r["notes"]
        for n, o in r["obligations"].items():
            if n.startswith("cover:"):
                continue
            if r["mode"] == "proved":
                total += 1
                ok = o["instances"] > 0 and o["discharged"] == o["instances"]
                disc += ok
            per_obl[f"{h.name}/{n}"] = {"mode": r["mode"], "instances": o["instances"], "discharged": o["discharged"], "failed": o["failed"],
                                       "unknown": o["unknown"], "syntactic": o["trivial"], "cvc5": o["cvc5"], "automata": o["lang"], "ms": o["ms"]}
            inst += o["instances"]
            triv += o["trivial"]
            cvc5 += o["cvc5"]
            lang += o["lang"]
        solver += r["solver_s"]
        funcs |= set(r["functions"])
        models |= set(r["models"])
        assumptions += r["assumptions"]
        samples += [{"contract": h.name, "input": s} for s in r["samples"][:1]]
        nruns += r["native_runs"]
        nchecks += r["native_checks"]
        distinct += r["distinct"]
        for v in r["violations"]:
            fid = f"{h.name}:{v['obligation']}"
            kf = next((k for k in known if k["property"] == pid and k["contract"] == h.name and k["obligation"] == v["obligation"]), None)
            if kf is not None:
                print(f"KNOWN-FINDING: property={pid} {kf['what']}")
                continue
            path = os.path.join(VERIF, "evidence", "replay", f"{pid}-{h.name}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "harness": h.name, "obligation": v["obligation"], "detail": v["detail"], "kind": v["kind"],
                           "log": v["log"], "symbolic_obligation": v.get("symbolic"), "model": v.get("model"), "replay_note": v.get("replay"),
                           "how": f"bash /verif/check.sh {pid} --replay {path}"}, f, indent=1, default=str)
            print(f"{pid}.{h.name}: obligation '{v['obligation']}' fails ({v['kind']}): {v['detail']}")
            if v["log"] is not None:
                print("  input:", json.dumps({k: _short(x) for k, x in v["log"].items()}, default=str)[:1500])
            viol.append((path, v["kind"] == "refuted"))
        if a.v:
            print(f"  {h.name}: {r['mode']} paths={r['paths']} covered={r['covered']} queries={r['queries']} solver={r['solver_s']:.1f}s wall={r['wall_s']}s native={r['native_runs']} (discarded {r['discarded']})")
            for n, o in r["obligations"].items():
                print(f"     {n}: {o}")
            for n in r["notes"]:
                print("     note:", n)
    wall = round(time.time() - t0, 2)
    nh = {m: sum(1 for x in modes.values() if x == m) for m in set(modes.values())}
    meta = sys.modules["contracts." + pid]
    trusted = ["pyvc verification-condition generator (/verif/pyvc): AST instrumentation of the real functions, CPython executes the control flow",
               "z3 5.3.2 (cvc5 1.1.2 where z3 answers unknown)", "CPython 3.12 and the standard library outside the modelled calls",
               "integers mathematical (as in Python); floats treated as reals in proofs (rounding, nan, inf only in native runs)",
               "other threads only at the interference points the contracts name (lock operations, waits, thread-pool tasks, fork); locks checked for self-deadlock",
               "strings over code points up to U+2FFFF"]
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": total, "discharged": disc, "checker_cmd": f"bash check.sh {pid}", "trusted_base": trusted + sorted(models),
                       "obligation_instances": inst, "syntactically_discharged_instances": triv, "by_cvc5": cvc5, "by_automata": lang, "solver_seconds": round(solver, 2),
                       "functions_under_contract": sorted(funcs), "contracts": modes, "per_obligation": per_obl, "notes": notes,
                       "bounded_or_undecided": {k: v for k, v in modes.items() if v != "proved"},
                       "evaluations": nruns, "distinct_nontrivial": distinct, "native_assertions": nchecks,
                       "rule": "native cross-check: each contract run on the real code by CPython with seeded values; distinct by drawn values, discarded runs not counted",
                       "samples": samples[:6]},
          "assumptions": sorted(set(assumptions + list(getattr(meta, "ASSUMPTIONS", [])))), "wall_s": wall, "violations": len(viol)}
    if not a.only:
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: contracts {nh}; obligations {disc}/{total} discharged ({inst} instances); native runs {nruns}; {wall}s")
    for path, refuted in viol:
        print(f"VIOLATION property={pid} replay={path}" + (" no-failing-input-found" if refuted else ""))
    sys.exit(1 if viol else 0 if explored else 2)


if __name__ == "__main__":
    main()
