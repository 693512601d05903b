#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree.

1. Every unit of contracts/<id>.py is verified: the functions are read from /repo's source, executed symbolically
   and each contract clause becomes an obligation for the solvers.
2. replay/<id>.py runs the real code on concrete inputs with the same contracts as run-time oracles: it provides the
   failing input for a failed obligation, and is the bounded stand-in for what the verifier cannot reach.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
VENV = "/opt/venv/bin/python"
EVID = os.path.join(HERE, "evidence")


def run_unit(args):
    pid, name, tier, deadline = args
    t0 = time.time()
    res = {"name": name, "status": "undecided", "obligations": {}, "reason": "", "wall": 0.0}
    try:
        from pyvc.engine import Engine, Limit
        from pyvc.values import Unsupported

        mod = importlib.import_module("contracts." + pid.lower())
        unit = next(u for u in mod.UNITS if u.name == name)
        opts = dict(unit.opts)
        eng = Engine(name, t0 + min(deadline, opts.get("budget", 60) * (4 if tier == "thorough" else 1)), opts)
        try:
            if unit.kind == "custom":
                res.update(unit.fn(tier, deadline))
                res["wall"] = time.time() - t0
                return res
            eng.explore(unit.fn)
            bad = [o for o in eng.obls.values() if o.ok != o.n]
            if bad:
                confirmed, note = confirm(unit, opts, t0 + deadline)
                if confirmed is None and not all(o.fail and o.fail[0] == "sat" for o in bad) or confirmed is False:
                    # not refuted, only not proved: once more with another seed and more time, from scratch
                    first = eng
                    eng = Engine(name, min(t0 + deadline, time.time() + opts.get("budget", 60) * 1.5), dict(opts, scale=3, seed=7))
                    try:
                        eng.explore(unit.fn)
                        bad = [o for o in eng.obls.values() if o.ok != o.n]
                    except (Limit, Unsupported):
                        eng = first
            if bad:
                res["confirmation"] = note
                if confirmed is False:
                    res["reason"] = "not proved and not refuted: " + note
                else:
                    res["status"] = "failed"
                    if confirmed is not None:
                        for nm, f in confirmed.items():
                            if nm in eng.obls:
                                eng.obls[nm].fail = f
            elif not eng.obls or not eng.posts or not all(eng.covers.values()):
                res["status"], res["reason"] = "undecided", "vacuous: no obligation or unreachable postcondition"
            else:
                res["status"] = "proved"
        except Unsupported as e:
            res["reason"] = "outside of the verified subset: " + str(e)
        except Limit as e:
            res["reason"] = "limit: " + str(e)
        for o in eng.obls.values():
            res["obligations"][o.name] = {"instances": o.n, "discharged": o.ok, "time": round(o.time, 3), "backends": o.backends, "fail": o.fail}
        res.update(paths=eng.paths, restarts=eng.restarts, queries=eng.queries, solver_s=round(eng.solver_time, 2), funcs=eng.funcs, assumed=sorted(eng.assumed), invariants=sorted(map(str, eng.invariants))[:60], n_invariants=len(eng.invariants))
        if tier == "thorough" and res["status"] == "proved":
            from pyvc.engine import run_cvc5

            n = ok = 0
            for nm, fs in eng.smt_dump[:60]:
                n += 1
                ok += run_cvc5(fs, 5) == "unsat"
            res["cvc5_recheck"] = {"obligation_instances": n, "confirmed_unsat": ok}
    except Exception as e:  # an error of the verifier is never a verdict on the code
        res["status"], res["reason"] = "undecided", f"{type(e).__name__}: {e}"
        res["traceback"] = traceback.format_exc()[-3000:]
    res["wall"] = round(time.time() - t0, 2)
    return res


def confirm(unit, opts, deadline):
    """A failed obligation may only mean that no loop invariant was found. The unit is executed again with lists of at
    most K elements and without any loop summary. Returns (failures, note): a dict if an obligation is refuted there,
    False if all obligations hold within the bound, None if that cannot be decided."""
    from pyvc.engine import Engine, Limit, Refuted
    from pyvc.values import Unsupported

    for k, secs in ((3, 60), (2, 60)):
        eng = Engine(unit.name, min(deadline, time.time() + secs), dict(opts, unroll=k, max_paths=20000))
        try:
            eng._explore_once(unit.fn)
        except Refuted:
            return {o.name: o.fail for o in eng.obls.values() if o.fail and o.fail[0] == "sat"}, f"refuted without loop summaries, lists of at most {k} elements"
        except Limit:
            continue
        except Unsupported as e:
            return None, f"no bounded confirmation: {e}"
        except Exception as e:
            return None, f"no bounded confirmation: {type(e).__name__}: {e}"
        if any(o.ok != o.n for o in eng.obls.values()):
            return None, "no bounded confirmation: solver answers unknown"
        return False, f"all obligations hold for lists of at most {k} elements ({eng.paths} paths)"
    return None, "no bounded confirmation: time"


def descendants(pid):
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    kids.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
            except (OSError, ValueError, IndexError):
                pass
    out, todo = [], [pid]
    while todo:
        for c in kids.get(todo.pop(), []):
            out.append(c)
            todo.append(c)
    return out


def known_findings():
    r = {}
    with open(os.path.join(HERE, "known_findings.jsonl")) as f:
        for line in f:
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                k = json.loads(line)
                r[k["id"]] = k
    return r


def unlisted(path, pid):
    """the concrete part ended with a failure that is not a known finding"""
    try:
        with open(path) as f:
            fs = json.load(f)["failures"]
    except (OSError, ValueError, KeyError):
        return False
    known = known_findings()
    return any(not (x.get("finding") in known and known[x["finding"]]["property"] == pid) for x in fs)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    pid, tier = a.pid.upper(), a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    hard = 2400 if tier == "thorough" else 780
    # concrete part
    rep_out = os.path.join(EVID, "replay", f"{pid}.concrete.json")
    if os.path.exists(rep_out):
        os.unlink(rep_out)
    rp = None
    rscript = os.path.join(HERE, "replay", pid.lower() + ".py")
    cmd = [VENV, rscript, "--tier", tier, "--seed", str(seed), "--out", rep_out]
    if os.path.exists(rscript) and not a.no_replay:
        env = dict(os.environ, PYTHONPATH="/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        rlog = open(os.path.join(EVID, "replay", f"{pid}.log"), "w")
        rp = subprocess.Popen(cmd, env=env, stdout=rlog, stderr=subprocess.STDOUT, start_new_session=True)
    # verifier
    units, results, modinfo = [], [], None
    try:
        modinfo = importlib.import_module("contracts." + pid.lower())
        units = [u for u in modinfo.UNITS if (tier == "thorough" or not u.opts.get("thorough_only")) and (not a.only or a.only in u.name)]
    except Exception as e:
        results.append({"name": "contracts", "status": "undecided", "reason": f"{type(e).__name__}: {e}", "obligations": {}, "traceback": traceback.format_exc()[-2000:]})
    grace = None
    if units:
        with mp.get_context("fork").Pool(min(8, len(units)), maxtasksperchild=1) as pool:
            asy = [(u, pool.apply_async(run_unit, ((pid, u.name, tier, hard * 0.6),))) for u in units]
            for u, r in asy:
                why = "time limit"
                try:
                    while not r.ready() and time.time() < t0 + hard * 0.75:
                        if grace is None and rp is not None and unlisted(rep_out, pid):
                            grace = time.time() + 30  # a failing input is known: the verdict no longer depends on the units
                        if grace is not None and time.time() > grace:
                            why = "not needed: a failing input was found"
                            break
                        r.wait(1)
                    results.append(r.get(timeout=0.1))
                except mp.TimeoutError:
                    results.append({"name": u.name, "status": "undecided", "reason": why, "obligations": {}})
                except Exception as e:
                    results.append({"name": u.name, "status": "undecided", "reason": repr(e), "obligations": {}})
            pool.terminate()
    t_units = time.time()
    conc = {"evaluations": 0, "distinct": 0, "failures": [], "known": [], "samples": [], "skipped": [], "rule": ""}
    conc_status = "none"
    if rp is not None:
        while rp.poll() is None and time.time() < max(t_units + 10, t0 + hard):
            if grace is None and unlisted(rep_out, pid):
                grace = time.time() + 30
            if grace is not None and time.time() > grace:
                break
            time.sleep(0.5)
        if rp.poll() is not None:
            conc_status = "ran"
        else:
            import signal

            for q in descendants(rp.pid) + [rp.pid]:
                try:
                    os.kill(q, signal.SIGKILL)
                except OSError:
                    pass
            rp.wait()
            conc_status = "timeout" if grace is None else "stopped after a failing input"
        if os.path.exists(rep_out):
            with open(rep_out) as f:
                conc.update(json.load(f))
        elif conc_status == "ran":
            conc_status = "crashed (no verdict)"
    known_ids = known_findings()
    failures, known_hit = [], {}
    for fl in conc["failures"]:
        k = fl.get("finding")
        if k and k in known_ids and known_ids[k]["property"] == pid:
            known_hit[k] = known_ids[k]
        else:
            failures.append(fl)
    failed_units = [r for r in results if r["status"] == "failed"]
    undecided = [r for r in results if r["status"] == "undecided"]
    total = sum(o["instances"] for r in results for o in r["obligations"].values())
    done = sum(o["discharged"] for r in results for o in r["obligations"].values())
    named = sum(len(r["obligations"]) for r in results)
    violation = None
    if failures:
        violation = ("concrete", failures[0])
    elif failed_units:
        violation = ("obligation", failed_units[0])
    funcs = {}
    for r in results:
        for k, v in (r.get("funcs") or {}).items():
            if k.startswith("unidist"):
                funcs[k] = v
    be = {}
    for r in results:
        for o in r["obligations"].values():
            for k, v in o["backends"].items():
                be[k] = be.get(k, 0) + v
    proved = [r["name"] for r in results if r["status"] == "proved"]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": total,
            "discharged": done,
            "named_obligations": named,
            "checker_cmd": f"python3-vt /verif/check.py {pid} --tier {tier}",
            "trusted_base": ["pyvc (the AST interpreter and loop summaries in /verif/pyvc)", "z3", "cvc5", "CPython's ast module"] + list(getattr(modinfo, "TRUSTED", [])),
            "units": {r["name"]: {"status": r["status"], "obligations": {k: f"{o['discharged']}/{o['instances']}" for k, o in r["obligations"].items()}, "paths": r.get("paths"), "loop_invariants": r.get("n_invariants"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall"), **({"reason": r["reason"]} if r.get("reason") else {}), **({"cvc5_recheck": r["cvc5_recheck"]} if r.get("cvc5_recheck") else {}), **({"extra": r["extra"]} if r.get("extra") else {})} for r in results},
            "units_proved": len(proved),
            "units_undecided_bounded_only": [f"{r['name']}: {r['reason']}" for r in undecided],
            "backends": be,
            "solver_s": round(sum(r.get("solver_s") or 0 for r in results), 2),
            "functions_under_contract": funcs,
            "assumed_contracts": sorted({x for r in results for x in (r.get("assumed") or [])} | set(getattr(modinfo, "ASSUMED", []))),
            "bounded_stand_in": {"label": "bounded, not counted as proved", "status": conc_status, "evaluations": conc["evaluations"], "distinct_nontrivial": conc["distinct"], "rule": conc["rule"], "skipped": conc["skipped"][:20]},
            "evaluations": conc["evaluations"],
            "distinct_nontrivial": conc["distinct"],
            "rule": conc["rule"],
            "samples": conc["samples"][:5],
        },
        "assumptions": list(getattr(modinfo, "ASSUMED", [])) + sorted({x for r in results for x in (r.get("assumed") or [])}),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.v:
        for r in results:
            print(f"  {r['name']}: {r['status']} {r.get('reason', '')} {r.get('confirmation', '')} paths={r.get('paths')} restarts={r.get('restarts')} {r.get('wall')}s")
            for k, o in r["obligations"].items():
                if o["discharged"] != o["instances"]:
                    print("     FAILED", k, o["discharged"], "/", o["instances"], str(o["fail"])[:1500])
            if r.get("traceback"):
                print(r["traceback"])
        print("  concrete:", conc_status, conc["evaluations"], "evaluations", len(failures), "failures", conc["skipped"][:5])
        for fl in failures[:5]:
            print("     ", json.dumps(fl, default=str)[:1500])
    print(f"{pid}: {len(proved)}/{len(results)} units proved, {done}/{total} obligation instances discharged, {len(undecided)} undecided; concrete: {conc['evaluations']} evaluations, {len(failures)} failures; {ev['wall_s']} s")
    for r in undecided:
        print(f"  undecided (bounded check only): {r['name']}: {r['reason'][:200]}")
    for k, v in known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {v['what']}")
    if violation:
        kind, d = violation
        path = os.path.join(EVID, "replay", f"{pid}.violation.json")
        body = {"property": pid, "failed_obligations": [{"unit": r["name"], "confirmation": r.get("confirmation", ""), "obligations": {k: o["fail"] for k, o in r["obligations"].items() if o["fail"]}} for r in failed_units]}
        if kind == "concrete":
            body["failing_input"] = d
            body["all_failures"] = failures[:10]
            body["replay_command"] = " ".join(cmd + (["--case", str(d.get("case"))] if d.get("case") else []))
        else:
            body["note"] = "the verifier gave no input that the concrete replay confirms"
        with open(path, "w") as f:
            json.dump(body, f, indent=1, default=str)
        if kind == "concrete":
            print("  failing input:", json.dumps(d, default=str)[:1500])
            print(f"VIOLATION property={pid} replay={path}")
        else:
            for k, o in d["obligations"].items():
                if o["fail"]:
                    print(f"  failed obligation {d['name']} / {k}: {str(o['fail'])[:800]}")
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
