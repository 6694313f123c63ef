#!/usr/bin/env python3-vt
"""check.py <property> quick|thorough : decides one property on /repo's current working tree (see DESIGN.md)."""
import json, os, sys, time, threading, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
from vc import props, runner, native, world

STD_ASSUME = [
    "partial correctness: termination is not proved (the bounded driver runs would hang)",
    "verified text: LLVM IR emitted by clang-18 -O1 -disable-llvm-passes (sroa, simplifycfg) from the current sources, NDEBUG, UMPIRE_ENABLE_LOGGING off, host configuration; the camp headers are the stub in support/stub",
    "memory model: fields of distinct struct types do not alias; an object is only accessed through its declared type",
    "constructors and destructors are under contract only where listed",
]


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    cfg = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir="/tmp")
    try:
        rc = run(pid, tier, cfg, seed, t0, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(pid, tier, cfg, seed, t0, out):
    thorough = tier == "thorough"
    os.makedirs(HERE + "/evidence/replay", exist_ok=True)
    exes, builderr = {}, {}

    def build_all():
        for kind in sorted(set(d[0] for d in cfg["drivers"])):
            san = cfg.get("san", "address")
            try:
                exes[kind] = native.build(kind, "%s/drivers/%s_driver.cpp" % (HERE, kind), "%s/n_%s" % (out, kind), san=san)
            except native.NativeError as e:
                builderr[kind] = str(e)
    build_all()
    deadline = time.time() + (400 if not thorough else 3000)
    results, trusted = runner.prove(cfg["specs"], out, deadline, maxfail=4 if not thorough else 40)
    bad = [(r, o) for r in results for o in r["obls"] if o["status"] != "unsat"]
    errs = [r for r in results if r["error"] and r.get("errkind") != "vacuous"]
    vac = [r for r in results if r.get("errkind") == "vacuous"]
    # the bounded runs on the real code: for what is out of the verifier's reach, and to turn a failed obligation into a failing input
    runs, hit = [], None
    for kind, comp, rq, rt in cfg["drivers"]:
        if kind not in exes:
            runs.append(dict(component=comp, result="not built", note=builderr.get(kind, "")[:400]))
            continue
        plan = [(seed, rt if thorough else rq, 400 if thorough else 60)]
        if bad or errs or vac:
            plan += [(seed + 1 + i, rq * 4, 75) for i in range(3)]
        for sd, rounds, lim in plan:
            t = time.time()
            f, o = native.run(exes[kind], comp, sd, rounds, lim)
            hang = f is None and o.startswith("timeout") and not thorough
            runs.append(dict(component=comp, seed=sd, rounds=rounds, seconds=round(time.time() - t, 2),
                             result="failed" if f else ("hang" if hang else "undecided" if f is None else "ok")))
            if f or hang:
                hit = (kind, comp, sd, rounds, o)
                break
        if hit:
            break
    nob = sum(len(r["obls"]) for r in results)
    ndis = sum(1 for r in results for o in r["obls"] if o["status"] == "unsat")
    back = {}
    for r in results:
        for o in r["obls"]:
            if o["status"] == "unsat":
                b = back.setdefault(o["solver"], [0, 0.0])
                b[0] += 1
                b[1] += o["time"]
    violation = bool(bad or vac or hit)
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 1), violations=1 if violation else 0,
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd="python3-vt check.py %s %s (vc/: symbolic execution of the LLVM IR of /repo, VCs to z3 %s and cvc5 1.1.2)" % (pid, tier, runner.z3.get_version_string()),
                  trusted_base=["%s: %s" % kv for kv in sorted(trusted.items())] + ["clang-18 front end and sroa/simplifycfg passes; vc/ verification-condition generator; z3, cvc5"],
                  functions_under_contract=[dict(name=r["name"], obligations=len(r["obls"]), discharged=sum(1 for o in r["obls"] if o["status"] == "unsat"),
                                                 returning_paths=r["paths_ret"], throwing_paths=r["paths_exc"], non_vacuous_paths_found=r["reach"],
                                                 inlined_helpers=[x for x in r["inlined"] if "umpire" in x], contracts_used=r["contracts"],
                                                 loop_invariants=r["loops"], error=r["error"]) for r in results],
                  discharged_by={k: dict(obligations=v[0], solver_seconds=round(v[1], 2)) for k, v in back.items()},
                  symbolic_execution_seconds=round(sum(r["exec_s"] for r in results), 1),
                  outside_reach_this_run=[dict(function=r["name"], reason=r["error"]) for r in errs],
                  bounded_stand_ins=dict(label="bounded, not proved", covers=cfg.get("bounded", "trusted dependencies, constructors and destructors, termination"), runs=runs),
              ),
              assumptions=STD_ASSUME + cfg.get("assume", []))
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, pid), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d functions, %d outside reach, %.0f s" % (pid, nob, ndis, len(results), len(errs), time.time() - t0))
    for r in errs:
        print("  outside reach (bounded stand-in used): %s: %s" % (r["name"], r["error"][:300]))
    for b in runs:
        print("  bounded:", b)
    if not violation:
        if not nob and not any(b["result"] == "ok" for b in runs):
            print("no answer: the sources could not be processed:", [r["error"][:500] for r in errs], builderr)
            return 2
        return 0
    path = "%s/evidence/replay/%s.json" % (HERE, pid)
    rep = dict(property=pid, failed_obligations=[dict(function=r["name"], obligation=o["label"], solver_status=o["status"], solver=o["solver"], counterexample=o["model"],
                                                     path=o["trace"], goal=o.get("goal")) for r, o in bad][:20],
               vacuous=[r["error"] for r in vac])
    if hit:
        rep["failing_input"] = dict(driver="drivers/%s_driver.cpp" % hit[0], component=hit[1], seed=hit[2], rounds=hit[3],
                                    how="python3-vt replay.py %s %s %d %d" % hit[:4], output=hit[4])
    json.dump(rep, open(path, "w"), indent=1)
    for r, o in bad[:8]:
        print("  failed obligation: %s: %s (%s)" % (r["name"], o["label"], o["status"]))
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if hit else " no-failing-input-found"))
    return 1


main()
