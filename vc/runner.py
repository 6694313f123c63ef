"""Runs the proofs of one property: one process per function under contract, obligations solved by a shared pool of 8 slots."""
import os, sys, time, json, importlib, multiprocessing, multiprocessing.connection, traceback
import z3
from .engine import simp
from . import world as W

CTX = multiprocessing.get_context("fork")
SEM = None
GOODTRACE = lambda tr: [x for x in tr if isinstance(x, tuple)][-14:]


def _attempt(o, axs, stage):
    """one portfolio stage; -> (status, solver, model)"""
    zn = "z3 " + z3.get_version_string()
    q = any(W.has_q(f) for f in o.pc) or W.has_q(o.goal)
    if not q:
        s, r = W._z3try(o, axs, {0: 4000, 1: 20000, 2: 60000}[stage])
        if r != z3.unknown:
            return str(r), zn, W._model(s) if r == z3.sat else None
        r2 = W._cvc5(o, axs, {0: 4, 1: 20, 2: 60}[stage])
        return (r2 if r2 in ("unsat", "sat") else "unknown"), "cvc5 1.1.2", None
    plan = {0: (("z", 1500), ("c", 3), ("a", 3000)),
            1: (("c", 20), ("a", 20000), ("m", 10000)),
            2: (("c", 60), ("a", 60000))}[stage]
    last = "unknown"
    for kind, lim in plan:
        if kind == "c":
            r2 = W._cvc5(o, axs, lim)
            if r2 in ("unsat", "sat"):
                return r2, "cvc5 1.1.2", None
            continue
        opts = {"z": dict(mbqi=False), "a": dict(auto_config=False, mbqi=False), "m": {}}[kind]
        s, r = W._z3try(o, axs, lim, **opts)
        if r == z3.unsat:
            return "unsat", zn, None
        if kind == "m" and r == z3.sat:
            return "sat", zn, W._model(s)
    return last, "-", None


def _obl_worker(k):
    i, stage = k
    o, axs = _OB[i]
    with SEM:
        t = time.time()
        try:
            st, who, m = _attempt(o, axs, stage)
        except Exception as e:
            st, who, m = "error %s" % e, "-", None
        return i, st, who, m, time.time() - t


_OB = []


def _reach_worker(i):
    pc, axs = _RE[i]
    with SEM:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*axs)
        s.add(*pc)
        return str(s.check())


_RE = []


def _run_fn(spec_mod, workdir, idx, deadline, maxfail, conn, sel):
    """child process: verify function idx of the spec"""
    global _OB, _RE
    res = dict(name="%s[%d]" % (spec_mod, idx), error=None, obls=[], inlined=[], contracts=[], loops=[], reach=0, exec_s=0.0,
               paths_ret=0, paths_exc=0, errkind=None)
    try:
        with SEM:
            v = _SPECS[spec_mod].all()[idx]()
        res.update(name=v.name, error=v.error, exec_s=round(v.exec_s, 2), paths_ret=v.paths_ret, paths_exc=v.paths_exc,
                   inlined=sorted(v.inlined), contracts=sorted(v.contracts),
                   loops=[dict(where=str(l[0]), kept=list(map(str, l[2])), dropped=list(map(str, l[3]))) for l in v.loops])
        items = [(o, a) for o, a, _ in v.items if sel is None or sel(v.name, o.label)]
        out = [dict(label=o.label, kind=o.kind, status=None, solver=None, time=0.0, model=None, trace=None) for o, _ in items]
        _OB = items
        todo = []
        for i, (o, a) in enumerate(items):
            if z3.is_true(simp(o.goal)):
                out[i].update(status="unsat", solver="simplifier")
            else:
                todo.append(i)
        fails = 0
        for stage in (0, 1, 2):
            if not todo or time.time() > deadline:
                break
            nxt = []
            with CTX.Pool(min(8, len(todo))) as pool:
                it = pool.imap_unordered(_obl_worker, [(i, stage) for i in todo], chunksize=1)
                pend = set(todo)
                while pend:
                    try:
                        i, st, who, m, t = it.next(timeout=max(1.0, deadline - time.time()))
                    except (multiprocessing.TimeoutError, StopIteration):
                        break
                    pend.discard(i)
                    out[i]["time"] += t
                    out[i]["solver"] = who
                    if st == "unsat":
                        out[i]["status"] = "unsat"
                    elif st == "sat":
                        out[i].update(status="sat", model=m)
                        fails += 1
                    else:
                        out[i]["status"] = "unknown"
                        nxt.append(i)
                        if stage >= 1:
                            fails += 1
                    if stage >= 1 and fails >= maxfail:
                        break
                nxt += list(pend)
                pool.terminate()
            todo = nxt
            if fails >= maxfail or (stage == 1 and len(todo) > 3):
                break
        for i, (o, a) in enumerate(items):
            if out[i]["status"] != "unsat":
                out[i]["status"] = out[i]["status"] or "unknown"
                out[i]["trace"] = [str(x)[:200] for x in GOODTRACE(o.trace)]
                try:
                    out[i]["goal"] = str(o.goal)[:1500]
                except Exception:
                    pass
        res["obls"] = out
        if v.canary and not v.error and not todo:
            step = max(1, len(v.canary) // 8)
            _RE = v.canary[::step][:8]
            with CTX.Pool(min(8, len(_RE))) as pool:
                res["reach"] = sum(1 for r in pool.map(_reach_worker, range(len(_RE)), chunksize=1) if r != "unsat")
            if res["reach"] == 0:
                res["error"] = "vacuous: every returning path of %s is contradictory" % v.name
                res["errkind"] = "vacuous"
    except (W.Unsupported, W.ExtractError) as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        res["error"] = "internal: %s: %s" % (type(e).__name__, traceback.format_exc()[-900:])
    conn.send(res)
    conn.close()
    os._exit(0)


_SPECS = {}


def load_specs(mods, workdir):
    """extract the current sources once per spec module -> {mod: error or None}"""
    from concurrent.futures import ThreadPoolExecutor
    errs = {}
    for m in mods:
        try:
            sm = importlib.import_module("vc.specs." + m)
            w = W.World(sm.TUS, workdir + "/" + m, extra=getattr(sm, "FLAGS", ()))
            _SPECS[m] = sm.Spec(w)
            errs[m] = None
        except (W.ExtractError, W.Unsupported) as e:
            errs[m] = "%s: %s" % (type(e).__name__, e)
        except Exception as e:
            errs[m] = "internal: " + traceback.format_exc()[-900:]
    return errs


def prove(specs, workdir, deadline, maxfail=4):
    """specs: list of (module, function filter or None, label filter or None) -> (results, errors)"""
    global SEM
    SEM = CTX.Semaphore(8)
    errs = load_specs(sorted(set(s[0] for s in specs)), workdir)
    from . import stl
    jobs = []
    results = [dict(name=m, error=e, obls=[], inlined=[], contracts=[], loops=[], reach=0, exec_s=0, paths_ret=0, paths_exc=0, errkind=None)
               for m, e in errs.items() if e]
    for mod, ff, lf in specs:
        if errs[mod]:
            continue
        fs = _SPECS[mod].all()
        for i, f in enumerate(fs):
            nm = getattr(f, "__name__", "") + " " + str(getattr(f, "__defaults__", ""))
            if ff is not None and not ff(nm):
                continue
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=_run_fn, args=(mod, workdir, i, deadline, maxfail, b, lf))
            jobs.append((p, a, b, mod, nm))
    # at most 8 function processes at a time
    running, queue = [], list(jobs)
    while queue or running:
        while queue and len(running) < 8:
            j = queue.pop(0)
            j[0].start()
            j[2].close()
            running.append(j)
        ready = multiprocessing.connection.wait([j[1] for j in running], timeout=5)
        done = []
        for j in running:
            if j[1] in ready:
                try:
                    results.append(j[1].recv())
                except EOFError:
                    results.append(dict(name=j[3] + " " + j[4], error="internal: verification process ended", obls=[], inlined=[], contracts=[],
                                        loops=[], reach=0, exec_s=0, paths_ret=0, paths_exc=0, errkind=None))
                j[0].join(2)
                done.append(j)
            elif time.time() > deadline + 60:
                j[0].kill()
                results.append(dict(name=j[3] + " " + j[4], error="Unsupported: time limit", obls=[], inlined=[], contracts=[], loops=[],
                                    reach=0, exec_s=0, paths_ret=0, paths_exc=0, errkind=None))
                done.append(j)
        running = [j for j in running if j not in done]
    return results, dict(stl.TRUSTED)
