"""Runs the cases of a property: exploration, replay, evidence."""
import gc
import hashlib
import importlib
import inspect
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"
HARNESSES = ["mem", "addr", "buddy", "hexd", "axim", "axir", "axis_", "axisl", "axil", "apb", "stream", "reset", "e2e", "share", "bus", "args"]


# ------------------------------------------------------------ one path (sym)

class PathResult:
    __slots__ = ("status", "detail", "failures", "reached", "nchecks", "inputs", "trace", "obs")


def model_inputs(path, m):
    from .engine import SymInt
    out = {}
    for n, v in path.inputs.items():
        if isinstance(v, SymInt):
            out[n] = v.decode(m.eval(v.e, model_completion=True).as_long())
        else:
            out[n] = int(v)
    return out


def eval_val(m, v):
    from .engine import SymInt
    from .shims import SymBytes
    from .symstr import SymStr
    if isinstance(v, SymInt):
        return v.decode(m.eval(v.e, model_completion=True).as_long())
    if isinstance(v, SymBytes):
        return "b:" + bytes(eval_val(m, x) for x in v.tolist()).hex()
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if isinstance(v, SymStr):
        return "".join(chr(eval_val(m, c)) for c in v.ch)
    if isinstance(v, (list, tuple)):
        return [eval_val(m, x) for x in v]
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    return str(v)


def run_path(ex, case, cfg, prefix, want_trace):
    from . import engine as E, simk
    from .api import SymCtx
    path = E.Path(ex, prefix)
    E.CUR = path
    ex.deadline = time.process_time() + case.path_s
    cx = SymCtx(cfg, case.prop)
    trace = []
    if want_trace:
        sim = cx.sim
        orig = sim.apply

        def apply(sig, v):
            trace.append((sim.time, sig._name, v[0] if v[1] is None else v[1]))
            orig(sig, v)
        sim.apply = apply
    status, detail = "ok", ""
    signal.setitimer(signal.ITIMER_PROF, case.path_s * 1.5, case.path_s * 0.5)
    try:
        try:
            r = case.fn(cx, cfg)
            if inspect.iscoroutine(r):
                out = cx.sim.run(r, cfg.get("max_cycles", case.max_cycles))
                if path.pending is not None:
                    raise path.pending
                if out == "hang":
                    status, detail = "hang", f"no completion after {cx.sim.cycle} clock cycles"
                else:
                    e = cx.sim.outcome()
                    if e is not None:
                        raise e
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except E.Infeasible:
        status = "infeasible"
    except E.StopPath:
        status = "ok"
    except E.Divergence as e:
        status, detail = "engine", "divergence: " + str(e)
    except E.Incomplete as e:
        status, detail = "incomplete", str(e)
    except E.PathTimeout as e:
        status, detail = "timeout", str(e)
    except RecursionError as e:
        status, detail = "crash", "RecursionError"
    except Exception as e:
        if path.pending is not None:
            p = path.pending
            status = {"Infeasible": "infeasible", "StopPath": "ok", "PathTimeout": "timeout"}.get(type(p).__name__, "engine")
            detail = str(p)
        else:
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in reversed(tb)
                        if "/symx/" not in f.filename and "site-packages" not in f.filename), "?")
            status, detail = "crash", f"{type(e).__name__}: {e} at {loc}"
            if os.environ.get("SYMX_TB"):
                traceback.print_exception(e)
    path.pending = None
    res = PathResult()
    res.status, res.detail = status, detail
    res.failures = list(path.failures)
    res.reached, res.nchecks = path.reached, path.nchecks
    res.inputs = res.trace = res.obs = None
    m = None
    if status != "infeasible":
        try:
            bad = ex.flush_checks(path)
        except E.Incomplete as e:
            bad = []
            res.status, res.detail = "incomplete", str(e)
        path.pending = None
        if bad:
            m = bad[0][1]
            res.failures = [(n, "") for n, _ in bad] + res.failures
        need = res.failures or status in ("crash", "hang", "timeout") or want_trace
        if need and m is None and res.status != "engine":
            try:
                m = ex.have_model(path) if path.depth == len(ex.frames) else None
                if m is None and ex._check():
                    m = ex.last_model
            except E.Steer as e:
                if res.status == "ok":
                    res.status, res.detail = "incomplete", str(e)
                path.pending = None
        if m is not None:
            res.inputs = model_inputs(path, m)
            if want_trace and status == "ok" and not res.failures:
                res.trace = [(t, n, eval_val(m, v)) for t, n, v in trace]
                res.obs = [(n, eval_val(m, v)) for n, v in path.log]
    cx.sim = None
    E.CUR = None
    return path, res


def digest(trace, obs):
    h = hashlib.sha256()
    h.update(json.dumps([trace, obs], default=str).encode())
    return h.hexdigest()[:16]


# ------------------------------------------------------------------- workers

_SYM_READY = False


def modules_of(prop):
    """harness modules with cases for a property"""
    out = []
    for h in HARNESSES:
        f = os.path.join(VERIF, "harness", h + ".py")
        if os.path.exists(f):
            with open(f) as fh:
                if f'"{prop}"' in fh.read():
                    out.append(h)
    return out


def load_symbolic(modules=None):
    global _SYM_READY
    if _SYM_READY:
        return
    _SYM_READY = True
    from . import simk, loader
    simk.setup(True, SITE)
    loader.install()
    load_harnesses(modules)


def load_harnesses(modules=None):
    names = modules or [h for h in HARNESSES if os.path.exists(os.path.join(VERIF, "harness", h + ".py"))]
    for h in names:
        importlib.import_module("harness." + h)


def _alarm(sig, frame):
    """ask the path to stop at its next decision; then stop it wherever it is"""
    from . import engine as E
    if E.CUR is None:
        return
    ex = E.CUR.ex
    if ex.deadline is not None and ex.deadline > 0:
        ex.deadline = -1
        return
    ex.broken = True
    E.steer(E.PathTimeout("path time limit (alarm)"))


def work(job):
    """explore below some prefixes for a time slice"""
    from . import engine as E, loader
    from .api import CASES
    key, cfg, prefixes, slice_s, seed, sample_every, maxfail = job
    case = CASES[key]
    signal.signal(signal.SIGPROF, _alarm)
    gc.disable()
    t0 = time.time()
    ex = E.Explorer(seed=seed & 0xffff)
    rng = random.Random(repr((seed, key, cfg, len(prefixes), prefixes[0] if prefixes else None)))
    out = dict(paths=0, infeasible=0, failures=[], problems=[], reached={}, nchecks=0, samples=[], left=[],
               stats=ex.stats, maxdepth=0, aborted=False)
    statuses = {}
    n = 0
    prefixes = list(prefixes)
    prefix = prefixes.pop()
    while prefix is not None:
        want = rng.random() < sample_every or n == 0
        path, r = run_path(ex, case, cfg, prefix, want)
        n += 1
        if n % 25 == 0:
            gc.collect()
        statuses[r.status] = statuses.get(r.status, 0) + 1
        if r.status == "infeasible":
            out["infeasible"] += 1
        else:
            out["paths"] += 1
            out["nchecks"] += r.nchecks
            for k, v in r.reached.items():
                out["reached"][k] = out["reached"].get(k, 0) + v
        out["maxdepth"] = max(out["maxdepth"], len(path.decisions))
        if r.failures or r.status in ("crash", "hang", "timeout"):
            out["failures"].append(dict(status=r.status, detail=r.detail, checks=r.failures, inputs=r.inputs))
        elif r.status in ("engine", "incomplete"):
            out["problems"].append((r.status, r.detail, r.inputs))
        elif r.trace is not None and r.status == "ok":
            out["samples"].append(dict(inputs=r.inputs, digest=digest(r.trace, r.obs), trace=r.trace if len(out["samples"]) < 1 else None,
                                       obs=r.obs, reached=sorted(r.reached)))
        if len(out["failures"]) >= maxfail or len(out["problems"]) >= 3:
            out["aborted"] = True
            out["left"] = E.Explorer.split(path.decisions) + prefixes
            break
        if time.time() - t0 > slice_s:
            out["left"] = prefixes + E.Explorer.split(path.decisions)
            break
        prefix = E.Explorer.next_prefix(path.decisions)
        if ex.broken:
            # interrupted anywhere: the state of the solver is unknown
            st = ex.stats
            ex = E.Explorer(seed=seed & 0xffff)
            ex.stats = st
            if prefix is not None:
                continue
        if prefix is not None:
            ex.pop_to(prefix[-1][2])
            ex.model = None
        elif prefixes:
            prefix = prefixes.pop()
            ex.pop_to(0)
            ex.model = None
    gc.collect()
    out["statuses"] = statuses
    out["funcs"] = sorted(loader.FUNCS)
    out["wall"] = time.time() - t0
    return out


# -------------------------------------------------------------------- native

def replay_native(items, timeout=120):
    """replay on the unmodified code in a separate interpreter; items: list of
    dict(prop, case, cfg, inputs); returns list of result dicts"""
    out = []
    todo = list(enumerate(items))
    res = [None] * len(items)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    while todo:
        p = subprocess.Popen(["/opt/venv/bin/python", os.path.join(VERIF, "replay.py"), "--batch"],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        data = json.dumps([it for _, it in todo])
        try:
            so, _ = p.communicate(data, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
        lines = [l[1:] for l in (so or "").splitlines() if l.startswith("@")]
        done = 0
        for l in lines:
            r = json.loads(l)
            res[todo[done][0]] = r
            done += 1
        if done == 0 or (done < len(todo)):
            # the item after the last finished one died or hung
            if done < len(todo):
                res[todo[done][0]] = dict(status="dead", failures=[], detail="replay process died or did not terminate")
                done += 1
        todo = todo[done:]
    return res


# -------------------------------------------------------------------- parent

def load_known():
    """known findings: list of dicts (see known_findings.json)"""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_match(known, prop, case, cfg, res):
    """the listed finding which this (natively replayed) failure is, or None"""
    names = [f[0] for f in res["failures"]]
    for k in known:
        if k["property"] == prop and k["case"] == case and k.get("status", res["status"]) == res["status"] \
                and (k["check"] in names or (not names and k["check"] in res["detail"])):
            if all(cfg.get(a) == v for a, v in k.get("cfg", {}).items()):
                return k
    return None


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def run_property(prop, tier, seed, only=None, budget=None, jobs=None, verbose=False, slice_s=5.0, modules=None, cfg_filter=None):
    from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
    t0 = time.time()
    budget = budget or (780 if tier == "quick" else 6 * 3600)
    jobs = jobs or min(8, os.cpu_count() or 1)
    load_symbolic(modules or modules_of(prop))
    from .api import CASES
    known = load_known()
    cases = {k: c for k, c in CASES.items() if k[0] == prop and (only is None or c.name in only)}
    if not cases:
        print(f"ERROR: no cases for {prop}")
        return 2
    # work units: (key, cfg) -> list of prefixes
    units = []
    for k, c in sorted(cases.items()):
        for cfg in c.cfgs(tier):
            if cfg_filter and not all(str(cfg.get(a)) == b for a, b in cfg_filter):
                continue
            units.append(dict(key=k, cfg=cfg, queue=[[]], running=0, paths=0, infeasible=0, wall=0.0, reached={}, maxdepth=0,
                              statuses={}, nchecks=0))
    units.reverse()
    tot = dict(paths=0, infeasible=0, nchecks=0)
    stats = {}
    reached = {k: {} for k in cases}
    funcs = set()
    samples, problems, violations, findings, unrepro = [], [], [], {}, []
    quota = {}
    maxsamples = 48 if tier == "quick" else 160
    ctx = mp.get_context("fork")
    pool = ProcessPoolExecutor(jobs, mp_context=ctx)
    pending = {}
    stop = False
    timed_out = False
    sample_p = 0.02

    def submit(u):
        q = u["queue"]
        n = max(1, min(40, len(q) // (2 * jobs)))
        batch, u["queue"] = q[:n], q[n:]
        first = u["paths"] == 0 and u["running"] == 0
        s = 1.0 if first else slice_s
        f = pool.submit(work, (u["key"], u["cfg"], batch, s, seed, sample_p, 2))
        u["running"] += 1
        pending[f] = u

    def handle_failures(u, fails):
        nonlocal stop
        items = [dict(prop=prop, case=u["key"][1], cfg=u["cfg"], inputs=f["inputs"]) for f in fails if f["inputs"] is not None]
        fl = [f for f in fails if f["inputs"] is not None]
        for f in fails:
            if f["inputs"] is None:
                problems.append(("noinputs", f["detail"], None))
        if not items:
            return
        for f, it, r in zip(fl, items, replay_native(items)):
            if r["status"] not in ("ok", "invalid") or r["failures"]:
                k = known_match(known, prop, u["key"][1], u["cfg"], r) if r["status"] != "dead" else None
                if k is not None:
                    findings[k["id"]] = (k, it)
                    continue
                violations.append((it, f, r))
                stop = True
            else:
                unrepro.append((u["key"][1], u["cfg"], f, it))

    try:
        while not stop:
            # fill
            while len(pending) < jobs + 2:
                cand = [u for u in units if u["queue"]]
                if not cand:
                    break
                u = min(cand, key=lambda u: (u["paths"] > 0, u["running"], u["wall"]))
                submit(u)
            if not pending:
                break
            left_s = budget - (time.time() - t0)
            if left_s <= 0:
                timed_out = True
                break
            done, _ = wait(list(pending), timeout=min(left_s, 10), return_when=FIRST_COMPLETED)
            for f in done:
                u = pending.pop(f)
                u["running"] -= 1
                o = f.result()
                u["queue"] = o["left"] + u["queue"]
                for k in ("paths", "infeasible", "nchecks"):
                    tot[k] += o[k]
                    u[k] += o[k]
                u["wall"] += o["wall"]
                u["maxdepth"] = max(u["maxdepth"], o["maxdepth"])
                merge(u["statuses"], o["statuses"])
                merge(stats, o["stats"])
                merge(reached[u["key"]], o["reached"])
                merge(u["reached"], o["reached"])
                funcs.update(o["funcs"])
                for s in o["samples"]:
                    s["case"], s["cfg"] = u["key"][1], u["cfg"]
                    s["first"] = quota.get(id(u), 0) == 0
                    quota[id(u)] = quota.get(id(u), 0) + 1
                    samples.append(s)
                problems.extend((u["key"][1] + " " + json.dumps(u["cfg"]),) + tuple(p) for p in o["problems"])
                if o["failures"]:
                    handle_failures(u, o["failures"])
                if verbose and o["failures"]:
                    for x in o["failures"][:2]:
                        print("  fail", u["key"][1], u["cfg"], x["status"], x["detail"], x["checks"], x["inputs"], flush=True)
            if len(problems) > 20 or len(unrepro) > 10:
                break
    finally:
        procs = list(pool._processes.values()) if pool._processes else []
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            if stop or timed_out or pending:
                p.terminate()
    # validate samples against the real code
    validated = 0
    mismatches = []
    if not stop:
        rng = random.Random(seed)
        firsts = [s for s in samples if s["first"]]
        rest = [s for s in samples if not s["first"]]
        rng.shuffle(rest)
        rng.shuffle(firsts)
        chosen = (firsts[:maxsamples * 3 // 4] + rest)[:maxsamples]
        rs = replay_native([dict(prop=prop, case=s["case"], cfg=s["cfg"], inputs=s["inputs"]) for s in chosen])
        for s, r in zip(chosen, rs):
            if r["digest"] if r["status"] == "ok" else None:
                pass
            if r["status"] == "ok" and not r["failures"] and r["digest"] == s["digest"] and not r["missing"]:
                validated += 1
            else:
                mismatches.append((s, r))
    # vacuity
    missing = []
    if not stop and not timed_out and not problems:
        for k, c in cases.items():
            if cfg_filter:
                continue
            for name in c.must:
                if not reached[k].get(name):
                    missing.append(f"{c.name}: {name}")
            if not any(not n.startswith("cover:") for n in reached[k]):
                missing.append(f"{c.name}: no check reached")
    wall = time.time() - t0
    prefix_fns = "cocotbext.axi."
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=stats.get("decisions", 0), traces_validated_against_impl=validated,
            samples=[dict(case=s["case"], cfg=s["cfg"], inputs=s["inputs"], observed=s["obs"],
                          signal_activity=[list(x) for x in (s["trace"] or []) if x[1] != "clk"][:60]) for s in samples if s["trace"] is not None][:3],
            unit="states = feasible execution paths of the real code, each covering every input value which satisfies its path condition; "
                 "transitions = decisions at which the solver was asked which outcomes are feasible",
            exhaustive=not (timed_out or problems or stop or unrepro),
            infeasible_paths=tot["infeasible"], assertions=tot["nchecks"], obligations=stats.get("obligations", 0),
            solver_queries=stats.get("queries", 0), solver_sat=stats.get("sat", 0), solver_unsat=stats.get("unsat", 0),
            solver_unknown=stats.get("unknown", 0), solver_s=round(stats.get("solver_s", 0), 2),
            functions_encoded=[f[len(prefix_fns):] if f.startswith(prefix_fns) else f for f in sorted(funcs)],
            cases=[dict(case=u["key"][1], bounds=u["cfg"], paths=u["paths"], assertions=u["nchecks"], max_decisions=u["maxdepth"],
                        cpu_s=round(u["wall"], 1)) for u in sorted(units, key=lambda u: str(u["key"]))],
            notes={c.name: c.note for c in cases.values() if c.note},
            reached={k[1]: v for k, v in reached.items()},
            known_findings=[k for k in findings],
        ),
        assumptions=ASSUMPTIONS, wall_s=round(wall, 1), violations=len(violations))
    if not (only or cfg_filter):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if verbose:
        for u in sorted(units, key=lambda u: -u["wall"]):
            print(f"  {u['key'][1]:20s} {json.dumps(u['cfg'])} paths={u['paths']} inf={u['infeasible']} checks={u['nchecks']} depth={u['maxdepth']} "
                  f"cpu={u['wall']:.1f} {u['statuses']} left={len(u['queue'])}")
        for k, v in reached.items():
            print("  reached", k[1], v)
        print("  stats", {k: round(v, 1) for k, v in stats.items()})
    print(f"{prop} [{tier}] paths={tot['paths']} assertions={tot['nchecks']} queries={stats.get('queries', 0)} "
          f"solver={stats.get('solver_s', 0):.1f}s validated={validated} functions={len(funcs)} wall={wall:.1f}s")
    for kid, (k, it) in sorted(findings.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        for it, f, r in violations[:3]:
            h = hashlib.sha256(json.dumps(it, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "out", f"{prop}-{it['case']}-{h}.json")
            it["expected"] = dict(status=r["status"], detail=r["detail"], failures=r["failures"])
            with open(path, "w") as fo:
                json.dump(it, fo, indent=1)
            print(f"  {it['case']} {json.dumps(it['cfg'])}: {r['status']} {r['detail']} {r['failures']}")
            print(f"  inputs: {json.dumps(it['inputs'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    rc = 0
    if timed_out:
        print(f"ERROR: exploration not finished within {budget} s")
        rc = 2
    for p in problems[:5]:
        print("ERROR: engine problem", p)
        rc = 2
    for u in unrepro[:3]:
        print("ERROR: counterexample does not reproduce on the real code:", u[0], json.dumps(u[1]), u[2]["status"], u[2]["detail"], u[2]["checks"],
              json.dumps(u[3]["inputs"])[:1000])
        rc = 2
    for s, r in mismatches[:3]:
        print("ERROR: path model and real code disagree:", s["case"], json.dumps(s["cfg"]), json.dumps(s["inputs"])[:1000], r["status"], r["detail"],
              r["failures"], r["missing"] if "missing" in r else "")
        rc = 2
    if mismatches:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        s, r = mismatches[0]
        with open(os.path.join(VERIF, "out", "mismatch.json"), "w") as fo:
            json.dump(dict(prop=prop, case=s["case"], cfg=s["cfg"], inputs=s["inputs"], trace=s["trace"], obs=s["obs"]), fo, indent=1)
    for m in missing:
        print("ERROR: never reached:", m)
        rc = 2
    return rc


ASSUMPTIONS = [
    "the HDL simulator (GPI) is replaced by an event simulator written for this framework: inertial writes applied in the read-write phase, "
    "edges delivered per the cocotb 1.9 scheduling model; cocotb's own scheduler, triggers, queues and cocotb_bus run for real",
    "logging calls are stubs; numbers on the signals are two-valued except where a case drives x",
    "CPython evaluates the instrumented source; the rewriting of not/and/or/conditional expressions/literals preserves meaning (sampled paths are "
    "replayed on the untouched code and their signal activity compared)",
    "z3 QF_BV is trusted; results hold within the stated bounds of each case only",
]
