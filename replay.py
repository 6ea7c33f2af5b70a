#!/opt/venv/bin/python
"""Replays recorded inputs against the unmodified code (no symbolic machinery).

  replay.py FILE.json     replay one counterexample, print what happens; exit 1 if it fails
  replay.py --batch       JSON list on stdin, one result line per item on stdout
"""
import sys
import os
import json
import inspect
import signal
import traceback
import hashlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import simk, native, runner, api      # noqa: E402  (engine is imported lazily only)


def setup():
    simk.setup(False)
    native.install()
    sys.path.insert(0, runner.VERIF)


class ReplayTimeout(BaseException):
    pass


def plain(v):
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (bool, int)):
        return int(v)
    return str(v)


def run(item, limit=20, verbose=False):
    case = api.CASES[(item["prop"], item["case"])]
    cx = api.NatCtx(item["cfg"], item["prop"], item["inputs"])
    trace = []
    sim = cx.sim
    orig = sim.apply

    def apply(sig, v):
        trace.append((sim.time, sig._name, v[0] if v[1] is None else v[1]))
        orig(sig, v)
    sim.apply = apply
    status, detail = "ok", ""

    def alarm(*_):
        raise ReplayTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = case.fn(cx, item["cfg"])
        if inspect.iscoroutine(r):
            o = sim.run(r, item["cfg"].get("max_cycles", case.max_cycles))
            if o == "hang":
                status, detail = "hang", f"no completion after {sim.cycle} clock cycles"
            elif sim.outcome() is not None:
                raise sim.outcome()
    except ReplayTimeout:
        status, detail = "timeout", "does not terminate"
    except api.CheckFailed:
        pass
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        status, detail = "crash", f"{type(e).__name__}: {e}"
        if verbose:
            traceback.print_exception(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if cx.invalid:
        status, detail = "invalid", "the inputs violate an assumption"
    obs = [(n, plain(v)) for n, v in cx.log]
    return dict(status=status, detail=detail, failures=cx.failures, digest=runner.digest(trace, obs),
                reached=sorted(cx.reached), trace=trace if item.get("want_trace") or verbose else None,
                obs=obs if item.get("want_trace") or verbose else None, missing=cx.missing)


def main():
    setup()
    if sys.argv[1] == "--batch":
        items = json.load(sys.stdin)
        runner.load_harnesses(sorted({m for it in items for m in runner.modules_of(it["prop"])}))
        for it in items:
            r = run(it)
            print("@" + json.dumps(r), flush=True)
        return 0
    with open(sys.argv[1]) as f:
        item = json.load(f)
    runner.load_harnesses(runner.modules_of(item["prop"]))
    r = run(item, verbose=True)
    print("property", item["prop"], "case", item["case"], "config", json.dumps(item["cfg"]))
    print("inputs:")
    for k, v in item["inputs"].items():
        print("  ", k, "=", hex(v) if isinstance(v, int) else v)
    if r["trace"]:
        print("signal activity:")
        for t, n, v in r["trace"]:
            if n != "clk":
                print(f"   t={t:6d} {n} <- {hex(v) if isinstance(v, int) else v}")
    print("result:", r["status"], r["detail"], r["failures"])
    return 1 if r["failures"] or r["status"] != "ok" else 0


if __name__ == "__main__":
    sys.exit(main())
