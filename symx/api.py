"""What harnesses see: the context object, in a symbolic and a native variant."""
import types

CASES = {}      # (prop, name) -> Case


def plain(x):
    """native copies of containers written in a (transformed) harness"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, range)) or type(x).__name__ == "SymRange":
        return [plain(v) for v in x]
    if type(x).__name__.startswith("Sx") or type(x).__name__.startswith("Sym"):
        raise TypeError(f"configuration value {x!r}")
    return x


class Case:
    def __init__(self, prop, name, fn, quick, thorough=None, max_cycles=400, path_s=40, note="", must=()):
        self.prop, self.name, self.fn = prop, name, fn
        quick = plain(quick)
        thorough = plain(thorough)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.max_cycles = max_cycles
        self.path_s = path_s
        self.note = note
        self.must = must

    def cfgs(self, tier):
        return self.thorough if tier == "thorough" else self.quick


def case(prop, name=None, quick=({},), thorough=None, **kw):
    """register a harness; it may serve several properties"""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            c = Case(p, name or fn.__name__, fn, list(quick), None if thorough is None else list(thorough), **kw)
            CASES[(p, c.name)] = c
        return fn
    return deco


class InvalidInput(Exception):
    """a replayed input is outside the assumptions of the case"""


class CheckFailed(Exception):
    """a property assertion failed (native replay or concretely on a path)"""


class CtxBase:
    def sig(self, name, width, init=None):
        return self.sim.top.add(name, width, init)

    def clock(self, name="clk"):
        s = self.sim.top.add(name, 1, 0)
        self.sim.clock(s)
        return s

    @property
    def top(self):
        return self.sim.top

    @property
    def cycle(self):
        return self.sim.cycle

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def flag(self, name):
        return self.choice(name, (False, True))


class SymCtx(CtxBase):
    native = False

    def __init__(self, cfg, prop):
        from . import engine as E, simk
        self.E = E
        self.cfg = cfg
        self.prop = prop
        self.sim = simk.Sim()
        self.trace = []

    def int(self, name, lo, hi):
        p = self.E.CUR
        n = p.uniq(name)
        v = self.E.fresh("i:" + n, lo, hi)
        p.inputs[n] = v
        return v

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def addr(self, name, width, k):
        """width bits of which the low k are enumerated"""
        low = self.choice(name + ".low", range(1 << k)) if k else 0
        if k >= width:
            return low
        hi = self.bits(name + ".hi", width - k)
        if k == 0:
            return hi
        E = self.E
        return (hi << k) | low

    def bytes(self, name, n):
        from .shims import SymBytes
        return SymBytes([self.int(f"{name}[{i}]", 0, 255) for i in range(n)])

    def choice(self, name, options):
        p = self.E.CUR
        options = list(options)
        n = p.uniq(name)
        k = p.ex.choice(len(options))
        p.inputs[n] = k
        return options[k]

    def assume(self, c):
        t = self.E.truth(c)
        if isinstance(t, self.E.SymBool):
            self.E.CUR.ex.assume(t.b)
        elif not t:
            self.E.steer(self.E.Infeasible("assumption"))

    def check(self, c, name, detail=""):
        p = self.E.CUR
        p.reached[name] = p.reached.get(name, 0) + 1
        p.nchecks += 1
        t = self.E.truth(c)
        if isinstance(t, self.E.SymBool):
            p.checks.append((name, t.b))
        elif not t:
            p.failures.append((name, str(detail)))
            self.E.steer(self.E.StopPath("check failed"))

    def fail(self, name, detail=""):
        self.check(False, name, detail)

    def cover(self, name):
        p = self.E.CUR
        p.reached["cover:" + name] = p.reached.get("cover:" + name, 0) + 1

    def obs(self, name, v):
        self.E.CUR.log.append((name, v))

    def stop(self):
        self.E.steer(self.E.StopPath("stop"))

    def and_(self, *a):
        return self.E.and_(*a)

    def or_(self, *a):
        return self.E.or_(*a)

    def not_(self, a):
        return self.E.not_(a)

    def ite(self, c, a, b):
        return self.E.ite(c, a, b)

    def conc(self, v):
        """concretise (forks over all values)"""
        if isinstance(v, self.E.SymInt):
            return v.__index__()
        return v

    def val(self, x):
        """integer of a signal value object or int"""
        f = getattr(x, "_sx_int", None)
        return f() if f is not None else x

    def resolvable(self, x):
        return x.is_resolvable

    def capture_print(self, fn):
        from .shims import PRINT_HOOK
        from .symstr import cat
        out = []
        PRINT_HOOK[0] = out.append
        try:
            fn()
        finally:
            PRINT_HOOK[0] = None
        return cat(out) if out else ""


class NatCtx(CtxBase):
    native = True

    def __init__(self, cfg, prop, inputs):
        from . import simk
        self.cfg, self.prop, self.inputs = cfg, prop, inputs
        self.sim = simk.Sim()
        self.names = {}
        self.failures = []
        self.reached = {}
        self.log = []
        self.missing = []
        self.invalid = False

    def uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def int(self, name, lo, hi):
        if lo == hi:
            self.uniq(name)
            return lo
        n = self.uniq(name)
        if n not in self.inputs:
            self.missing.append(n)
            return lo
        return self.inputs[n]

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def addr(self, name, width, k):
        low = self.choice(name + ".low", range(1 << k)) if k else 0
        if k >= width:
            return low
        return (self.bits(name + ".hi", width - k) << k) | low

    def bytes(self, name, n):
        return bytes(self.int(f"{name}[{i}]", 0, 255) for i in range(n))

    def choice(self, name, options):
        options = list(options)
        n = self.uniq(name)
        return options[self.inputs.get(n, 0)]

    def assume(self, c):
        if not c:
            if not self.failures:
                self.invalid = True
            raise InvalidInput("replayed input violates an assumption")

    def check(self, c, name, detail=""):
        self.reached[name] = self.reached.get(name, 0) + 1
        if not c:
            self.failures.append((name, str(detail)))
            raise CheckFailed(name)

    def fail(self, name, detail=""):
        self.check(False, name, detail)

    def cover(self, name):
        self.reached["cover:" + name] = self.reached.get("cover:" + name, 0) + 1

    def obs(self, name, v):
        self.log.append((name, v))

    def stop(self):
        raise CheckFailed("stop")

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def conc(self, v):
        return v

    def val(self, x):
        return int(x)

    def resolvable(self, x):
        return x.is_resolvable

    def capture_print(self, fn):
        import io
        import contextlib
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            fn()
        return f.getvalue()
