"""Symbolic values and path exploration.

The code under test is ordinary Python.  It is executed by CPython itself, on
proxy integers whose values are z3 bit-vector terms.  Whenever CPython asks for
the truth of a proxy (``__bool__``) the engine asks the solver which outcomes
are feasible under the current path condition and forks; a path is re-executed
from the start with a recorded decision prefix.  Exploration is exhaustive
over the decisions, each property assertion is discharged by the solver for all
values on the path.
"""
import enum
import time
import z3
from z3 import z3core as zc

_main = z3.main_ctx()
_CREF = _main.ref()


class Steer(BaseException):
    """Base for exceptions which steer the exploration (never caught by code under test)."""


class Infeasible(Steer):
    """An assumption cannot be met on this path."""


class StopPath(Steer):
    """The harness has nothing more to do on this path."""


class Incomplete(Steer):
    """The engine cannot continue faithfully (cap, unknown, unsupported)."""


class PathTimeout(Steer):
    """The wall clock limit for a path has passed."""


class Divergence(Steer):
    """Re-execution took a different course than recorded: engine error."""


# ---------------------------------------------------------------- z3 helpers

_vals = {}


def bvval(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    r = _vals.get(k)
    if r is None:
        r = z3.BitVecVal(v, w)
        if len(_vals) < 200000:
            _vals[k] = r
    return r


def _bv(a):
    return z3.BitVecRef(a, _main)


def _bo(a):
    return z3.BoolRef(a, _main)


def _bin(fn, a, b):
    return _bv(fn(_CREF, a.as_ast(), b.as_ast()))


def _cmp(fn, a, b):
    return _bo(fn(_CREF, a.as_ast(), b.as_ast()))


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def rep_width(lo, hi):
    """width of the representation of the interval: unsigned if lo >= 0, else two's complement"""
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


# ---------------------------------------------------------------- the path

class Path:
    """State of the path under execution (a global: CUR)."""

    def __init__(self, ex, prefix, model=None):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []     # list of [value, alternatives list or None]
        self.depth = 0          # number of solver frames consumed so far
        self.known = {}         # ast id -> (ast, bool)
        self.names = {}         # name -> count
        self.inputs = {}        # unique name -> (kind, SymInt/int/...)
        self.checks = []        # pending (name, BoolRef)
        self.failures = []      # (name, detail)
        self.reached = {}       # check/cover name -> count
        self.notes = []
        self.nchecks = 0
        self.pending = None     # pending Steer exception
        self.log = []
        self.atoms = {}         # (ast id, signed) -> number of an atom of linear forms
        self.atomv = []         # number -> SymInt
        self.divs = {}          # number of a quotient x // d -> (x, d)

    # -- naming
    def uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"


CUR = None


def cur():
    return CUR


def steer(exc):
    """raise a steering exception; remember it in case something swallows it"""
    if CUR is not None and CUR.pending is None:
        CUR.pending = exc
    raise exc


INCREMENTAL_MS = 40         # time limit of a query in the incremental solver


class Explorer:
    """Depth first exploration by re-execution, one incremental solver."""

    def __init__(self, conc_cap=512, solver_timeout_ms=60000, seed=1):
        self.seed = seed
        self.extra = None       # constraints pushed for a moment (or None)
        self.solver = self._new_solver()
        self.conc_cap = conc_cap
        self.timeout_ms = solver_timeout_ms
        self.frames = []        # constraints pushed, in order
        self.model = None       # a model of the constraints pushed (or None)
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, decisions=0,
                          paths=0, interval_decided=0, lemmas=0, obligations=0, model_hits=0, retries=0)
        self.deadline = None
        self.broken = False

    # -- solver plumbing
    def _new_solver(self):
        s = z3.SolverFor("QF_BV")
        s.set("timeout", INCREMENTAL_MS)
        try:
            s.set("random_seed", self.seed)
        except z3.Z3Exception:
            pass
        return s

    def _rebuild(self):
        """a new incremental solver: answers after an interrupted check have been seen to be wrong"""
        self.solver = self._new_solver()
        for c in self.frames:
            self.solver.push()
            self.solver.add(c)
        if self.extra is not None:
            self.solver.push()
            self.solver.add(*self.extra)

    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            # preprocessing, which the incremental solver lacks, is a great help for some queries
            self.stats["retries"] += 1
            self._rebuild()
            return self._check_fresh(list(assumptions) + (self.extra or []))
        self.stats["queries"] += 1
        if r == z3.sat:
            self.stats["sat"] += 1
            self.last_model = self.solver.model()
            return True
        if r == z3.unsat:
            self.stats["unsat"] += 1
            return False

    def _check_fresh(self, goals, background=None):
        """a query in a solver of its own (preprocessing, no incremental state)"""
        t = time.time()
        s = z3.SolverFor("QF_BV")
        s.set("timeout", self.timeout_ms)
        for c in self.frames if background is None else background:
            s.add(c)
        s.add(*goals)
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == z3.sat:
            self.stats["sat"] += 1
            self.last_model = s.model()
            return True
        if r == z3.unsat:
            self.stats["unsat"] += 1
            return False
        self.stats["unknown"] += 1
        steer(Incomplete("solver returned unknown: " + s.reason_unknown()))

    def push(self, c, path):
        """append constraint c as the next frame of the path condition"""
        if path.depth < len(self.frames):
            if not self.frames[path.depth].eq(c):
                steer(Divergence(f"frame {path.depth}: {self.frames[path.depth]} vs {c}"))
            path.depth += 1
            return
        self.solver.push()
        self.solver.add(c)
        self.frames.append(c)
        path.depth += 1
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def pop_to(self, n):
        k = len(self.frames) - n
        if k > 0:
            self.solver.pop(k)
            del self.frames[n:]

    def have_model(self, path):
        if path.depth != len(self.frames):
            steer(Divergence("decision inside the shared prefix"))
        if self.model is None:
            if not self._check():
                steer(Infeasible("path condition unsatisfiable"))
            self.model = self.last_model
        return self.model

    def feasible(self, c, path):
        """is c satisfiable together with the path condition"""
        m = self.have_model(path)
        if z3.is_true(m.eval(c, model_completion=True)):
            self.stats["model_hits"] += 1
            return True
        if self._check(c):
            self.alt_model = self.last_model
            return True
        return False

    # -- decisions
    # a decision is [value, remaining alternatives, frame depth before it, implied]
    def decide_bool(self, c):
        path = CUR
        if path.pending is not None:
            raise path.pending
        k = c.get_id()
        hit = path.known.get(k)
        if hit is not None:
            return hit[1]
        i = len(path.decisions)
        if i < len(path.prefix):
            d = path.prefix[i]
            v = d[0]
            if not isinstance(v, bool):
                steer(Divergence(f"decision {i}: bool expected, have {v!r}"))
            path.decisions.append(d)
            if d[3]:
                self._known(c, v, path)
            else:
                d[2] = path.depth
                self._take(c, v, path)
            return v
        if self.deadline is not None and time.process_time() > self.deadline:
            steer(PathTimeout("path time limit"))
        s = z3.simplify(c)
        if z3.is_true(s) or z3.is_false(s):
            v = z3.is_true(s)
            self._known(c, v, path)
            path.decisions.append([v, [], path.depth, True])
            return v
        self.stats["decisions"] += 1
        nc = z3.Not(c)
        m = self.have_model(path)
        first = z3.is_true(m.eval(c, model_completion=True))
        if self._check(nc if first else c):
            path.decisions.append([first, [not first], path.depth, False])
            self._take(c, first, path)
        else:
            self._known(c, first, path)
            path.decisions.append([first, [], path.depth, True])
        return first

    def _known(self, c, v, path):
        nc = z3.Not(c)
        path.known[c.get_id()] = (c, v)
        path.known[nc.get_id()] = (nc, not v)
        return nc

    def _take(self, c, v, path):
        nc = self._known(c, v, path)
        self.push(c if v else nc, path)

    def decide_value(self, x):
        """concretise a SymInt: fork over every feasible value"""
        path = CUR
        if path.pending is not None:
            raise path.pending
        k = ("v", x.e.get_id())
        hit = path.known.get(k)
        if hit is not None:
            return hit[1]
        i = len(path.decisions)
        if i < len(path.prefix):
            d = path.prefix[i]
            v = d[0]
            if isinstance(v, bool) or not isinstance(v, int):
                steer(Divergence(f"decision {i}: value expected, have {v!r}"))
            path.decisions.append(d)
            if d[3]:
                path.known[k] = (x, v)
            else:
                d[2] = path.depth
                self._take_value(x, v, path)
            return v
        if self.deadline is not None and time.process_time() > self.deadline:
            steer(PathTimeout("path time limit"))
        s = z3.simplify(x.e)
        if z3.is_bv_value(s):
            v = x.decode(s.as_long())
            path.known[k] = (x, v)
            path.decisions.append([v, [], path.depth, True])
            return v
        self.stats["decisions"] += 1
        m = self.have_model(path)
        first = x.decode(m.eval(x.e, model_completion=True).as_long())
        vals = []
        self.solver.push()
        self.extra = []

        def add(c):
            self.extra.append(c)
            self.solver.add(c)
        try:
            add(x.e != bvval(first, x.e.size()))
            while self._check():
                v = x.decode(self.last_model.eval(x.e, model_completion=True).as_long())
                vals.append(v)
                if len(vals) >= self.conc_cap:
                    steer(Incomplete(f"more than {self.conc_cap} values for a concretised term"))
                add(x.e != bvval(v, x.e.size()))
        finally:
            self.extra = None
            self.solver.pop()
        vals.sort()
        if vals:
            path.decisions.append([first, vals, path.depth, False])
            self._take_value(x, first, path)
        else:
            path.known[k] = (x, first)
            path.decisions.append([first, [], path.depth, True])
        return first

    def _take_value(self, x, v, path):
        path.known[("v", x.e.get_id())] = (x, v)
        self.push(x.e == bvval(v, x.e.size()), path)

    def choice(self, n):
        """a decision with n alternatives and no constraint"""
        path = CUR
        if path.pending is not None:
            raise path.pending
        if n <= 1:
            return 0
        i = len(path.decisions)
        if i < len(path.prefix):
            d = path.prefix[i]
            d[2] = path.depth
            path.decisions.append(d)
            self.push(TRUE, path)
            return int(d[0])
        if self.deadline is not None and time.process_time() > self.deadline:
            steer(PathTimeout("path time limit"))
        self.stats["decisions"] += 1
        path.decisions.append([0, list(range(1, n)), path.depth, False])
        self.push(TRUE, path)
        return 0

    @staticmethod
    def next_prefix(decisions):
        """the next prefix in depth first order, or None"""
        for i in range(len(decisions) - 1, -1, -1):
            v, alts, depth, implied = decisions[i]
            if alts:
                return [list(d) for d in decisions[:i]] + [[alts[0], alts[1:], depth, False]]
        return None

    @staticmethod
    def split(decisions):
        """all unexplored prefixes below the path with these decisions"""
        out = []
        for i, (v, alts, depth, implied) in enumerate(decisions):
            for a in alts:
                out.append([[d[0], [], 0, d[3]] for d in decisions[:i]] + [[a, [], 0, False]])
        return out

    def assume(self, c):
        path = CUR
        if path.pending is not None:
            raise path.pending
        if path.depth < len(self.frames):
            self.push(c, path)
            path.known[c.get_id()] = (c, True)
            return
        if self.replaying(path):
            self.push(c, path)
            path.known[c.get_id()] = (c, True)
            return
        s = z3.simplify(c)
        if z3.is_true(s):
            self.push(c, path)
            return
        if z3.is_false(s) or not self.feasible(c, path):
            steer(Infeasible("assumption"))
        self.push(c, path)
        path.known[c.get_id()] = (c, True)

    def replaying(self, path):
        return len(path.decisions) < len(path.prefix)

    def flush_checks(self, path):
        """discharge the collected assertions; returns list of (name, model)"""
        todo = [(n, c) for n, c in path.checks]
        path.checks = []
        bad = []
        if not todo:
            return bad
        simp = []
        for n, c in todo:
            self.stats["obligations"] += 1
            hit = path.known.get(c.get_id())
            if hit is not None and hit[1] is True:
                continue
            s = z3.simplify(c)
            if z3.is_true(s):
                continue
            simp.append((n, c))
        if not simp:
            return bad
        neg = z3.Or([z3.Not(c) for _, c in simp]) if len(simp) > 1 else z3.Not(simp[0][1])
        if self._check_fresh([neg]):
            m = self.last_model
            for n, c in simp:
                if not z3.is_true(m.eval(c, model_completion=True)):
                    bad.append((n, m))
        return bad


# ---------------------------------------------------------------- SymInt

def _iv(x):
    return (x, x)


def is_sym(x):
    return isinstance(x, SymInt)


def mk(e, lo, hi):
    """wrap term e (already in the representation of [lo, hi])"""
    if lo == hi:
        return lo
    return SymInt(e, lo, hi)


def fit(x, w):
    """bits of x (SymInt or int) as a term of width w (sign/zero extended or truncated)"""
    if isinstance(x, SymInt):
        if type(x) is SymBool:
            x = x.as_int()
            if not isinstance(x, SymInt):
                return bvval(int(x), w)
        e = x.e
        s = e.size()
        if s == w:
            return e
        if s < w:
            if x.lo >= 0:
                return _bv(zc.Z3_mk_zero_ext(_CREF, w - s, e.as_ast()))
            return _bv(zc.Z3_mk_sign_ext(_CREF, w - s, e.as_ast()))
        return _bv(zc.Z3_mk_extract(_CREF, w - 1, 0, e.as_ast()))
    return bvval(int(x), w)


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    x = int(x)
    return x, x


def _num(x):
    """accepts ints, bools, IntEnums and symbolic ints; None otherwise"""
    return isinstance(x, (int, SymInt)) 


MAXW = 8192


class SymInt:
    __slots__ = ("e", "lo", "hi", "lin")

    def __init__(self, e, lo, hi, lin=None):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.lin = lin      # (constant, {atom: coefficient}), the same value; None: an atom, or too long

    def decode(self, v):
        """python value of the raw bit pattern v"""
        w = self.e.size()
        if self.lo < 0 and v >> (w - 1):
            return v - (1 << w)
        return v

    # -- conversions
    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            CUR.ex.stats["interval_decided"] += 1
            return True
        return CUR.ex.decide_bool(self.nonzero())

    def nonzero(self):
        return z3.Not(_cmp(zc.Z3_mk_eq, self.e, bvval(0, self.e.size())))

    def as_int(self):
        return self

    def __index__(self):
        return CUR.ex.decide_value(self)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return f"<sym {self.lo}..{self.hi}>"

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- int API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def bit_count(self):
        x = abs(self)
        r = 0
        for k in range(bounds(x)[1].bit_length()):
            r = r + ((x >> k) & 1)
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .shims import SymBytes
        length = int(length)
        lim = 1 << (8 * length)
        if signed:
            ok = and_(self >= -(lim >> 1), self < (lim >> 1)) if length else (self == 0)
            if not ok:
                raise OverflowError("int too big to convert")
        else:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if self >= lim:
                raise OverflowError("int too big to convert")
        e = fit(self, max(8 * length, 1))
        out = []
        for k in range(length):
            out.append(mk(_bv(zc.Z3_mk_extract(_CREF, 8 * k + 7, 8 * k, e.as_ast())), 0, 255))
        if byteorder == "big":
            out.reverse()
        elif byteorder != "little":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return SymBytes(out)

    # -- arithmetic
    def __add__(self, o):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        if ol == oh == 0:
            return self
        return _sum(self, o, 1, self.lo + ol, self.hi + oh)

    __radd__ = __add__

    def __sub__(self, o):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        if ol == oh == 0:
            return self
        return _sum(self, o, -1, self.lo - oh, self.hi - ol)

    def __rsub__(self, o):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        return _sum(o, self, -1, ol - self.hi, oh - self.lo)

    def __mul__(self, o):
        if not _num(o):
            if isinstance(o, (list, tuple, str, bytes, bytearray)):
                return o * self.__index__()
            return NotImplemented
        ol, oh = bounds(o)
        c = (self.lo * ol, self.lo * oh, self.hi * ol, self.hi * oh)
        lo, hi = min(c), max(c)
        if ol == oh:
            if ol == 1:
                return self
            if ol > 0 and ol & (ol - 1) == 0:
                return self.__lshift__(ol.bit_length() - 1)
            if ol == 0:
                return 0
            return _scale(self, ol, lo, hi, lambda w: _bin(zc.Z3_mk_bvmul, fit(self, w), bvval(ol, w)))
        w = rep_width(lo, hi)
        return mk(_bin(zc.Z3_mk_bvmul, fit(self, w), fit(o, w)), lo, hi)

    __rmul__ = __mul__

    def __neg__(self):
        return self.__rsub__(0)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return clamp(ite(self < 0, -self, self), 0, max(-self.lo, self.hi))

    def __invert__(self):
        return (-1) - self

    def _divmod_const(self, d, split=True):
        """floor division and modulo by a non zero constant"""
        if d < 0:
            q, r = (-self)._divmod_const(-d) if isinstance(-self, SymInt) else divmod(-self, -d)
            return q, -r
        if d == 1:
            return self, 0
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            return self >> k, self & (d - 1)
        r = _split(self, d) if split else None
        if r is not None:
            return r
        if self.lo >= 0:
            w = max(self.e.size(), d.bit_length())
            a = fit(self, w)
            b = bvval(d, w)
            q = _bin(zc.Z3_mk_bvudiv, a, b)
            r = _bin(zc.Z3_mk_bvurem, a, b)
            ql, qh = self.lo // d, self.hi // d
            if ql == qh:
                rl, rh = self.lo - ql * d, self.hi - ql * d
            else:
                rl, rh = 0, min(d - 1, self.hi)
            return _quotient(refit(q, ql, qh), self, d), refit(r, rl, rh)
        # shift into the non-negative range by a multiple of d
        m = -(self.lo // d)
        x = self + m * d
        q, r = x._divmod_const(d, False) if isinstance(x, SymInt) else divmod(x, d)
        return q - m, r

    def __floordiv__(self, o):
        if not _num(o):
            return NotImplemented
        o = o.__index__() if isinstance(o, SymInt) else int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self._divmod_const(o)[0]

    def __mod__(self, o):
        if not _num(o):
            return NotImplemented
        o = o.__index__() if isinstance(o, SymInt) else int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self._divmod_const(o)[1]

    def __divmod__(self, o):
        if not _num(o):
            return NotImplemented
        o = o.__index__() if isinstance(o, SymInt) else int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self._divmod_const(o)

    def __rfloordiv__(self, o):
        if not _num(o):
            return NotImplemented
        return o // self.__index__()

    def __rmod__(self, o):
        if not _num(o):
            return NotImplemented
        return o % self.__index__()

    def __rdivmod__(self, o):
        if not _num(o):
            return NotImplemented
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        return self.__index__() / (o.__index__() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o, mod=None):
        if not _num(o):
            return NotImplemented
        o = o.__index__() if isinstance(o, SymInt) else int(o)
        if mod is not None:
            return pow(self.__index__(), o, mod)
        if o < 0:
            return pow(self.__index__(), o)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        if not _num(o):
            return NotImplemented
        return int(o) ** self.__index__()

    # -- shifts
    def __lshift__(self, o):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        if ol != oh:
            if ol < 0 or oh > 320 or rep_width(min(self.lo << oh, self.lo), max(self.hi << oh, self.hi)) > 320:
                o = o.__index__()
                ol = oh = o
            else:
                lo, hi = min(self.lo << oh, self.lo << ol), max(self.hi << oh, self.hi << ol)
                w = max(rep_width(lo, hi), rep_width(ol, oh))
                return refit(_bin(zc.Z3_mk_bvshl, fit(self, w), fit(o, w)), lo, hi)
        if ol < 0:
            raise ValueError("negative shift count")
        if ol == 0:
            return self
        return _scale(self, 1 << ol, self.lo << ol, self.hi << ol, lambda w: _shl(self, ol, w))

    def __rlshift__(self, o):
        if not _num(o):
            return NotImplemented
        o = int(o)
        if self < 0:
            raise ValueError("negative shift count")
        if self.hi > 320:
            return o << self.__index__()
        lo0 = max(self.lo, 0)
        lo, hi = min(o << lo0, o << self.hi), max(o << lo0, o << self.hi)
        if rep_width(lo, hi) > 320:
            return o << self.__index__()
        w = max(rep_width(lo, hi), rep_width(self.lo, self.hi))
        return refit(_bin(zc.Z3_mk_bvshl, bvval(o, w), fit(self, w)), lo, hi)

    def __rshift__(self, o):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        if ol != oh:
            if o < 0:
                raise ValueError("negative shift count")
            ol = max(ol, 0)
            w = max(self.e.size() + (1 if self.lo >= 0 else 0), rep_width(0, oh) + 1)
            r = _bin(zc.Z3_mk_bvashr, fit(self, w), fit(o, w))
            lo = min(self.lo >> ol, self.lo >> oh)
            hi = max(self.hi >> ol, self.hi >> oh)
            return refit(r, lo, hi)
        if ol < 0:
            raise ValueError("negative shift count")
        if ol == 0:
            return self
        lo, hi = self.lo >> ol, self.hi >> ol
        if lo == hi:
            return lo
        r = _split(self, 1 << ol)
        if r is not None:
            return r[0]
        s = self.e.size()
        r = _bv(zc.Z3_mk_extract(_CREF, s - 1, min(ol, s - 1), self.e.as_ast()))
        return _quotient(mk(refitraw(r, rep_width(lo, hi), signed=self.lo < 0), lo, hi), self, 1 << ol)

    def __rrshift__(self, o):
        if not _num(o):
            return NotImplemented
        o = int(o)
        if self < 0:
            raise ValueError("negative shift count")
        if o >= 0:
            w = max(o.bit_length() + 1, self.e.size() + 1)
            r = _bin(zc.Z3_mk_bvlshr, bvval(o, w), fit(self, w))
            return refit(r, o >> max(self.hi, 0), o >> max(self.lo, 0))
        return o >> self.__index__()

    # -- bitwise
    def __and__(self, o):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        if ol == oh and ol >= 0:
            if ol == 0:
                return 0
            if self.lo >= 0 and (ol & (ol + 1)) == 0 and ol >= self.hi:
                return self
            if self.lo >= 0 and (ol & (ol + 1)) == 0 and self.lo >> ol.bit_length() == self.hi >> ol.bit_length():
                lo, hi = self.lo & ol, self.hi & ol
                w = rep_width(lo, hi)
                return mk(fit(self, w), lo, hi)
            if (ol & (ol + 1)) == 0:
                r = _split(self, ol + 1)
                if r is not None:
                    return r[1]
        if ol == oh and ol != -1:
            low = (ol & -ol) - 1
            if low and (ol == ~low or ol > 0 and self.lo >= 0 and ol | low == (1 << ol.bit_length()) - 1 and ol | low >= self.hi):
                lo, hi = self.lo & ~low, self.hi & ~low
                return _mkl(_comb(lin_of(self), lin_of(self & low), -1), lo, hi, False,
                            lambda w: _bin(zc.Z3_mk_bvand, fit(self, w), bvval(ol, w)))
        if self.lo >= 0 and ol >= 0:
            lo, hi = 0, min(self.hi, oh)
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        elif ol >= 0:
            lo, hi = 0, oh
        else:
            w = max(rep_width(self.lo, self.hi), rep_width(ol, oh)) + 1
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        w = rep_width(lo, hi)
        return mk(_bin(zc.Z3_mk_bvand, fit(self, w), fit(o, w)), lo, hi)

    __rand__ = __and__

    def _orxor(self, o, fn, isor):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        if ol == oh == 0:
            return self
        if self.lo >= 0 and ol >= 0:
            for a, b in ((self, o), (o, self)):
                if multiple(a, 1 << bounds(b)[1].bit_length()):
                    return _sum(a, b, 1, self.lo + ol, self.hi + oh, lambda w: _bin(fn, fit(a, w), fit(b, w)))
            n = max(self.hi.bit_length(), oh.bit_length())
            lo, hi = (max(self.lo, ol) if isor else 0), (1 << n) - 1
            if isor:
                hi = min(hi, self.hi + oh)
        else:
            w = max(rep_width(self.lo, self.hi), rep_width(ol, oh)) + 1
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        w = rep_width(lo, hi)
        return mk(_bin(fn, fit(self, w), fit(o, w)), lo, hi)

    def __or__(self, o):
        return self._orxor(o, zc.Z3_mk_bvor, True)

    __ror__ = __or__

    def __xor__(self, o):
        return self._orxor(o, zc.Z3_mk_bvxor, False)

    __rxor__ = __xor__

    # -- comparison
    def _pair(self, o):
        lo = min(self.lo, bounds(o)[0])
        hi = max(self.hi, bounds(o)[1])
        w = rep_width(lo, hi)
        return fit(self, w), fit(o, w), lo < 0

    def __eq__(self, o):
        if not _num(o):
            if hasattr(o, "_sx_int"):
                return self == o._sx_int()
            return NotImplemented
        ol, oh = bounds(o)
        if self.hi < ol or oh < self.lo:
            return False
        d = _diff(self, o)
        if d is not None:
            return _sides(d, lambda x, y: x == y)
        a, b, _ = self._pair(o)
        if a.eq(b):
            return True
        return mkb(_cmp(zc.Z3_mk_eq, a, b))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)

    def __lt__(self, o):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        if self.hi < ol:
            return True
        if self.lo >= oh:
            return False
        d = _diff(self, o)
        if d is not None:
            return _sides(d, lambda x, y: x < y)
        a, b, s = self._pair(o)
        return mkb(_cmp(zc.Z3_mk_bvslt if s else zc.Z3_mk_bvult, a, b))

    def __le__(self, o):
        if not _num(o):
            return NotImplemented
        ol, oh = bounds(o)
        if self.hi <= ol:
            return True
        if self.lo > oh:
            return False
        d = _diff(self, o)
        if d is not None:
            return _sides(d, lambda x, y: x <= y)
        a, b, s = self._pair(o)
        return mkb(_cmp(zc.Z3_mk_bvsle if s else zc.Z3_mk_bvule, a, b))

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else not_(r)


def refitraw(e, w, signed=False):
    s = e.size()
    if s == w:
        return e
    if s > w:
        return _bv(zc.Z3_mk_extract(_CREF, w - 1, 0, e.as_ast()))
    if signed:
        return _bv(zc.Z3_mk_sign_ext(_CREF, w - s, e.as_ast()))
    return _bv(zc.Z3_mk_zero_ext(_CREF, w - s, e.as_ast()))


def refit(e, lo, hi):
    """term e whose value is known to lie in [lo, hi]; wide enough"""
    if lo == hi:
        return lo
    return SymInt(refitraw(e, rep_width(lo, hi), signed=lo < 0), lo, hi)


# -- linear forms
#
# The value of a SymInt as constant + sum of coefficient * atom, where an atom is
# a SymInt of another kind.  Terms which cancel never reach the solver.

MAXLIN = 10


def atom(x):
    p = CUR
    k = (x.e.get_id(), x.lo < 0)
    s = p.atoms.get(k)
    if s is None:
        s = p.atoms[k] = len(p.atomv)
        p.atomv.append(x)
    return s


def lin_of(x):
    if not isinstance(x, SymInt):
        return int(x), {}
    if type(x) is SymBool:
        return 0, {atom(x.as_int()): 1}
    if x.lin is None:
        x.lin = (0, {atom(x): 1})
    return x.lin


def _comb(a, b, k):
    """a + k * b"""
    c, d = a[0] + k * b[0], dict(a[1])
    for s, n in b[1].items():
        n = d.get(s, 0) + k * n
        if n:
            d[s] = n
        else:
            del d[s]
    divs = CUR.divs
    if divs:
        for s in [s for s in d if s in divs]:
            n = d.get(s, 0)
            if n and n % divs[s][1] == 0:
                # n * (x // m) = n / m * (x - x % m)
                x, m = divs[s]
                del d[s]
                c, d = _comb(_comb((c, d), lin_of(x), n // m), lin_of(x % m), -n // m)
    return c, d


def multiple(x, m):
    """x is a multiple of m, by its linear form"""
    if not isinstance(x, SymInt):
        return int(x) % m == 0
    if type(x) is SymBool or x.lin is None:
        return m == 1
    c, d = x.lin
    return c % m == 0 and all(k % m == 0 for k in d.values())


def _linbounds(lin):
    c, d = lin
    lo = hi = c
    av = CUR.atomv
    for s, k in d.items():
        x = av[s]
        if k > 0:
            lo += k * x.lo
            hi += k * x.hi
        else:
            lo += k * x.hi
            hi += k * x.lo
    return lo, hi


def _shl(x, k, w):
    if k == 0:
        return fit(x, w)
    if k >= w:
        return bvval(0, w)
    a, z = fit(x, w - k), bvval(0, k)
    return _bv(zc.Z3_mk_concat(_CREF, a.as_ast(), z.as_ast()))


def _term(lin, w):
    """the value of a linear form modulo 2**w"""
    c, d = lin
    av = CUR.atomv
    t = None
    for s in sorted(d, key=lambda s: (d[s] < 0, s)):
        k = d[s]
        n = abs(k)
        u = _shl(av[s], n.bit_length() - 1, w) if n & (n - 1) == 0 else _bin(zc.Z3_mk_bvmul, fit(av[s], w), bvval(n, w))
        if t is None:
            t = u if k > 0 else _bin(zc.Z3_mk_bvsub, bvval(c, w), u)
            if k < 0:
                c = 0
        else:
            t = _bin(zc.Z3_mk_bvadd if k > 0 else zc.Z3_mk_bvsub, t, u)
    return t if c == 0 else _bin(zc.Z3_mk_bvadd, t, bvval(c, w))


def _mkl(lin, lo, hi, rebuild, term=None):
    """the SymInt (or int) of a linear form with a value in [lo, hi]"""
    c, d = lin
    if not d:
        return c
    l, h = _linbounds(lin)
    l, h = max(lo, l), min(hi, h)
    if l <= h:      # otherwise the path is infeasible
        lo, hi = l, h
    if lo == hi:
        return lo
    w = rep_width(lo, hi)
    if len(d) == 1 and c == 0:
        (s, k), = d.items()
        if k == 1:
            x = CUR.atomv[s]
            return x if x.lo == lo and x.hi == hi else SymInt(fit(x, w), lo, hi, lin)
    if len(d) > MAXLIN:
        return SymInt(term(w) if term is not None else _term(lin, w), lo, hi)
    return SymInt(_term(lin, w) if rebuild or term is None else term(w), lo, hi, lin)


def _sum(a, b, k, lo, hi, term=None):
    """a + k * b for k = 1, -1"""
    la, lb = lin_of(a), lin_of(b)
    r = _comb(la, lb, k)
    rebuild = len(r[1]) != len(la[1]) + len(lb[1]) or la[0] and lb[0]
    if term is None:
        def term(w):
            return _bin(zc.Z3_mk_bvadd if k > 0 else zc.Z3_mk_bvsub, fit(a, w), fit(b, w))
    return _mkl(r, lo, hi, rebuild, term)


def _scale(x, k, lo, hi, term):
    l = lin_of(x)
    r = _comb((0, {}), l, k)
    return _mkl(r, lo, hi, r[1].keys() != l[1].keys(), term)


def _quotient(q, x, d):
    if isinstance(q, SymInt):
        CUR.divs.setdefault(atom(q), (x, d))
    return q


def _split(x, d):
    """divmod of x by a constant, where a part of x is a multiple of it; otherwise None"""
    if type(x) is SymBool or x.lin is None:
        return None
    c, t = x.lin
    m = {s: k // d for s, k in t.items() if k % d == 0}
    if not m and 0 <= c < d:
        return None
    rest = (c % d, {s: k for s, k in t.items() if k % d})
    q = (c // d, m)
    lo, hi = x.lo // d, x.hi // d
    l, h = _linbounds(rest)
    if 0 <= l and h < d:
        return _mkl(q, lo, hi, True), _mkl(rest, 0, d - 1, True)
    y = _mkl(rest, l, h, True)
    yq, yr = divmod_(y, d)
    return _mkl(_comb(q, lin_of(yq), 1), lo, hi, True), yr


def _diff(a, b):
    """a - b as a linear form if they have a part in common"""
    if not isinstance(b, SymInt) or a.lin is None and b.lin is None:
        return None
    la, lb = lin_of(a), lin_of(b)
    if la[1].keys().isdisjoint(lb[1]) and not (la[0] and lb[0]):
        return None
    return _comb(la, lb, -1)


def _sides(lin, op):
    """op(positive part, negative part)"""
    c, d = lin
    lo, hi = _linbounds(lin)
    if lo > 0 or hi < 0 or lo == hi:
        return op(1 if lo > 0 else -1 if hi < 0 else 0, 0)
    if not op(1, 0) and not op(0, 0) and lo >= 0:     # < of something not negative
        return False
    if op(-1, 0) and op(0, 0) and hi <= 0:            # <= of something not positive
        return True
    p = (max(c, 0), {s: k for s, k in d.items() if k > 0})
    n = (max(-c, 0), {s: -k for s, k in d.items() if k < 0})
    return op(_mkl(p, *_linbounds(p), True), _mkl(n, *_linbounds(n), True))


def divmod_(x, d):
    if isinstance(x, SymInt):
        return x._divmod_const(d)
    return divmod(x, d)


class SymEnum(SymInt):
    """a symbolic member of an enumeration"""
    __slots__ = ("cls",)

    def __init__(self, e, lo, hi, cls):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.lin = None
        self.cls = cls

    def as_int(self):
        return SymInt(self.e, self.lo, self.hi, self.lin)

    @property
    def value(self):
        return self.as_int()

    _value_ = value

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.cls(self.__index__()), name)

    def __format__(self, spec):
        return "<sym>"


def enum_of(x):
    return x.cls if type(x) is SymEnum else type(x) if isinstance(x, enum.Enum) else None


def is_(a, b):
    """identity, where enumeration members and small values may be symbolic"""
    if a is b:
        return True
    if not isinstance(a, SymInt) and not isinstance(b, SymInt):
        return False
    if a is None or b is None or not _num(a) or not _num(b):
        return False
    if isinstance(a, (bool, SymBool)) != isinstance(b, (bool, SymBool)):
        return False
    if enum_of(a) is not enum_of(b):
        return False
    return a == b


class SymBool(SymInt):
    """a z3 Bool usable as a Python bool/int"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b
        self.lo = 0
        self.hi = 1
        self.lin = None
        # the bit-vector view is built on demand

    def __getattr__(self, name):
        if name == "e":
            self.e = z3.If(self.b, bvval(1, 1), bvval(0, 1))
            return self.e
        raise AttributeError(name)

    def as_int(self):
        return SymInt(self.e, 0, 1)

    def __bool__(self):
        return CUR.ex.decide_bool(self.b)

    def nonzero(self):
        return self.b

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkb(self.b == o.b)
        if isinstance(o, int):
            if o == 1:
                return self
            if o == 0:
                return not_(self)
            return False
        return SymInt.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkb(z3.And(self.b, o.b))
        if isinstance(o, bool):
            return self if o else False
        return SymInt.__and__(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkb(z3.Or(self.b, o.b))
        if isinstance(o, bool):
            return True if o else self
        return SymInt.__or__(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkb(z3.Xor(self.b, o.b))
        if isinstance(o, bool):
            return not_(self) if o else self
        return SymInt.__xor__(self, o)

    __rxor__ = __xor__

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__


_TID, _FID = TRUE.get_id(), FALSE.get_id()


def mkb(b):
    i = zc.Z3_get_ast_id(_CREF, b.ast)
    if i == _TID:
        return True
    if i == _FID:
        return False
    return SymBool(b)


def _bit_length(self):
    x = abs(self)
    if not isinstance(x, SymInt):
        return x.bit_length()
    lo, hi = bounds(x)
    assert lo >= 0
    r = lo.bit_length()
    for k in range(lo.bit_length(), hi.bit_length()):
        r = r + ite(x >= (1 << k), 1, 0)
    return r


SymInt.bit_length = _bit_length


def truth(x):
    """bool or SymBool of x, without forking on symbolic ints"""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        if x.lo > 0 or x.hi < 0:
            return True
        return mkb(x.nonzero())
    t = getattr(type(x), "_sx_truth", None)
    if t is not None:
        return t(x)
    return bool(x)


def not_(x):
    x = truth(x)
    if isinstance(x, SymBool):
        b = x.b
        if z3.is_not(b):
            return mkb(b.arg(0))
        return SymBool(_bo(zc.Z3_mk_not(_CREF, b.as_ast())))
    return not x


def and_(*xs):
    out = []
    for x in xs:
        x = truth(x)
        if isinstance(x, SymBool):
            out.append(x.b)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0])
    return mkb(z3.And(out))


def or_(*xs):
    out = []
    for x in xs:
        x = truth(x)
        if isinstance(x, SymBool):
            out.append(x.b)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return SymBool(out[0])
    return mkb(z3.Or(out))


def ite(c, a, b):
    c = truth(c)
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if _num(a) and _num(b):
        ab = isinstance(a, (bool, SymBool))
        bb = isinstance(b, (bool, SymBool))
        if ab and bb:
            if not isinstance(a, SymBool) and not isinstance(b, SymBool):
                if a == b:
                    return a
                return c if a else not_(c)
            return mkb(z3.If(c.b, boolterm(a), boolterm(b)))
        al, ah = bounds(a)
        bl, bh = bounds(b)
        lo, hi = min(al, bl), max(ah, bh)
        if lo == hi:
            return a if isinstance(a, enum.Enum) and a is b else lo
        cls = enum_of(a)
        if cls is not None and cls is not enum_of(b):
            cls = None
        if cls is None and not (a.lin is None if isinstance(a, SymInt) else True) | (b.lin is None if isinstance(b, SymInt) else True):
            la, lb = a.lin, b.lin
            common = {s: k for s, k in la[1].items() if lb[1].get(s) == k}
            if common:
                # the part in common stays outside
                common = (0, common)
                x, y = _comb(la, common, -1), _comb(lb, common, -1)
                x, y = _mkl(x, *_linbounds(x), True), _mkl(y, *_linbounds(y), True)
                l = _linbounds(common)
                return clamp(_mkl(common, *l, True) + ite(c, x, y), lo, hi)
        w = rep_width(lo, hi)
        r = z3.If(c.b, fit(a, w), fit(b, w))
        if cls is not None:
            return SymEnum(r, lo, hi, cls)
        return mk(r, lo, hi)
    return a if c else b


def clamp(x, lo, hi):
    """x with tighter bounds, which are known to hold"""
    if not isinstance(x, SymInt) or isinstance(x, SymBool):
        return x
    lo, hi = max(lo, x.lo), min(hi, x.hi)
    if lo >= hi:
        return lo
    if lo == x.lo and hi == x.hi:
        return x
    return SymInt(fit(x, rep_width(lo, hi)), lo, hi, lin_of(x))


def boolterm(x):
    x = truth(x)
    if isinstance(x, SymBool):
        return x.b
    return TRUE if x else FALSE


def fresh(name, lo, hi):
    """a fresh symbolic integer in [lo, hi]; returns the proxy (range constraint assumed)"""
    if lo == hi:
        return lo
    w = rep_width(lo, hi)
    v = z3.BitVec(name, w)
    x = SymInt(v, lo, hi)
    full_lo = 0 if lo >= 0 else -(1 << (w - 1))
    full_hi = (1 << w) - 1 if lo >= 0 else (1 << (w - 1)) - 1
    cs = []
    if lo > full_lo:
        cs.append(_cmp(zc.Z3_mk_bvuge if lo >= 0 else zc.Z3_mk_bvsge, v, bvval(lo, w)))
    if hi < full_hi:
        cs.append(_cmp(zc.Z3_mk_bvule if lo >= 0 else zc.Z3_mk_bvsle, v, bvval(hi, w)))
    for c in cs:
        CUR.ex.assume(c)
    return x
