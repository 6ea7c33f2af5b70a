"""A small event simulator standing in for the HDL simulator behind cocotb.

The real cocotb scheduler, triggers, queues and tasks and the real
cocotb_bus.Bus run on top of it; only the GPI layer (cocotb.simulator) and the
signal handles are replaced.  It is used twice: with symbolic signal values
(SYMBOLIC) and, for the replay of counterexamples, with plain values returned
as cocotb BinaryValue objects.
"""
import gc
import heapq
import operator
import sys
import types
import warnings
import logging

SYMBOLIC = False
SIM = None          # current Sim


class Cb:
    __slots__ = ("fn", "arg", "live", "store", "kind")

    def __init__(self, fn, arg, store=None, kind=0):
        self.fn, self.arg, self.live, self.store, self.kind = fn, arg, True, store, kind

    def deregister(self):
        self.live = False
        if self.store is not None:
            try:
                self.store.remove(self)
            except ValueError:
                pass
            self.store = None

    def fire(self):
        if not self.live:
            return
        self.deregister()
        self.fn(self.arg)


def _fake_simulator():
    m = types.ModuleType("cocotb.simulator")
    for i, n in enumerate(["DRIVERS", "LOADS", "OBJECTS", "INTEGER", "ENUM", "REAL", "STRING", "MODULE", "STRUCTURE",
                           "REG", "NET", "NETARRAY", "GENARRAY", "PACKAGE", "UNKNOWN", "MEMORY"]):
        setattr(m, n, i)
    m.get_precision = lambda: -10     # a clock cycle is 10 steps of 0.1 ns
    m.get_sim_time = lambda: (SIM.time >> 32, SIM.time & 0xffffffff)
    m.log_level = lambda *a: None
    m.is_running = lambda: True
    m.get_simulator_product = lambda: "symx"
    m.get_simulator_version = lambda: "1"
    m.stop_simulator = lambda: None
    m.package_iterate = lambda: []

    def timed(steps, cb, trig):
        c = Cb(cb, trig)
        SIM.add_timed(SIM.time + steps, c)
        return c

    def value_change(handle, cb, edge, trig):
        c = Cb(cb, trig, handle.cbs, edge)
        handle.cbs.append(c)
        return c

    def reg(listname):
        def f(cb, trig):
            lst = getattr(SIM, listname)
            c = Cb(cb, trig, lst)
            lst.append(c)
            return c
        return f

    m.register_timed_callback = timed
    m.register_value_change_callback = value_change
    m.register_rwsynch_callback = reg("rw")
    m.register_readonly_callback = reg("ro")
    m.register_nextstep_callback = reg("ns")
    return m


_ready = False


def setup(symbolic, site=None):
    """make cocotb importable on top of the fake simulator"""
    global SYMBOLIC, _ready
    SYMBOLIC = symbolic
    if _ready:
        return
    _ready = True
    if site and site not in sys.path:
        sys.path.append(site)
    sys.modules["cocotb.simulator"] = _fake_simulator()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import cocotb
    import cocotb.handle        # noqa
    cocotb.simulator = sys.modules["cocotb.simulator"]


# ------------------------------------------------------------------- values

class Val:
    """value of a signal (symbolic mode); mirrors the used part of BinaryValue"""
    __slots__ = ("v", "n", "x")

    def __init__(self, v, n, x=None):
        self.v, self.n, self.x = v, n, x

    def _sx_int(self):
        if self.x is not None:
            raise ValueError("Unresolvable bit in binary string: 'x'")
        return self.v

    def _sx_truth(self):
        from .engine import truth
        if self.x is not None:
            return "1" in self.x
        return truth(self.v)

    def __bool__(self):
        return bool(self._sx_truth())

    def __int__(self):
        return int(self._sx_int())

    def __index__(self):
        return operator.index(self._sx_int())

    def __len__(self):
        return self.n

    def __hash__(self):
        return hash(self._sx_int())

    @property
    def integer(self):
        return self._sx_int()

    value = integer

    @property
    def signed_integer(self):
        from .engine import ite
        v = self._sx_int()
        return ite(v >= (1 << (self.n - 1)), v - (1 << self.n), v)

    @property
    def is_resolvable(self):
        return self.x is None

    @property
    def n_bits(self):
        return self.n

    @property
    def binstr(self):
        if self.x is not None:
            return self.x
        return format(int(self.v), f"0{self.n}b")

    def __str__(self):
        return self.binstr if self.x is not None or isinstance(self.v, int) else "<sym>"

    __repr__ = __str__

    def __format__(self, spec):
        from .symstr import fmt
        return fmt(self._sx_int(), spec)

    @property
    def buff(self):
        n = (self.n + 7) // 8
        return self._sx_int().to_bytes(n, "big")

    def __eq__(self, o):
        if isinstance(o, Val):
            o = o._sx_int()
        if isinstance(o, (int,)) or hasattr(o, "lo"):
            return self._sx_int() == o
        return NotImplemented

    def __ne__(self, o):
        from .engine import not_
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _delegate(name, fn, rev):
    def f(self, o):
        if isinstance(o, Val):
            o = o._sx_int()
        return fn(o, self._sx_int()) if rev else fn(self._sx_int(), o)
    setattr(Val, name, f)


for _n in "add sub mul floordiv mod and or xor lshift rshift truediv pow".split():
    _op = getattr(operator, {"and": "and_", "or": "or_"}.get(_n, _n))
    _delegate(f"__{_n}__", _op, False)
    _delegate(f"__r{_n}__", _op, True)
for _n in "lt le gt ge".split():
    _delegate(f"__{_n}__", getattr(operator, _n), False)


class Sig:
    """a signal handle"""

    def __init__(self, sim, name, width):
        self._sim, self._name, self._path, self._fullname = sim, name, "top." + name, "top." + name
        self._n = width
        self._v = None                   # int / SymInt, or None when unresolved
        self._x = "x" * width
        self.cbs = []
        self._handle = self
        self._type = "GPI_REGISTER"

    @property
    def _log(self):
        return logging.getLogger("cocotb." + self._name)

    log = _log

    def __len__(self):
        return self._n

    def __repr__(self):
        return f"Sig({self._name})"

    def __eq__(self, o):
        if isinstance(o, Sig):
            return self is o
        return self.value == o

    def __ne__(self, o):
        if isinstance(o, Sig):
            return self is not o
        return self.value != o

    def __hash__(self):
        return id(self) >> 4

    def __int__(self):
        return int(self.value)

    def _sx_int(self):
        return self.value._sx_int()

    @property
    def value(self):
        if SYMBOLIC:
            return Val(self._v, self._n, self._x)
        from cocotb.binary import BinaryValue
        s = self._x if self._x is not None else format(self._v, f"0{self._n}b")
        r = BinaryValue(n_bits=self._n)
        r._set_trusted_binstr(s)
        return r

    @value.setter
    def value(self, val):
        import cocotb
        v = self._conv(val)
        cocotb.scheduler._schedule_write(self, self._sim.deposit, self, v)

    def setimmediatevalue(self, val):
        self._sim.deposit(self, self._conv(val))

    def set(self, val):
        """harness use before the simulation starts: take effect at once"""
        self._v, self._x = self._conv(val)

    def _conv(self, val):
        """(int|SymInt, None) or (None, binstr)"""
        from cocotb.types import LogicArray, Logic
        from cocotb.binary import BinaryValue
        n = self._n
        if isinstance(val, int):
            if not -(1 << (n - 1)) <= val <= (1 << n) - 1:
                raise OverflowError(f"Int value ({val!r}) out of range for assignment of {n!r}-bit signal ({self._name!r})")
            return int(val) & ((1 << n) - 1), None
        if SYMBOLIC:
            from . import engine as E
            if isinstance(val, E.SymInt):
                lo, hi = -(1 << (n - 1)), (1 << n) - 1
                if val.lo < lo or val.hi > hi:
                    if not E.and_(val >= lo, val <= hi):
                        raise OverflowError(f"Int value out of range for assignment of {n!r}-bit signal ({self._name!r})")
                if val.lo >= 0 and val.hi <= hi:
                    return val.as_int(), None
                if val.lo >= 0:
                    return E.clamp(val.as_int(), 0, hi), None
                return E.SymInt(E.fit(val, n), 0, hi), None
            if isinstance(val, Val):
                if val.n != n:
                    raise ValueError(f"cannot assign value of length {val.n} to handle of length {n}")
                return val.v, val.x
        if isinstance(val, LogicArray):
            if len(val) != n:
                raise ValueError(f"cannot assign value of length {len(val)} to handle of length {n}")
            return self._binstr(val.binstr)
        if isinstance(val, Logic):
            if n != 1:
                raise ValueError(f"cannot assign value of length 1 to handle of length {n}")
            return self._binstr(str(val))
        if isinstance(val, BinaryValue):
            if len(val) != n:
                raise ValueError(f"cannot assign value of length {len(val)} to handle of length {n}")
            return self._binstr(val.binstr)
        raise TypeError(f"Unsupported type for value assignment: {type(val)} ({val!r})")

    def _binstr(self, s):
        s = s.lower()
        if set(s) <= {"0", "1"}:
            return int(s, 2), None
        return None, s


class Entity:
    """the DUT: a bag of signals"""

    def __init__(self, sim, name="top"):
        self._name = name
        self._sim = sim
        self._path = name

    @property
    def _log(self):
        return logging.getLogger("cocotb." + self._name)

    def add(self, name, width, init=None):
        s = Sig(self._sim, name, width)
        setattr(self, name, s)
        if init is not None:
            s.set(init)
        return s


# ---------------------------------------------------------------- simulator

class Sim:
    HALF = 5

    def __init__(self):
        self.time = 0
        self.heap = []
        self.seq = 0
        self.rw, self.ro, self.ns = [], [], []
        self.deposits = []
        self.top = Entity(self)
        self.clocks = []
        self.readonly = False
        self.cycle = 0
        self.task = None
        self.ndeposits = 0

    def add_timed(self, t, cb):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, cb))

    def deposit(self, sig, v):
        if self.readonly:
            raise Exception("write during the read-only phase")
        self.deposits.append((sig, v))

    def apply(self, sig, v):
        new, nx = v
        old, ox = sig._v, sig._x
        self.ndeposits += 1
        if not sig.cbs:
            sig._v, sig._x = new, nx
            return
        if SYMBOLIC:
            from . import engine as E
            if isinstance(old, E.SymInt):
                old = int(old)
            if isinstance(new, E.SymInt):
                new = int(new)
        sig._v, sig._x = new, nx
        if old == new and ox == nx:
            return
        rise = new is not None and new & 1 == 1 and (old is None or old & 1 == 0)
        fall = new is not None and new & 1 == 0 and (old is None or old & 1 == 1)
        for c in list(sig.cbs):
            if c.kind == 3 or (c.kind == 1 and rise) or (c.kind == 2 and fall):
                c.fire()
                self.poll()

    def poll(self):
        if SYMBOLIC:
            from . import engine as E
            p = E.CUR
            if p is not None and p.pending is not None:
                raise p.pending

    def drain(self):
        while self.deposits:
            sig, v = self.deposits.pop(0)
            self.apply(sig, v)

    def clock(self, sig, half=HALF):
        """free running clock: rises at half, 3*half, ..."""
        sig.set(0)
        self.clocks.append((sig, half))

        def toggle(_):
            self.add_timed(self.time + half, Cb(toggle, None))
            nv = 1 - sig._v
            if nv and sig is self.clocks[0][0]:
                self.cycle += 1
            self.apply(sig, (nv, None))
        self.add_timed(half, Cb(toggle, None))

    def done(self):
        return self.task._outcome is not None

    def run(self, coro, max_cycles):
        """run the test coroutine; returns 'done' or 'hang'"""
        global SIM
        import cocotb
        from cocotb.scheduler import Scheduler
        from cocotb.task import Task
        SIM = self
        sched = Scheduler(handle_result=lambda t: None)
        for t in (Scheduler._next_time_step, Scheduler._read_write, Scheduler._read_only, Scheduler._timer1):
            t.cbhdl = None
            t.primed = False
        cocotb.scheduler = sched
        cocotb.top = self.top
        self.task = Task(coro)
        limit = self.HALF * 2 * max_cycles
        sched._add_test(self.task)
        self.poll()
        while True:
            # active region / read-write synch of the current time step
            while True:
                self.drain()
                if self.done():
                    break
                if not self.rw:
                    break
                for c in list(self.rw):
                    c.fire()
                    self.poll()
            if self.done():
                break
            self.readonly = True
            while self.ro and not self.done():
                for c in list(self.ro):
                    c.fire()
                    self.poll()
            self.readonly = False
            if self.done():
                break
            if not self.heap:
                return "hang"
            t = self.heap[0][0]
            if t > limit:
                return "hang"
            self.time = t
            for c in list(self.ns):
                c.fire()
                self.poll()
            while self.heap and self.heap[0][0] == t and not self.done():
                _, _, c = heapq.heappop(self.heap)
                c.fire()
                self.poll()
        return "done"

    def outcome(self):
        """exception of the test task or None"""
        from cocotb.outcomes import Error
        o = self.task._outcome
        return o.error if isinstance(o, Error) else None
