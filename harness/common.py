"""Testbench side of the harnesses: generic valid/ready drivers and bus signals."""
import cocotb
from cocotb.triggers import RisingEdge, FallingEdge, Timer, Event

AW = [("awid", "id"), ("awaddr", "addr"), ("awlen", 8), ("awsize", 3), ("awburst", 2), ("awvalid", 1), ("awready", 1)]
AWO = [("awlock", 1), ("awcache", 4), ("awprot", 3), ("awqos", 4), ("awregion", 4), ("awuser", 4)]
W = [("wdata", "data"), ("wlast", 1), ("wvalid", 1), ("wready", 1)]
WO = [("wstrb", "strb"), ("wuser", 4)]
B = [("bid", "id"), ("bvalid", 1), ("bready", 1)]
BO = [("bresp", 2), ("buser", 4)]
R = [("rid", "id"), ("rdata", "data"), ("rlast", 1), ("rvalid", 1), ("rready", 1)]
RO = [("rresp", 2), ("ruser", 4)]
LAW = [("awaddr", "addr"), ("awvalid", 1), ("awready", 1)]
LAWO = [("awprot", 3)]
LW = [("wdata", "data"), ("wvalid", 1), ("wready", 1)]
LWO = [("wstrb", "strb")]
LB = [("bvalid", 1), ("bready", 1)]
LBO = [("bresp", 2)]
LR = [("rdata", "data"), ("rvalid", 1), ("rready", 1)]
LRO = [("rresp", 2)]


def arof(lst):
    return [("ar" + n[2:], w) for n, w in lst]


AXI = dict(aw=(AW, AWO), w=(W, WO), b=(B, BO), ar=(arof(AW), arof(AWO)), r=(R, RO))
AXIL = dict(aw=(LAW, LAWO), w=(LW, LWO), b=(LB, LBO), ar=(arof(LAW), arof(LAWO)), r=(LR, LRO))


class Chan:
    """the signals of one channel"""

    def __init__(self, cx, prefix, spec, widths, opt, tb_drives):
        self.name = prefix
        self.sigs = {}
        self.valid = self.ready = None
        req, optional = spec
        for n, w in req + [o for o in optional if opt is True or o[0] in opt]:
            width = widths.get(w, w) if isinstance(w, str) else w
            s = cx.sig(prefix + "_" + n, width)
            if n.endswith("valid"):
                self.valid = s
                if tb_drives == "source":
                    s.set(0)
            elif n.endswith("ready"):
                self.ready = s
                if tb_drives == "sink":
                    s.set(0)
            else:
                self.sigs[n] = s
                if tb_drives == "source":
                    s.set(0)


def channels(cx, chans, table, lanes, addrw=32, idw=2, opt=True, prefix="axi", master=True):
    """signals of the named channels; master: the code under test is the master (None: both sides)"""
    widths = dict(data=8 * lanes, strb=lanes, addr=addrw, id=idw)
    out = {}
    for c in chans:
        tb_source = (c in ("b", "r")) == master
        out[c] = Chan(cx, prefix, table[c], widths, opt, None if master is None else "source" if tb_source else "sink")
    return out


def always():
    return 1


class Stall:
    """ready/valid policy: symbolic bit per cycle, at most n stalls of a waiting partner"""

    def __init__(self, cx, name, n):
        self.cx, self.name, self.n = cx, name, n

    def __call__(self):
        if self.n <= 0:
            return 1
        return self.cx.bits(self.name, 1)

    def stalled(self):
        self.n -= 1


class Pattern:
    """policy from an explicit list of values, then 1"""

    def __init__(self, vals):
        self.vals = list(vals)

    def __call__(self):
        return self.vals.pop(0) if self.vals else 1

    def stalled(self):
        pass


class Item:
    pass


class Rx:
    """receives transfers at each rising clock edge with valid and ready"""

    def __init__(self, cx, clk, chan, policy=None, on=None, hold="hold"):
        self.cx, self.clk, self.ch = cx, clk, chan
        self.policy = policy or always
        self.items = []
        self.on = on
        self.holdname = hold
        self.prev = None
        self.cycles = 0
        self.task = cocotb.start_soon(self.run())

    def stop(self):
        self.task.kill()
        if self.ch.ready is not None:
            self.ch.ready.value = 0

    def sample(self):
        it = Item()
        for n, s in self.ch.sigs.items():
            setattr(it, n, self.cx.val(s.value))
        it.cycle = self.cx.cycle
        return it

    async def run(self):
        cx = self.cx
        edge = RisingEdge(self.clk)
        rdy = self.policy()
        if self.ch.ready is not None:
            self.ch.ready.value = rdy
        while True:
            await edge
            self.cycles += 1
            v = self.ch.valid.value
            cx.check(cx.resolvable(v), "valid driven")
            if self.prev is not None and self.holdname:
                cx.check(cx.val(v) == 1, self.holdname, "valid dropped before the handshake")
            if v:
                it = self.sample()
                if self.prev is not None and self.holdname:
                    for n in self.ch.sigs:
                        cx.check(getattr(it, n) == getattr(self.prev, n), self.holdname, n + " changed before the handshake")
                if rdy:
                    self.prev = None
                    self.items.append(it)
                    if self.on is not None:
                        self.on(it)
                else:
                    self.prev = it
                    self.policy.stalled()
            rdy = self.policy()
            if self.ch.ready is not None:
                self.ch.ready.value = rdy


class Tx:
    """drives transfers from a queue, valid held until ready"""

    def __init__(self, cx, clk, chan, policy=None):
        self.cx, self.clk, self.ch = cx, clk, chan
        self.policy = policy or always
        self.queue = []
        self.sent = []
        self.on = None
        self.active = None
        self.task = cocotb.start_soon(self.run())

    def stop(self):
        """returns what was presented last"""
        self.task.kill()
        self.ch.valid.value = 0
        return self.active

    def put(self, **kw):
        self.queue.append(kw)

    def idle(self):
        return not self.queue

    async def run(self):
        edge = RisingEdge(self.clk)
        while True:
            await edge
            if self.active is not None:
                if self.ch.ready is None or self.ch.ready.value:
                    self.active["cycle"] = self.cx.cycle
                    self.sent.append(self.active)
                    if self.on is not None:
                        self.on(self.active)
                    self.active = None
            if self.active is None and self.queue:
                if self.policy():
                    self.active = self.queue.pop(0)
                    for n, s in self.ch.sigs.items():
                        s.value = self.active.get(n, 0)
                    self.ch.valid.value = 1
                else:
                    self.policy.stalled()
                    self.ch.valid.value = 0
            elif self.active is None:
                self.ch.valid.value = 0


def pick(cx, data, i):
    """data[i] with a symbolic index (0 when out of range)"""
    r = 0
    for k in range(len(data)):
        r = cx.ite(i == k, data[k], r)
    return r


async def clocks(clk, n):
    e = RisingEdge(clk)
    for _ in range(n):
        await e


def content(addr):
    """arbitrary but fixed contents of a target, different for nearby and for far addresses"""
    return (addr ^ (addr >> 7) ^ (addr >> 13) ^ (addr >> 22)) & 0xff


class TargetError(Exception):
    pass


class Target:
    """target of a slave model: records accesses, optionally fails"""

    def __init__(self, cx, fails=None):
        self.cx = cx
        self.fails = fails
        self.log = []

    def outcome(self):
        bad = self.fails is not None and self.fails()
        return bad

    async def write(self, address, data, **kwargs):
        bad = self.outcome()
        self.log.append(("w", address, [b for b in data], bad))
        if bad:
            raise TargetError("write")

    async def read(self, address, length, **kwargs):
        bad = self.outcome()
        self.log.append(("r", address, length, bad))
        if bad:
            raise TargetError("read")
        return bytes(content(address + i) for i in range(length))

    def bytes_written(self):
        out = []
        for op, a, d, bad in self.log:
            if op == "w":
                for i, b in enumerate(d):
                    out.append((a + i, b))
        return out


FIXED, INCR, WRAP = 0, 1, 2


def beat_addresses(cx, addr, beats, size, burst):
    """AXI4 A3.4.1: address of every transfer of a burst"""
    nb = 1 << size
    al = addr >> size << size
    out = []
    total = nb * beats
    low = al // total * total
    for i in range(beats):
        if i == 0 or burst == FIXED:
            out.append(addr)
        elif burst == INCR:
            out.append(al + i * nb)
        else:
            out.append(low + (al - low + i * nb) % total)
    return out


def lanes_of(a, size, lanes):
    """(word address, first lane, last lane) of a transfer at address a"""
    nb = 1 << size
    word = a // lanes * lanes
    return word, a - word, (a >> size << size) + nb - 1 - word


class Watch:
    """what the master reports against the responses handshaken so far; reports
    of one clock edge are judged when that edge is over"""

    def __init__(self, cx, tx, counts):
        self.cx, self.tx, self.counts = cx, tx, counts
        self.seen = []

    def answered(self, k, upto):
        n = 0
        for s in self.tx.sent:
            if s["op"] == k and s["cycle"] <= upto:
                n += 1
        return n

    def report(self, k, what):
        """operation k (or all of them) is reported to be complete"""
        self.seen.append((k, what, self.cx.cycle))

    def judge(self):
        seen, self.seen = self.seen, []
        for k, what, cyc in seen:
            for j in range(len(self.counts)):
                if k is None or k == j:
                    self.cx.check(self.answered(j, cyc) == self.counts[j], what, f"op {j}")

    def done(self):
        return len(self.tx.sent) >= sum(self.counts)


def combine_ok(cx, got, resps):
    """the result code of an operation from the codes of its parts"""
    allok = cx.and_(*[r == 0 for r in resps]) if resps else True
    one = cx.or_(*[cx.and_(r != 0, got == r) for r in resps]) if resps else False
    return cx.or_(cx.and_(allok, got == 0), cx.and_(cx.not_(allok), one))


def expected_writes(cx, beats, lanes):
    """(address, byte) for every set strobe, in order; strobes are decided by now"""
    out = []
    for word, data, st in beats:
        st = cx.conc(st)
        for j in range(lanes):
            if (st >> j) & 1:
                out.append((word + j, (data >> (8 * j)) & 0xff))
    return out


def same_writes(cx, got, exp, what):
    cx.check(len(got) == len(exp), what, f"{len(got)} bytes written instead of {len(exp)}")
    for i, ((a, d), (b, e)) in enumerate(zip(got, exp)):
        cx.check(a == b, what, f"address of byte {i}")
        cx.check(d == e, what, f"value of byte {i}")


async def run_ops(cx, cfg, clk, m, mi, tx, counts, base, init, call, ready, resp, wait2, extra, rname):
    """start operations, judge what the master reports about them"""
    nops = len(counts)
    watch = Watch(cx, tx, counts)
    events = [None] * nops
    waited = []

    async def task(k):
        events[k].set(await call(k))

    async def waiter(f, name):
        await f()
        watch.report(None, name + " returns only when all operations are complete")
        cx.check(mi.idle(), "idle after wait")
        waited.append(name)
    await RisingEdge(clk)
    cx.check(m.idle(), "idle at the start")
    for k in range(nops):
        if cfg["mode"] == "init":
            own = Event() if k == 0 else None
            events[k] = init(k, own)
            cx.check(own is None or events[k] is own, "own event")
            cx.check(not m.idle(), "idle while an operation is outstanding", "after the call")
        else:
            events[k] = Event()
            cocotb.start_soon(task(k))
    if cfg["mode"] != "init":
        await clocks(clk, 1)
    cocotb.start_soon(waiter(m.wait, "wait"))
    cocotb.start_soon(waiter(wait2, "wait for one direction"))
    op_of = [k for k in range(nops) for j in range(counts[k])]
    put = 0
    while not watch.done():
        await RisingEdge(clk)
        watch.judge()
        for k in range(nops):
            if events[k].is_set():
                watch.report(k, "completion before its last response")
        if m.idle():
            watch.report(None, "idle while an operation is outstanding")
        while put < min(ready(), len(op_of)):
            tx.put(op=op_of[put], **resp())
            put += 1
    for k in range(nops):
        if not events[k].is_set():
            await events[k].wait()
        r = events[k].data
        sent = [x for x in tx.sent if x["op"] == k]
        cx.check(r.address == base[k], "result of its own operation", f"address {k}")
        cx.check(combine_ok(cx, r.resp, [x[rname] for x in sent]), "result code", f"op {k}")
        extra(k, r, sent)
    await clocks(clk, 3)
    watch.judge()
    cx.check(m.idle() and mi.idle(), "idle at the end")
    cx.check(len(waited) == 2, "wait returns when the operations are complete", str(waited))


class Pauser:
    """pauses a model for n cycles by its attribute, set between the edges or at an edge, or by a pause generator"""

    def __init__(self, cx, clk, dev, n, how=None):
        self.cx, self.clk, self.dev, self.n, self.how = cx, clk, dev, n, how or "attribute"
        self.at = {}            # edge -> paused at both sides of the edge
        self.drawn = []
        self.before = dev.pause
        self.task = cocotb.start_soon(self.run())

    def pattern(self):
        for k in range(self.n):
            v = self.cx.flag("pause")
            self.drawn.append((self.cx.cycle, v))
            yield v
        self.drawn.append((self.cx.cycle, False))
        yield False

    def other(self, drawn):
        for v in (self.cx.flag("pause of the second"), True, False):
            drawn.append(v)
            yield v

    def paused(self, edge):
        return self.at.get(edge, False)

    async def run(self):
        cx, dev = self.cx, self.dev
        down = FallingEdge(self.clk)
        up = RisingEdge(self.clk)
        k = 0
        if self.how == "generator" or self.how == "change":
            dev.set_pause_generator(self.pattern())
        change = cx.choice("generator changed in cycle", range(1, self.n + 1)) if self.how == "change" else -1
        second = None
        while True:
            if self.how == "attribute" and k <= self.n:
                dev.pause = cx.flag("pause") if k < self.n else False
            self.before = dev.pause
            await up
            if self.how == "edge" and k <= self.n:
                dev.pause = cx.flag("pause") if k < self.n else False
            await down
            self.at[cx.cycle] = self.before and dev.pause
            k += 1
            if self.how == "generator":
                cx.check(len(self.drawn) == min(k + 1, self.n + 1), "a pause generator advances once per clock cycle")
                cx.check(dev.pause == self.drawn[-1][1], "a pause generator sets the pause")
            if self.how == "change":
                # the generator is removed or replaced; the first one is not used any more
                cx.check(len(self.drawn) == min(k + 1, self.n + 1, change + 1), "a pause generator advances once per clock cycle", "until it is removed")
                if k <= change:
                    cx.check(dev.pause == self.drawn[-1][1], "a pause generator sets the pause")
                elif second is None:
                    cx.check(not dev.pause, "a removed pause generator does nothing")
                else:
                    cx.check(len(second) == min(k - change + 1, 3), "a pause generator advances once per clock cycle", "the one which replaces another")
                    cx.check(dev.pause == second[-1], "a pause generator sets the pause")
                if k == change:
                    if cx.flag("replaced"):
                        second = []
                        dev.set_pause_generator(self.other(second))
                    else:
                        dev.clear_pause_generator()
                        dev.pause = False
                    await Timer(1, "step")

    @property
    def over(self):
        return self.n < 0
