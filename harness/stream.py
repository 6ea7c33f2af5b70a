"""Stream sources, sinks and monitors made by define_stream."""
import cocotb
from cocotb.queue import QueueFull, QueueEmpty
from cocotb.triggers import RisingEdge, FallingEdge
from cocotbext.axi.stream import define_stream
from symx.api import case
from harness.common import Item, Pauser, clocks

FIELDS = (("data", 8), ("user", 3))


def stream(style):
    """(Bus, Transaction, Source, Sink, Monitor, valid name, ready name)"""
    if style == "named":
        return define_stream("S", signals=["data", "user", "vld", "rdy"], valid_signal="vld", ready_signal="rdy") + ("vld", "rdy")
    if style == "separate":
        return define_stream("S", signals=["data", "user"], valid_signal="vld", ready_signal="rdy") + ("vld", "rdy")
    if style == "optional":
        return define_stream("S", signals=["data", "tvalid"], optional_signals=["user", "tready"], signal_widths={"user": 3}) + ("tvalid", "tready")
    if style == "noready":
        return define_stream("S", signals=["data", "tvalid"], optional_signals=["user"]) + ("tvalid", None)
    return define_stream("S", signals=["data", "user", "tvalid", "tready"]) + ("tvalid", "tready")


def signals(cx, v, r):
    s = {n: cx.sig("s_" + n, w) for n, w in FIELDS}
    s["v"] = cx.sig("s_" + v, 1)
    if r:
        s["r"] = cx.sig("s_" + r, 1)
    return s


SRC_Q = [
    dict(n=2, ready=4, gaps=(0, 1)), dict(n=2, ready=2, pause=4), dict(n=3, ready=3, limit=1), dict(n=3, ready=2, limit=2, gaps=(0, 2)),
    dict(n=2, ready=2, style="named"), dict(n=2, ready=2, style="separate"), dict(n=2, ready=2, style="optional"), dict(n=2, ready=0, style="noready", gaps=(0, 1, 2)),
    dict(n=2, ready=2, style="noready", pause=3), dict(n=3, ready=3, clear=4),
    dict(n=2, ready=2, pause=3, how="generator"), dict(n=2, ready=1, pause=3, how="change"), dict(n=2, ready=2, pause=3, how="edge", gaps=(0, 1), edge=True), dict(n=3, ready=3, limit=1, edge=True, gaps=(0, 1))]
SRC_T = SRC_Q + [dict(n=3, ready=5, gaps=(0, 1, 2)), dict(n=3, ready=3, pause=6), dict(n=4, ready=4, limit=1, pause=3), dict(n=4, ready=4, limit=2, gaps=(0, 1, 2)), dict(n=4, ready=4, limit=3)]


@case("C11", "source", quick=SRC_Q, thorough=SRC_T, max_cycles=120)
async def source(cx, cfg):
    Bus, Tr, Source, _, _, vn, rn = stream(cfg.get("style"))
    clk = cx.clock()
    s = signals(cx, vn, rn)
    src = Source(Bus.from_prefix(cx.top, "s"), clk)
    n, limit = cfg["n"], cfg.get("limit", 0)
    if limit:
        src.queue_occupancy_limit = limit
    vals = [[cx.bits(f, w) for f, w in FIELDS] for k in range(n)]
    got = []        # (cycle, values)
    sent = []       # cycle of the send
    waited = []

    async def receive():
        left = cfg["ready"]
        prev = None
        fresh = True
        rdy = 1
        if rn:
            rdy = cx.bits("ready", 1) if left else 1
            left -= 1
            s["r"].value = rdy
        while True:
            await RisingEdge(clk)
            cx.check(cx.resolvable(s["v"].value), "valid driven")
            v = cx.val(s["v"].value)
            if prev is not None:
                cx.check(v == 1, "valid held until ready")
            if v == 1:
                now = [cx.val(s[f].value) for f, w in FIELDS]
                if prev is not None:
                    for a, b in zip(now, prev):
                        cx.check(a == b, "values held until ready")
                else:
                    k = len(got)
                    cx.check(k < len(sent) and sent[k] < cx.cycle, "nothing presented while nothing is queued")
                    cx.check(not (pauser and pauser.paused(cx.cycle - 1)), "nothing new presented while paused")
                if rdy == 1:
                    got.append((cx.cycle, now))
                    prev = None
                else:
                    prev = now
            if rn:
                rdy = cx.bits("ready", 1) if left > 0 else 1
                left -= 1
                s["r"].value = rdy

    async def waiter():
        await src.wait()
        waited.append((cx.cycle, len(sent)))

    def drop():
        """clear drops what is still queued"""
        q = src.count()
        src.clear()
        cx.check(src.empty() and src.count() == 0, "clear empties the queue")
        for k in range(q):
            del sent[-1]
            del vals[len(sent)]

    pauser = None
    cocotb.start_soon(receive())
    if rn is None and cfg["ready"]:
        await FallingEdge(clk)
    await FallingEdge(clk)
    pauser = Pauser(cx, clk, src, cfg["pause"], cfg.get("how")) if cfg.get("pause") else None
    cx.check(src.idle() and src.empty(), "idle at the start")
    async def feed():
        for k in range(n):
            for g in range(cx.choice("gap", cfg.get("gaps", (0,)))):
                await (RisingEdge if cfg.get("edge") else FallingEdge)(clk)
            kw = {f: x for (f, w), x in zip(FIELDS, vals[k])}
            t = Tr(**kw)
            if cx.choice("send", ("send", "nowait")) == "send":
                await src.send(t)
            else:
                while src.full():
                    try:
                        src.send_nowait(t)
                        cx.fail("queue limit")
                    except QueueFull:
                        pass
                    await FallingEdge(clk)
                src.send_nowait(t)
            sent.append(cx.cycle)
            cx.check(not src.idle(), "idle while something is queued")
            if limit:
                cx.check(src.count() <= limit, "queue limit")
            if k == 0:
                cocotb.start_soon(waiter())
        cocotb.start_soon(waiter())

    f = cocotb.start_soon(feed())
    clears = cfg.get("clear", 0)
    while not f.done() or len(got) < len(sent):
        await FallingEdge(clk)
        if clears and sent:
            clears -= 1
            if cx.flag("clear"):
                drop()
        cx.check(src.idle() == (len(got) == len(sent)), "idle exactly when everything was accepted")
        cx.check(src.count() == 0 if src.empty() else src.count() > 0, "count")
        if limit:
            cx.check(src.count() <= limit and src.full() == (src.count() == limit), "queue limit")
        for c, total in waited:
            cx.check(sum(1 for x in got if x[0] <= c) >= min(total, len(sent)), "wait returns when everything was accepted")
    await clocks(clk, 3)
    cx.check(len(got) == len(vals), "each transaction once")
    for k in range(len(got)):
        for a, b in zip(got[k][1], vals[k]):
            cx.check(a == b, "field values in order")
    cx.check(len(waited) == 2, "wait returns when everything was accepted")
    cx.check(src.idle() and src.empty(), "idle exactly when everything was accepted")


def same(cx, objs, hs):
    cx.check(len(objs) == len(hs), "one transaction per handshake", f"{len(objs)} of {len(hs)}")
    for o, h in zip(objs, hs):
        for (f, w), x in zip(FIELDS, h):
            cx.check(cx.val(getattr(o, f)) == x, "sampled values")


class Stim:
    """drives arbitrary valid (and ready) values for some cycles and records the handshakes"""

    def __init__(self, cx, clk, s, n, both, tail=0):
        self.cx, self.clk, self.s, self.n, self.both, self.tail = cx, clk, s, n, both, tail
        self.hs = []
        self.cycles = 0
        self.ready = []
        self.done = False
        for name in ("v", "r") if both else ("v",):
            if name in s:
                s[name].set(cx.bits("start " + name, 1))
        self.vals = [cx.bits(f, w) for f, w in FIELDS]
        for (f, w), x in zip(FIELDS, self.vals):
            s[f].set(x)
        cocotb.start_soon(self.run())

    def drive(self, v, r):
        cx, s = self.cx, self.s
        self.vals = [cx.bits(f, w) for f, w in FIELDS]
        for (f, w), x in zip(FIELDS, self.vals):
            s[f].value = x
        s["v"].value = v
        if self.both and "r" in s:
            s["r"].value = r
        self.want = (v, r)

    async def run(self):
        cx, s = self.cx, self.s
        for k in range(self.n + self.tail + 1):
            await RisingEdge(self.clk)
            r = 1
            if "r" in s:
                cx.check(cx.resolvable(s["r"].value), "ready driven")
                r = cx.val(s["r"].value)
            v = cx.val(s["v"].value)
            self.ready.append(r)
            if v == 1 and r == 1:
                self.hs.append(self.vals)
            self.cycles += 1
            if k < self.n:
                self.drive(cx.bits("valid", 1), cx.bits("ready", 1) if self.both and "r" in s else 1)
            elif k < self.n + self.tail:
                self.drive(1, 1)
            else:
                self.drive(0, 0)
        self.done = True


MON_Q = [dict(n=4), dict(n=3, style="named"), dict(n=3, style="optional"), dict(n=6, style="noready"), dict(n=3, style="separate")]
MON_T = MON_Q + [dict(n=6), dict(n=9, style="noready")]


@case("C12", "monitor", quick=MON_Q, thorough=MON_T)
async def monitor(cx, cfg):
    Bus, Tr, _, _, Monitor, vn, rn = stream(cfg.get("style"))
    clk = cx.clock()
    s = signals(cx, vn, rn)
    st = Stim(cx, clk, s, cfg["n"], True)
    mon = Monitor(Bus.from_prefix(cx.top, "s"), clk)
    while not st.done:
        await FallingEdge(clk)
        cx.check(mon.count() == len(st.hs) and mon.empty() == (not st.hs), "one transaction per handshake")
        for (f, w), x in zip(FIELDS, st.vals):
            cx.check(cx.val(s[f].value) == x, "a monitor never drives the bus")
        if st.cycles:
            cx.check(cx.val(s["v"].value) == st.want[0], "a monitor never drives the bus")
            if rn:
                cx.check(cx.val(s["r"].value) == st.want[1], "a monitor never drives the bus")
    await clocks(clk, 2)
    objs = []
    while not mon.empty():
        objs.append(mon.recv_nowait())
    same(cx, objs, st.hs)
    try:
        mon.recv_nowait()
        cx.fail("nothing left")
    except QueueEmpty:
        pass


SINK_Q = [dict(n=5), dict(n=4, pause=4), dict(n=3, tail=5, limit=1, recv=3), dict(n=3, tail=5, limit=2, recv=3), dict(n=2, tail=6, limit=1, recv=2, pause=2), dict(n=1, tail=6, limit=2, clear=True),
          dict(n=3, style="named"), dict(n=3, style="separate"), dict(n=3, style="optional", pause=2), dict(n=5, style="noready"),
          dict(n=3, pause=3, how="generator"), dict(n=3, pause=2, how="change"), dict(n=3, pause=3, how="edge"), dict(n=2, tail=5, limit=1, recv=2, pause=2, how="edge")]
SINK_T = SINK_Q + [dict(n=8), dict(n=5, pause=6), dict(n=4, tail=6, limit=1, recv=5), dict(n=4, tail=6, limit=2, recv=5), dict(n=3, tail=7, limit=2, recv=3, pause=3), dict(n=3, tail=8, limit=3, recv=4)]


@case("C12", "sink", quick=SINK_Q, thorough=SINK_T)
async def sink(cx, cfg):
    Bus, Tr, _, Sink, _, vn, rn = stream(cfg.get("style"))
    clk = cx.clock()
    s = signals(cx, vn, rn)
    st = Stim(cx, clk, s, cfg["n"], False, cfg.get("tail", 2))
    snk = Sink(Bus.from_prefix(cx.top, "s"), clk)
    limit = cfg.get("limit", 0)
    if limit:
        snk.queue_occupancy_limit = limit
    objs = []
    mids = []           # in the middle of each cycle: paused, full before and after the actions below
    waited = []

    async def waiter():
        await snk.wait()
        waited.append((cx.cycle, snk.count()))
    cocotb.start_soon(waiter())
    pauser = None
    if "how" in cfg:
        await FallingEdge(clk)
        pauser = Pauser(cx, clk, snk, cfg["pause"], cfg["how"])
    lost = 0
    k = 0
    while not st.done:
        await FallingEdge(clk)
        cx.check(snk.count() == len(st.hs) - len(objs) - lost and snk.empty() == (snk.count() == 0), "one transaction per handshake")
        if limit:
            cx.check(snk.count() <= limit, "the queue limit is never exceeded")
            cx.check(snk.full() == (snk.count() == limit), "full exactly at the limit")
        full0 = bool(limit and snk.full())
        if pauser is None:
            snk.pause = cx.flag("pause") if k < cfg.get("pause", 0) else False
        if cfg.get("clear") and snk.full() and cx.flag("clear"):
            lost += snk.count()
            del st.hs[:]
            del objs[:]
            lost = 0
            snk.clear()
            cx.check(snk.empty(), "clear empties the queue")
        if k < cfg.get("recv", 0) or (limit and not cfg.get("clear") and k > cfg["n"]):
            if not snk.empty() and (k >= cfg.get("recv", 0) or cx.flag("recv")):
                if cx.flag("recv nowait") if k < 2 else k % 2:
                    objs.append(snk.recv_nowait())
                else:
                    objs.append(await snk.recv())
        full1 = bool(limit and snk.full())
        mids.append((snk.pause, full0, full1))
        if rn and len(mids) >= 5:
            # mids[-2] was just before the edge whose ready value is judged
            z, a, b = mids[-4], mids[-3], mids[-2]
            if (z[0] and a[0]) or (a[2] and b[1]):
                cx.check(st.ready[-1] == 0, "ready is low while paused or full")
            if not (z[0] or a[0]) and not (a[2] or b[1]):
                cx.check(st.ready[-1] == 1, "ready is high when not paused and not full")
        k += 1
    await clocks(clk, 3)
    while not snk.empty():
        objs.append(snk.recv_nowait())
    same(cx, objs, st.hs)
    if st.hs and not cfg.get("clear"):
        cx.check(len(waited) == 1 and waited[0][1] > 0, "wait returns when something was received")


SND_Q = [dict(n=4, limit=1, ready=2), dict(n=5, limit=2, ready=1)]
SND_T = SND_Q + [dict(n=5, limit=1, ready=4, gaps=(0, 1)), dict(n=5, limit=2, ready=3, gaps=(0, 2)), dict(n=6, limit=3, ready=4)]


@case("C11", "senders", quick=SND_Q, thorough=SND_T, max_cycles=120)
async def senders(cx, cfg):
    """several tasks wait for room in one source"""
    Bus, Tr, Source, _, _, vn, rn = stream(None)
    clk = cx.clock()
    s = signals(cx, vn, rn)
    src = Source(Bus.from_prefix(cx.top, "s"), clk)
    n, limit = cfg["n"], cfg["limit"]
    src.queue_occupancy_limit = limit
    vals = [[cx.bits(f, w) for f, w in FIELDS] for k in range(n)]
    order, got = [], []
    s["r"].set(0)
    gaps = [cx.choice("gap", cfg.get("gaps", (0,))) for k in range(n)]

    async def sender(k):
        for g in range(gaps[k]):
            await FallingEdge(clk)
        await src.send(Tr(**{f: x for (f, w), x in zip(FIELDS, vals[k])}))
        order.append(k)
        cx.check(src.count() <= limit, "queue limit")

    async def receive():
        left = cfg["ready"]
        while True:
            rdy = cx.bits("ready", 1) if left > 0 else 1
            left -= 1
            s["r"].value = rdy
            await RisingEdge(clk)
            cx.check(src.count() <= limit, "queue limit")
            if cx.val(s["v"].value) == 1 and rdy == 1:
                got.append([cx.val(s[f].value) for f, w in FIELDS])
    await FallingEdge(clk)
    for k in range(n):
        cocotb.start_soon(sender(k))
    await RisingEdge(clk)
    cocotb.start_soon(receive())
    while len(got) < n:
        await FallingEdge(clk)
    await clocks(clk, 3)
    cx.check(len(order) == n and len(got) == n, "each transaction once")
    for k, g in zip(order, got):
        for a, b in zip(g, vals[k]):
            cx.check(a == b, "transactions in order with their values")
    cx.check(src.idle(), "idle exactly when everything was accepted")


CON_Q = [dict(n=3, limit=0, delays=("none", "edge", "half"), gaps=1), dict(n=4, limit=1, delays=("none", "edge"), gaps=1), dict(n=4, limit=2, delays=("none", "half"), gaps=1), dict(n=3, limit=1, delays=("none", "edge"), gaps=0, pause=3, how="edge")]
CON_T = CON_Q + [dict(n=5, limit=1, delays=("none", "edge", "half"), gaps=2), dict(n=5, limit=2, delays=("none", "edge", "half"), gaps=2), dict(n=4, limit=1, delays=("none", "edge"), gaps=1, pause=4, how="generator")]


@case("C12", "consumer", quick=CON_Q, thorough=CON_T, max_cycles=100)
async def consumer(cx, cfg):
    """a task which waits for transactions acts at the clock edges; a source which holds valid"""
    Bus, Tr, _, Sink, _, vn, rn = stream(None)
    clk = cx.clock()
    s = signals(cx, vn, rn)
    n, limit = cfg["n"], cfg["limit"]
    s["v"].set(0)
    snk = Sink(Bus.from_prefix(cx.top, "s"), clk)
    if limit:
        snk.queue_occupancy_limit = limit
    vals = [[cx.bits(f, w) for f, w in FIELDS] for k in range(n)]
    objs, acc = [], []

    async def drive():
        left = cfg["gaps"]
        for k in range(n):
            while left and cx.flag("gap"):
                left -= 1
                s["v"].value = 0
                await RisingEdge(clk)
            for (f, w), x in zip(FIELDS, vals[k]):
                s[f].value = x
            s["v"].value = 1
            while True:
                await RisingEdge(clk)
                if cx.val(s["r"].value) == 1:
                    break
            acc.append(cx.cycle)
        s["v"].value = 0

    async def consume():
        for k in range(n):
            if cx.flag("wait first"):
                await snk.wait()
                cx.check(not snk.empty(), "wait returns when something was received")
            objs.append(await snk.recv())
            d = cx.choice("delay", cfg["delays"])
            if d == "edge":
                await RisingEdge(clk)
            elif d == "half":
                await FallingEdge(clk)

    async def limits():
        while True:
            await FallingEdge(clk)
            if limit:
                cx.check(snk.count() <= limit, "the queue limit is never exceeded")
            cx.check(snk.count() == len(acc) - len(objs), "one transaction per handshake")
    await FallingEdge(clk)
    cocotb.start_soon(limits())
    if cfg.get("pause"):
        Pauser(cx, clk, snk, cfg["pause"], cfg["how"])
    cocotb.start_soon(drive())
    c = cocotb.start_soon(consume())
    await c
    await FallingEdge(clk)
    cx.check(len(acc) == n, "one transaction per handshake")
    same(cx, objs, vals)


TMO_Q = [dict(n=3, t=1), dict(n=4, t=3)]
TMO_T = TMO_Q + [dict(n=6, t=4), dict(n=6, t=5)]


async def timed_waits(cx, cfg, clk, dev, arrive, count, default=None):
    """wait with a time limit of t clock cycles, starting between the edges; arrive(k) presents one at an edge"""
    n, t = cfg["n"], cfg["t"]
    at = cx.choice("arrives", range(n + 2))         # at this edge after the start of the wait, or never
    unit, scale = cx.choice("unit", (("step", 1), ("ps", 100)) + ((default,) if default else ()))      # a step is 0.1 ns
    results = []

    async def go():
        time = int(2 * t * cx.sim.HALF * scale)
        await (dev.wait(timeout=time, timeout_unit=unit) if unit else dev.wait(timeout=time))
        results.append((cx.cycle, dev.count()))
    await FallingEdge(clk)
    start = cx.cycle
    for k in range(n + 1):
        if k == at:
            arrive(1)
        if k == 0:
            cocotb.start_soon(go())
        await RisingEdge(clk)
        arrive(0)
        await FallingEdge(clk)
    await clocks(clk, t + 2)
    cx.check(len(results) == 1, "a wait with a time limit ends")
    end, c = results[0]
    cx.check(end - start == min(at + 1, t), "a wait ends with the first transaction or when its time is over")
    await FallingEdge(clk)
    cx.check(dev.count() == (count if at <= n else 0), "one transaction per handshake")


@case("C12", "timeout", quick=TMO_Q, thorough=TMO_T)
async def timeout(cx, cfg):
    Bus, Tr, _, Sink, Monitor, vn, rn = stream(None)
    clk = cx.clock()
    s = signals(cx, vn, rn)
    for x in s.values():
        x.set(0)
    mon = cx.flag("monitor")
    dev = (Monitor if mon else Sink)(Bus.from_prefix(cx.top, "s"), clk)
    await clocks(clk, 2)

    def arrive(v):
        s["v"].value = v
        if mon:
            s["r"].value = v
    await timed_waits(cx, cfg, clk, dev, arrive, 1)
