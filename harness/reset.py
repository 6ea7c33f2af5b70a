"""Reset of every model at any time."""
import cocotb
from cocotb.triggers import RisingEdge, FallingEdge
from cocotbext.axi import AxiBus, AxiMaster, AxiSlave, AxiRam, AxiLiteBus, AxiLiteMaster, AxiLiteSlave, AxiLiteRam
from cocotbext.axi import ApbBus, ApbMaster, ApbSlave, ApbRam
from cocotbext.axi import AxiStreamBus, AxiStreamSource, AxiStreamSink, AxiStreamMonitor
from symx.api import case
from harness.common import channels, AXI, AXIL, Rx, Tx, Stall, clocks, content, combine_ok
from harness.apb import Sigs, Dev, SlowTarget
from harness.axis_ import bus as axis_signals, Frame, check_beats, nbeats
from harness.stream import stream, signals as stream_signals, FIELDS

ALL = ("aw", "w", "b", "ar", "r")


class Rst:
    """resets by signal of either polarity or by call"""

    def __init__(self, cx, how):
        self.cx, self.how = cx, how
        self.sig = None
        self.since = None
        if how != "call":
            self.on = 1 if how == "high" else 0
            self.sig = cx.sig("rst", 1)

    def start(self, active):
        if self.sig is not None:
            self.sig.set(self.on if active else 1 - self.on)
        if active:
            self.since = self.cx.cycle

    def kw(self):
        if self.sig is None:
            return {}
        return dict(reset=self.sig, reset_active_level=bool(self.on))

    def set(self, active, models):
        if self.sig is not None:
            self.sig.value = self.on if active else 1 - self.on
        else:
            for m in models:
                m.assert_reset(active)

    def pulse(self, models):
        for m in models:
            m.assert_reset()


async def observe(cx, clk, rst, outs):
    """in reset nothing is valid, ready or selected"""
    while True:
        await RisingEdge(clk)
        if rst.since is not None and cx.cycle > rst.since:
            for o in outs:
                cx.check(cx.resolvable(o.value), "outputs deasserted in reset", "not driven")
                cx.check(cx.val(o.value) == 0, "outputs deasserted in reset")


def vary(cx, cfg, name, k=2):
    """a choice the configuration leaves open, or a fixed one"""
    return cx.choice(name, range(k)) if "vary" not in cfg or name in cfg["vary"] else 0


async def scenario(cx, cfg, clk, rst, dut):
    """work, a reset at any time, work again"""
    for x in dut.ins:
        if not cx.resolvable(x.value):
            x.set(0)
    cocotb.start_soon(observe(cx, clk, rst, dut.outs))
    if rst.since is not None:
        # reset while the model was created
        dut.wild()
        await clocks(clk, 2)
        dut.in_reset()
        await FallingEdge(clk)
        dut.quiet()
        rst.set(False, dut.models)
        rst.since = None
        if cfg.get("fresh"):
            await RisingEdge(clk)
            await dut.after()
            return
    await RisingEdge(clk)
    dut.begin()
    t = cx.choice("reset after", range(*cfg["t"]))
    await clocks(clk, t)
    if vary(cx, cfg, "between edges"):
        await FallingEdge(clk)
    dur = 1 + vary(cx, cfg, "cycles", 3 if rst.how == "call" else 2)
    if dur == 3:
        dur = 0
    rst.since = cx.cycle
    dut.before()
    if dur == 0:
        rst.pulse(dut.models)
        dut.cut()
        await RisingEdge(clk)
        await FallingEdge(clk)
        rst.since = None
        dut.in_reset()
    else:
        rst.set(True, dut.models)
        dut.cut()
        if vary(cx, cfg, "activity in reset"):
            dut.wild()
        await clocks(clk, dur)
        await FallingEdge(clk)
        dut.in_reset()
        during = dut.starts and vary(cx, cfg, "start in reset")
        if during:
            dut.during()
            await RisingEdge(clk)
            await FallingEdge(clk)
        dut.quiet()
        if vary(cx, cfg, "release after an edge"):
            await RisingEdge(clk)
        rst.set(False, dut.models)
        rst.since = None
    await dut.after()


class Base:
    """inputs of the model in reset"""
    starts = True

    def wild(self):
        for s in self.ins:
            s.value = 1 if len(s) == 1 and self.cfg.get("ones", True) else self.cx.bits("input in reset", len(s))

    def quiet(self):
        for s in self.ins:
            s.value = 0


# ------------------------------------------------------------------ masters

class WPart:
    """slave for writes of one byte each"""

    def __init__(self, cx, clk, ch, stall, resp):
        self.resp = resp
        self.k = 0
        self.b = Tx(cx, clk, ch["b"], Stall(cx, "bvalid", stall.get("b", 0)))
        self.aw = Rx(cx, clk, ch["aw"], Stall(cx, "awready", stall.get("aw", 0)), self.on)
        self.w = Rx(cx, clk, ch["w"], Stall(cx, "wready", stall.get("w", 0)), self.on)
        self.resps = []

    def on(self, it):
        while self.k < min(len(self.aw.items), len(self.w.items)):
            r = self.resp()
            self.resps.append(r)
            self.b.put(bresp=r, bid=getattr(self.aw.items[self.k], "awid", 0))
            self.k += 1

    def stop(self):
        for x in (self.b, self.aw, self.w):
            x.stop()

    def presented(self):
        return len(self.b.sent) + (self.b.active is not None)

    def sent(self):
        return len(self.b.sent)


class RPart:
    def __init__(self, cx, clk, ch, stall, resp):
        self.cx, self.resp = cx, resp
        self.r = Tx(cx, clk, ch["r"], Stall(cx, "rvalid", stall.get("r", 0)))
        self.ar = Rx(cx, clk, ch["ar"], Stall(cx, "arready", stall.get("ar", 0)), self.on)
        self.resps = []
        self.data = []

    def on(self, it):
        self.resps.append(self.resp())
        self.data.append(self.cx.bits("rdata", 8))
        self.r.put(rid=getattr(it, "arid", 0), rdata=self.data[-1], rresp=self.resps[-1], rlast=1)

    def stop(self):
        for x in (self.r, self.ar):
            x.stop()

    def presented(self):
        return len(self.r.sent) + (self.r.active is not None)

    def sent(self):
        return len(self.r.sent)


class APart:
    """APB: both directions"""

    def __init__(self, cx, clk, sg, stall, resp):
        self.dev = Dev(cx, clk, sg, lambda: 99, Stall(cx, "pready", stall.get("p", 0)), err=resp is not None)

    def stop(self):
        self.dev.stop()

    def presented(self):
        return self.dev.presented

    def sent(self):
        return len(self.dev.sent)

    @property
    def resps(self):
        return [x["resp"] for x in self.dev.sent]


class MasterDut(Base):
    def __init__(self, cx, clk, cfg, kw):
        self.cx, self.clk, self.cfg = cx, clk, cfg
        self.bus = cfg["bus"]
        if self.bus == "apb":
            self.sg = Sigs(cx, 1)
            self.m = ApbMaster(ApbBus.from_prefix(cx.top, "apb"), clk, **kw)
            self.models = [self.m]
            self.outs = [self.sg.psel, self.sg.penable]
            self.ins = [self.sg.pready, self.sg.pslverr]
            self.dirs = [("w", "r")]
        else:
            axi = self.bus == "axi"
            self.ch = channels(cx, ALL, AXI if axi else AXIL, 1, idw=1)
            if axi:
                self.m = AxiMaster(AxiBus.from_prefix(cx.top, "axi"), clk, max_burst_len=1, **kw)
            else:
                self.m = AxiLiteMaster(AxiLiteBus.from_prefix(cx.top, "axi"), clk, **kw)
            c = self.ch
            self.models = [self.m.write_if, self.m.read_if]
            self.outs = [c["aw"].valid, c["w"].valid, c["b"].ready, c["ar"].valid, c["r"].ready]
            self.ins = [c["aw"].ready, c["w"].ready, c["b"].valid, c["ar"].ready, c["r"].valid] + list(c["b"].sigs.values()) + list(c["r"].sigs.values())
            self.dirs = [("w",), ("r",)]
        self.late = []
        self.waited = []

    def part(self, dirs, stall, resp):
        if self.bus == "apb":
            return APart(self.cx, self.clk, self.sg, stall, resp)
        return (WPart if dirs == ("w",) else RPart)(self.cx, self.clk, self.ch, stall, resp or (lambda: 0))

    def start(self, d, address, n, data):
        if d == "w":
            return self.m.init_write(address, data)
        return self.m.init_read(address, n)

    async def waiter(self):
        await self.m.wait()
        self.waited.append(self.cx.cycle)

    def begin(self):
        self.parts = []
        for dirs in self.dirs:
            ops = []
            for i, n in enumerate(self.cfg["lens"]):
                ops.append((n, self.start(dirs[i % len(dirs)], 0x100 * (i + 1), n, bytes(n))))
            self.parts.append((self.part(dirs, self.cfg["stall"], None), ops))
        cocotb.start_soon(self.waiter())

    def before(self):
        """completed for sure before the reset"""
        self.certain = []
        for p, ops in self.parts:
            s = p.sent() if self.cx.cycle > self.cfg["t"][0] else 0
            done = 0
            for n, ev in ops:
                done += n
                self.certain.append((ev, ev.is_set() and ev.data is not None))

    def cut(self):
        for p, ops in self.parts:
            p.stop()

    def in_reset(self):
        cx = self.cx
        cx.check(self.m.idle(), "idle in reset")
        if not hasattr(self, "parts"):
            return
        for p, ops in self.parts:
            done = 0
            for n, ev in ops:
                done += n
                cx.check(ev.is_set(), "pending operations complete")
                if p.presented() < done:
                    cx.check(ev.data is None, "pending operations complete with no result")
        for ev, was in self.certain:
            cx.check(not was or ev.data is not None, "completed operations keep their results")
        cx.check(len(self.waited) == 1, "wait returns when the operations are flushed")

    def during(self):
        for d in "wr":
            self.late.append((d, 1, 0x40, [7], self.start(d, 0x40, 1, bytes([7]))))

    async def after(self):
        cx = self.cx
        ps = [self.part(dirs, self.cfg["stall2"], lambda: cx.bits("resp", 2)) for dirs in self.dirs]
        await clocks(self.clk, 2 * vary(cx, self.cfg, "gap"))
        n = self.cfg.get("n", 2)
        address = {d: cx.addr("addr " + d, 32, 0) for d in "wr"}
        data = cx.bytes("data", n)
        parts = []
        for p, dirs in zip(ps, self.dirs):
            ops = [x for x in self.late if x[0] in dirs]
            for d in dirs:
                cx.assume(address[d] + n <= 1 << 32)
                ops.append((d, n, address[d], data, self.start(d, address[d], n, data)))
            parts.append((p, ops))
        cx.check(not self.m.idle(), "new operations are pending")
        waited = len(self.waited)
        cocotb.start_soon(self.waiter())
        while True:
            await FallingEdge(self.clk)
            all_done = True
            for p, ops in parts:
                done = 0
                for d, k, a, x, ev in ops:
                    done += k
                    if ev.is_set():
                        cx.check(p.sent() >= done, "new operations complete with their own responses")
                    else:
                        all_done = False
            if not all_done:
                cx.check(not self.m.idle() and len(self.waited) == waited, "idle and wait after a reset")
            else:
                break
        await clocks(self.clk, 3)
        cx.check(self.m.idle() and len(self.waited) == waited + 1, "idle and wait after a reset")
        for p, ops in parts:
            total = sum(x[1] for x in ops)
            cx.check(p.sent() == total, "nothing but the new operations")
            i = 0
            for d, k, a, x, ev in ops:
                r = ev.data
                cx.check(r is not None and r.address == a, "result of a new operation")
                cx.check(combine_ok(cx, r.resp, p.resps[i:i + k]), "result code of a new operation")
                for j in range(k):
                    self.transfer(p, i + j, d, a + j, x[j], r.data[j] if d == "r" else None)
                i += k
        if self.bus == "axi" and hasattr(self, "parts"):
            # the automatic ID of the first operation is the same each time
            for (old, _), (new, _), ch, name in zip(self.parts, parts, ("aw", "ar"), ("awid", "arid")):
                x, y = getattr(old, ch).items, getattr(new, ch).items
                if x:
                    cx.check(getattr(x[0], name) == getattr(y[0], name), "ID of the first operation")

    def transfer(self, p, i, d, a, x, got):
        cx = self.cx
        if self.bus == "apb":
            q = p.dev.sent[i]["req"]
            cx.check(cx.and_(q.paddr == a, q.pwrite == (d == "w")), "transfer of a new operation")
            if d == "w":
                cx.check(cx.and_(q.pwdata == x, q.pstrb == 1), "data of a new operation")
            else:
                cx.check(got == p.dev.sent[i]["rdata"], "data of a new operation")
        elif d == "w":
            cx.check(len(p.aw.items) == len(p.w.items), "one data transfer per address")
            aw, w = p.aw.items[i], p.w.items[i]
            cx.check(aw.awaddr == a, "transfer of a new operation")
            cx.check(cx.and_(w.wdata == x, w.wstrb == 1), "data of a new operation")
            if self.bus == "axi":
                cx.check(cx.and_(aw.awlen == 0, w.wlast == 1), "burst of a new operation")
        else:
            cx.check(p.ar.items[i].araddr == a, "transfer of a new operation")
            cx.check(got == p.data[i], "data of a new operation")


def hows(**kw):
    return [dict(how=h, **kw) for h in ("high", "low", "call")]


BASIC = ("between edges", "cycles", "release after an edge")
START = ("start in reset", "gap", "cycles")
STALLS = ("between edges", "activity in reset")


def masters(bus, lens, n, stalls):
    out = [dict(bus=bus, how=h, lens=lens, t=(0, n), stall={}, stall2={}, vary=v) for h, v in (("high", BASIC), ("low", START), ("call", BASIC + START), ("low", STALLS))]
    for h, s, s2 in stalls:
        out.append(dict(bus=bus, how=h, lens=lens[:2], t=(1, n), stall=s, stall2=s2, vary=STALLS))
    return out


M_Q = masters("axi", (2, 1), 9, [("call", dict(w=2), dict(b=1)), ("call", dict(w=1), dict(r=1)), ("high", dict(aw=1), dict(b=1)), ("high", dict(ar=1), {}), ("low", dict(b=1), dict(r=1)), ("low", dict(r=1), {})])
M_Q += masters("axil", (2, 1), 8, [("call", dict(w=1), dict(b=1)), ("call", dict(ar=1), {}), ("high", dict(aw=1), {}), ("high", dict(r=1), {})])
M_Q += masters("apb", (1, 2, 1), 11, [("call", dict(p=2), {}), ("call", dict(p=1), dict(p=1)), ("high", dict(p=1), {})])
# long operations: responses arrive while the rest is still being issued
M_Q += [dict(bus=b, how=h, lens=(9,), t=(2, 14), stall={}, stall2={}, vary=("start in reset",)) for b in ("axi", "axil") for h in ("high", "call")]
M_T = M_Q + [dict(bus=b, how="call", lens=(5, 2), t=(2, 14), stall={c: 1}, stall2={}, vary=("gap", "between edges")) for b in ("axi", "axil") for c in ("w", "aw", "b", "ar", "r")] + [dict(bus=b, how=h, lens=(2, 2, 1), t=(0, 14), stall=s, stall2=dict(b=1, r=1, p=1), n=3, ones=False) for b in ("axi", "axil") for h in ("high", "call") for s in (dict(w=2, r=1), dict(aw=2, ar=2), dict(b=2), dict(w=1, aw=1, b=1))] + [
    dict(bus="apb", how=h, lens=(2, 2, 1), t=(0, 16), stall=dict(p=3), stall2=dict(p=2), ones=False) for h in ("high", "low", "call")]


@case("C17", "master", quick=M_Q, thorough=M_T, max_cycles=150)
async def master(cx, cfg):
    clk = cx.clock()
    rst = Rst(cx, cfg["how"])
    rst.start(cfg["how"] != "call" and cx.flag("in reset at the start"))
    await scenario(cx, cfg, clk, rst, MasterDut(cx, clk, cfg, rst.kw()))


# ------------------------------------------------------------------- slaves

class SlaveDut(Base):
    """slave or RAM model; the testbench is the master"""
    starts = False

    def __init__(self, cx, clk, cfg, kw):
        self.cx, self.clk, self.cfg = cx, clk, cfg
        self.bus = b = cfg["bus"]
        self.ram = cfg.get("ram")
        self.t = SlowTarget(cx, clk, cfg.get("delays"))
        if b == "apb":
            self.sg = Sigs(cx, 1, master=False)
            mb = ApbBus.from_prefix(cx.top, "apb")
            self.dev = ApbRam(mb, clk, size=4096, **kw) if self.ram else ApbSlave(mb, clk, target=self.t, **kw)
            self.models = [self.dev]
            self.outs = [self.sg.pready]
            self.ins = [self.sg.psel, self.sg.penable, self.sg.pwrite, self.sg.paddr, self.sg.pwdata, self.sg.pstrb]
        else:
            axi = b == "axi"
            self.ch = c = channels(cx, ALL, AXI if axi else AXIL, 1, master=False)
            mb = (AxiBus if axi else AxiLiteBus).from_prefix(cx.top, "axi")
            if self.ram:
                self.dev = (AxiRam if axi else AxiLiteRam)(mb, clk, size=4096, **kw)
            else:
                self.dev = (AxiSlave if axi else AxiLiteSlave)(mb, clk, target=self.t, **kw)
            self.models = [self.dev.write_if, self.dev.read_if]
            self.outs = [c["aw"].ready, c["w"].ready, c["b"].valid, c["ar"].ready, c["r"].valid]
            self.ins = [c["aw"].valid, c["w"].valid, c["b"].ready, c["ar"].valid, c["r"].ready]
        self.beats = cfg.get("beats", 1)

    def master(self, stall):
        cx, clk, c = self.cx, self.clk, self.ch
        return [Tx(cx, clk, c["aw"], Stall(cx, "awvalid", stall.get("aw", 0))), Tx(cx, clk, c["w"], Stall(cx, "wvalid", stall.get("w", 0))), Rx(cx, clk, c["b"], Stall(cx, "bready", stall.get("b", 0))),
                Tx(cx, clk, c["ar"], Stall(cx, "arvalid", stall.get("ar", 0))), Rx(cx, clk, c["r"], Stall(cx, "rready", stall.get("r", 0)))]

    def put(self, ms, i, wa, data, ra):
        aw, w, b, ar, r = ms
        aw.put(awid=i, awaddr=wa, awlen=self.beats - 1, awsize=0, awburst=1)
        for k, d in enumerate(data):
            w.put(wdata=d, wstrb=1, wlast=1 if k == len(data) - 1 else 0)
        ar.put(arid=i, araddr=ra, arlen=self.beats - 1, arsize=0, arburst=1)

    def begin(self):
        if self.bus == "apb":
            self.task = cocotb.start_soon(self.apb_run())
            return
        self.ms = self.master(self.cfg["stall"])
        for k in range(self.cfg["ops"]):
            self.put(self.ms, k, 0x100 + 16 * k, [0xa0 + k] * self.beats, 0x200 + 16 * k)

    async def xfer(self, wr, addr, data, strb):
        """one APB transfer"""
        s = self.sg
        edge = RisingEdge(self.clk)
        for n, v in (("psel", 1), ("penable", 0), ("paddr", addr), ("pwrite", wr), ("pwdata", data), ("pstrb", strb), ("pprot", 0)):
            getattr(s, n).value = v
        await edge
        s.penable.value = 1
        while True:
            await edge
            if s.pready.value:
                break
        s.psel.value = 0
        s.penable.value = 0
        return self.cx.val(s.prdata.value), self.cx.val(s.pslverr.value)

    async def apb_run(self):
        for k in range(self.cfg["ops"]):
            await self.xfer(1 - k % 2, 0x100 + k, 0xa0, 1)

    def before(self):
        pass

    def cut(self):
        if self.bus == "apb":
            self.task.kill()
            self.sg.psel.value = 0
            self.sg.penable.value = 0
            return
        for m in self.ms:
            m.stop()

    def in_reset(self):
        """nothing reaches the target from now on until new operations"""
        self.mark = len(self.t.log)

    def during(self):
        pass

    async def after(self):
        cx, clk = self.cx, self.clk
        await clocks(clk, 2 * vary(cx, self.cfg, "gap"))
        cx.check(len(self.t.log) == self.mark, "nothing is performed in reset")
        self.t.delays = None
        n = self.beats
        wa, ra = cx.addr("waddr", 32, 0), cx.addr("raddr", 32, 0)
        if n > 1:
            cx.assume(cx.and_(wa % 4096 + n <= 4096, ra % 4096 + n <= 4096))
        data = [cx.bits("data", 8) for k in range(n)]
        i = cx.bits("id", 2)
        if self.ram:
            old = self.dev.read(0, 4096)
            cx.assume(wa % 4096 != ra % 4096 if n == 1 else cx.or_(wa % 4096 + n <= ra % 4096, ra % 4096 + n <= wa % 4096))
        if self.bus == "apb":
            _, err = await self.xfer(1, wa, data[0], 1)
            got, err2 = await self.xfer(0, ra, 0, 0)
            cx.check(cx.and_(err == 0, err2 == 0), "response to a new operation")
            got = [got]
            await clocks(clk, 3)
        else:
            ms = self.master(self.cfg["stall2"])
            aw, w, b, ar, r = ms
            self.put(ms, i, wa, data, ra)
            while not (b.items and len(r.items) >= n):
                await RisingEdge(clk)
            await clocks(clk, 4)
            cx.check(len(b.items) == 1 and len(r.items) == n, "one response to a new operation")
            cx.check(b.items[0].bresp == 0, "response to a new operation")
            if self.bus == "axi":
                cx.check(b.items[0].bid == i, "response to a new operation")
            for k, x in enumerate(r.items):
                cx.check(x.rresp == 0, "response to a new operation")
                if self.bus == "axi":
                    cx.check(cx.and_(x.rid == i, x.rlast == (k == n - 1)), "response to a new operation")
            got = [x.rdata for x in r.items]
        if self.ram:
            for k in range(n):
                cx.check(self.dev.read((wa + k) % 4096, 1)[0] == data[k], "new write performed")
                cx.check(got[k] == self.dev.read((ra + k) % 4096, 1)[0], "new read performed")
            return
        log = self.t.log[self.mark:]
        ws = [(a + j, x) for op, a, d, bad in log if op == "w" for j, x in enumerate(d)]
        cx.check(len(ws) == n, "new write performed once", f"{len(ws)}")
        for k, (a, x) in enumerate(ws):
            cx.check(cx.and_(a == wa + k, x == data[k]), "new write performed")
        for k in range(n):
            cx.check(got[k] == content(ra + k), "new read performed")


def slaves(bus, ops, beats, n, stalls):
    out = [dict(bus=bus, how=h, ops=ops, beats=beats, t=(0, n), stall={}, stall2={}, vary=v) for h, v in (("high", BASIC), ("low", STALLS + ("gap",)), ("call", BASIC + ("gap",)))]
    for h, s, s2 in stalls:
        out.append(dict(bus=bus, how=h, ops=ops, beats=beats, t=(1, n), stall=s, stall2=s2, vary=STALLS))
    out.append(dict(bus=bus, how="high", ops=2, beats=beats, t=(1, n), stall={}, stall2={}, delays=(4,), vary=STALLS))
    out.append(dict(bus=bus, how="low", ram=True, ops=1, beats=beats, t=(1, n), stall={}, stall2={}, vary=("cycles",)))
    return out


S_Q = slaves("axi", 2, 2, 9, [("call", dict(w=2), dict(b=1)), ("call", dict(r=1), {}), ("high", dict(aw=1), dict(w=1)), ("high", dict(b=1), {})])
S_Q += slaves("axil", 2, 1, 8, [("call", dict(w=1), dict(b=1)), ("call", dict(r=1), {}), ("low", dict(aw=1), dict(r=1)), ("low", dict(b=1), {})])
S_Q += slaves("apb", 3, 1, 9, [])
S_T = S_Q + [dict(bus=b, how="call", ops=2, beats=2 if b == "axi" else 1, t=(1, 9), stall=dict(w=1, r=1), stall2=dict(b=1), vary=STALLS) for b in ("axi", "axil")] + [dict(bus=b, how=h, ops=3, beats=2 if b == "axi" else 1, t=(0, 14), stall=s, stall2=dict(b=1), delays=d, vary=BASIC + STALLS) for b in ("axi", "axil") for h in ("high", "call") for s, d in ((dict(w=2, r=2), None), (dict(aw=2, ar=1), None), (dict(b=2), (0, 2)), (dict(w=1, b=1), (0, 1)))]


@case("C17", "slave", quick=S_Q, thorough=S_T, max_cycles=150)
async def slave(cx, cfg):
    clk = cx.clock()
    rst = Rst(cx, cfg["how"])
    rst.start(cfg["how"] != "call" and cx.flag("in reset at the start"))
    await scenario(cx, cfg, clk, rst, SlaveDut(cx, clk, cfg, rst.kw()))


# ------------------------------------------------------------------ streams

class Gate:
    """receiver or sender of the testbench which can be cut"""

    def __init__(self, cx, clk, v, r, fields, stall):
        self.cx, self.clk, self.v, self.r, self.fields, self.stall = cx, clk, v, r, fields, stall
        self.taken = []
        self.task = None

    def begin(self):
        self.cycle = self.cx.cycle
        self.rdy = 0
        self.task = cocotb.start_soon(self.run())

    def cut(self):
        self.task.kill()
        if self.cycle != self.cx.cycle:
            self.take()
        if self.r is not None:
            self.r.value = 0


class Receiver(Gate):
    def next_ready(self):
        rdy = 1
        if self.r is not None:
            rdy = self.cx.bits("ready", 1) if self.stall > 0 and not self.src.idle() else 1
            self.r.value = rdy
        return rdy

    def take(self):
        """a transfer at this clock edge"""
        self.cycle = self.cx.cycle
        if self.v is None or self.cx.val(self.v.value) == 1:
            if self.rdy == 1:
                self.taken.append({n: self.cx.val(s.value) for n, s in self.fields.items()})
            else:
                self.stall -= 1

    async def run(self):
        self.cycle = self.cx.cycle
        self.rdy = self.next_ready()
        while True:
            await RisingEdge(self.clk)
            self.take()
            self.rdy = self.next_ready()


class SourceDut(Base):
    """stream source; items queued before the reset stay queued, the one on the bus is dropped"""

    def __init__(self, cx, clk, cfg, kw):
        self.cx, self.clk, self.cfg = cx, clk, cfg
        self.axis = cfg["bus"] == "axis"
        self.n = cfg["n"]
        if self.axis:
            self.s = axis_signals(cx, 1, ("tvalid", "tready", "tlast", "tuser"))
            self.src = AxiStreamSource(AxiStreamBus.from_prefix(cx.top, "s"), clk, **kw)
            self.frames = [Frame(cx, 2, 1, k, "int") for k in range(self.n + 1)]
            self.reported = []
            v, r = self.s["tvalid"], self.s["tready"]
            fields = {k: self.s[k] for k in ("tdata", "tlast", "tuser")}
        else:
            Bus, self.Tr, Source, _, _, vn, rn = stream("named")
            self.s = stream_signals(cx, vn, rn)
            self.src = Source(Bus.from_prefix(cx.top, "s"), clk, **kw)
            self.vals = [{f: cx.bits(f, w) for f, w in FIELDS} for k in range(self.n + 1)]
            v, r = self.s["v"], self.s["r"]
            fields = {f: self.s[f] for f, w in FIELDS}
        self.models = [self.src]
        self.outs = [v]
        self.ins = [r]
        self.rx = Receiver(cx, clk, v, r, fields, cfg["stall"])
        self.rx.src = self.src

    def put(self, k):
        if self.axis:
            f = self.frames[k].make("bytes")
            f.tx_complete = lambda f: self.reported.append(k)
            self.src.send_nowait(f)
        else:
            self.src.send_nowait(self.Tr(**self.vals[k]))

    def begin(self):
        for k in range(self.n):
            self.put(k)
        self.rx.begin()

    def before(self):
        pass

    def cut(self):
        self.rx.cut()
        self.first = self.rx.taken

    def in_reset(self):
        if not hasattr(self, "first"):
            return
        self.kept = self.src.count()
        self.cx.check(self.kept <= self.n, "queue in reset")

    def during(self):
        self.put(self.n)
        self.n += 1

    async def after(self):
        cx = self.cx
        await clocks(self.clk, 2 * vary(cx, self.cfg, "gap"))
        if not hasattr(self, "first"):
            self.first = []
            self.kept = 0
        new = self.n if self.kept or self.first or self.n == self.cfg["n"] else self.n
        if self.n == self.cfg["n"]:
            self.put(self.n)
            self.n += 1
        self.rx.taken = []
        self.rx.stall = self.cfg["stall2"]
        self.rx.begin()
        while not self.src.idle():
            await FallingEdge(self.clk)
        await clocks(self.clk, 3)
        await FallingEdge(self.clk)
        cx.check(self.src.idle() and self.src.empty(), "idle at the end")
        done = len(self.first)
        if self.axis:
            per = 2
            whole = done // per
            rest = self.n - (len(self.rx.taken) // per)
            cx.check(len(self.rx.taken) % per == 0, "whole frames after a reset")
            cx.check(rest == whole or rest == whole + 1, "queued frames are sent after the reset", f"{rest} of {self.n} gone, {whole} sent")
            cx.check(rest == whole + 1 or done % per == 0, "a started frame is not continued")
            for k, f in enumerate(self.frames[rest:self.n]):
                check_beats(cx, self.rx.taken[per * k:per * k + per], f, 1, ("tlast", "tuser"))
            cx.check(self.reported == list(range(self.n)), "the end of every frame, sent or dropped, is reported once", str(self.reported))
        else:
            rest = self.n - len(self.rx.taken)
            cx.check(rest == done or rest == done + 1, "queued transactions are sent after the reset", f"{rest} of {self.n} gone, {done} sent")
            for it, v in zip(self.rx.taken, self.vals[rest:self.n]):
                for f in v:
                    cx.check(it[f] == v[f], "values after a reset")


class SinkDut(Base):
    """stream sink or monitor: transfers before and after a reset, partial frames dropped"""
    starts = False

    def __init__(self, cx, clk, cfg, kw):
        self.cx, self.clk, self.cfg = cx, clk, cfg
        self.axis = cfg["bus"] == "axis"
        self.mon = cfg.get("monitor")
        if self.axis:
            self.s = axis_signals(cx, 1, ("tvalid", "tready", "tlast", "tuser"))
            self.rx = (AxiStreamMonitor if self.mon else AxiStreamSink)(AxiStreamBus.from_prefix(cx.top, "s"), clk, **kw)
            self.v, self.r = self.s["tvalid"], self.s["tready"]
            self.fields = {k: self.s[k] for k in ("tdata", "tlast", "tuser")}
        else:
            Bus, self.Tr, _, Sink, Monitor, vn, rn = stream("named")
            self.s = stream_signals(cx, vn, rn)
            self.rx = (Monitor if self.mon else Sink)(Bus.from_prefix(cx.top, "s"), clk, **kw)
            self.v, self.r = self.s["v"], self.s["r"]
            self.fields = {f: self.s[f] for f, w in FIELDS}
        self.v.set(0)
        self.models = [self.rx]
        if self.mon:
            self.r.set(0)
            self.outs = []
            self.ins = [self.v, self.r]
        else:
            self.outs = [self.r]
            self.ins = [self.v]
        self.sent = []
        self.uncertain = None
        self.task = None
        self.frames = []

    async def run(self, stall):
        """sends the transfers of two-transfer frames"""
        cx = self.cx
        cur = None
        k = 0
        while True:
            if cur is None and (stall <= 0 or cx.flag("send")):
                cur = {n: cx.bits(n, len(s)) for n, s in self.fields.items()}
                if self.axis:
                    cur["tlast"] = k % 2
                    k += 1
                for n, s in self.fields.items():
                    s.value = cur[n]
                self.v.value = 1
            elif cur is None:
                stall -= 1
                self.v.value = 0
            rdy = 1
            if self.mon:
                rdy = cx.choice("ready", (1, 0)) if stall > 0 else 1
                stall -= 1 - rdy
                self.r.value = rdy
            self.offered = cur
            await RisingEdge(self.clk)
            if not self.mon:
                rdy = cx.val(self.r.value)
            if cur is not None and rdy == 1:
                self.sent.append(cur)
                self.last_cycle = cx.cycle
                cur = None

    def begin(self):
        self.offered = None
        self.last_cycle = -1
        self.task = cocotb.start_soon(self.run(self.cfg["stall"]))

    def before(self):
        self.at_edge = self.cx.cycle

    def cut(self):
        self.task.kill()
        self.v.value = 0
        if self.mon:
            self.r.value = 0

    def group(self, sent):
        if not self.axis:
            return [[x] for x in sent]
        out = []
        for i in range(0, len(sent) - 1, 2):
            out.append(sent[i:i + 2])
        return out

    def in_reset(self):
        if self.task is None:
            return
        cx = self.cx
        got = self.rx.count()
        # a handshake at the edge of the reset itself may count or not
        opts = [self.group(self.sent)]
        if self.sent and self.last_cycle == self.at_edge:
            opts.append(self.group(self.sent[:-1]))
        if self.offered is not None:
            opts.append(self.group(self.sent + [self.offered]))
        fit = [o for o in opts if len(o) == got]
        cx.check(len(fit) > 0, "transfers before a reset", f"{got} received")
        self.frames = fit[0]
        if self.axis:
            cx.check(self.rx.idle(), "idle in reset")

    def during(self):
        pass

    async def after(self):
        cx = self.cx
        await clocks(self.clk, 2 * vary(cx, self.cfg, "gap"))
        old = self.frames
        self.sent = []
        self.task = cocotb.start_soon(self.run(self.cfg["stall2"]))
        while len(self.sent) < self.cfg["n"]:
            await FallingEdge(self.clk)
        self.task.kill()
        self.v.value = 0
        await clocks(self.clk, 2)
        await FallingEdge(self.clk)
        exp = old + self.group(self.sent)
        cx.check(self.rx.count() == len(exp), "transfers after a reset", f"{self.rx.count()} instead of {len(exp)}")
        for e in exp:
            x = self.rx.recv_nowait()
            if self.axis:
                cx.check(len(x.tdata) == 2, "frames after a reset")
                for a, b in zip(x.tdata, e):
                    cx.check(a == b["tdata"], "frames after a reset")
            else:
                for f in self.fields:
                    cx.check(cx.val(getattr(x, f)) == e[0][f], "values after a reset")


ST_Q = [dict(c, vary=v) for b in ("stream", "axis") for c in hows(bus=b, n=3, t=(0, 7), stall=1, stall2=1) for v in (BASIC, START, STALLS) if (c["how"], v) not in (("low", BASIC), ("high", STALLS))]
ST_T = ST_Q + [c for b in ("stream", "axis") for c in hows(bus=b, n=4, t=(0, 12), stall=3, stall2=2)]


@case("C17", "source", quick=ST_Q, thorough=ST_T, max_cycles=100)
async def source(cx, cfg):
    clk = cx.clock()
    rst = Rst(cx, cfg["how"])
    rst.start(cfg["how"] != "call" and cx.flag("in reset at the start"))
    await scenario(cx, cfg, clk, rst, SourceDut(cx, clk, cfg, rst.kw()))


SK_Q = [dict(c, n=3, monitor=m, stall2=0) for m in (False, True) for c in ST_Q if (not m or c["how"] != "low") and (c["how"] != "call" or c["vary"] != STALLS)]
SK_Q += [dict(bus=b, how="low", n=3, monitor=m, t=(1, 5), stall=0, stall2=1, vary=("cycles",)) for b in ("stream", "axis") for m in (False, True)]
SK_T = [dict(c, n=4, monitor=m) for m in (False, True) for c in ST_T]


@case("C17", "sink", quick=SK_Q, thorough=SK_T, max_cycles=100)
async def sink(cx, cfg):
    clk = cx.clock()
    rst = Rst(cx, cfg["how"])
    rst.start(cfg["how"] != "call" and cx.flag("in reset at the start"))
    await scenario(cx, cfg, clk, rst, SinkDut(cx, clk, cfg, rst.kw()))


@case("C17", "both", quick=[dict(n=4)], thorough=[dict(n=7)], must=["cover:reset", "cover:running"])
async def both(cx, cfg):
    """signal and call together: in reset while either is asserted"""
    clk = cx.clock()
    low = cx.flag("active low")
    sig = cx.sig("rst", 1)
    level = cx.choice("level", (0, 1))
    sig.set(level)
    Bus, Tr, _, Sink, _, vn, rn = stream("named")
    s = stream_signals(cx, vn, rn)
    s["v"].set(0)
    rx = Sink(Bus.from_prefix(cx.top, "s"), clk, reset=sig, reset_active_level=not low)
    local = 0
    for k in range(cfg["n"]):
        await clocks(clk, 3)
        r = cx.val(s["r"].value)
        if level == (0 if low else 1) or local:
            cx.check(r == 0, "in reset while signal or call asserts it")
            cx.cover("reset")
        else:
            cx.check(r == 1, "running while neither signal nor call asserts reset")
            cx.cover("running")
        act = cx.choice("action", ("level", "assert", "release", "pulse"))
        if act == "level":
            level = 1 - level
            sig.value = level
        elif act == "pulse":
            rx.assert_reset()
            local = 0
        else:
            local = 1 if act == "assert" else 0
            rx.assert_reset(cx.choice("form", (True, 1)) if local else cx.choice("form", (False, 0)))
