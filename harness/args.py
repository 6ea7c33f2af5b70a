"""Arguments of master operations: accepted exactly when they fit the bus."""
import cocotb
from cocotb.triggers import RisingEdge, FallingEdge
from cocotbext.axi import AxiBus, AxiMaster, AxiLiteBus, AxiLiteMaster, ApbBus, ApbMaster, AxiBurstType
from symx.api import case
from harness.common import channels, AXI, AXIL, Rx, Tx, clocks
from harness.apb import Sigs, Dev

ALL = ("aw", "w", "b", "ar", "r")
DEFAULT = dict(lock=0, cache=3, prot=2, qos=0, region=0, user=0, wuser=0)
WIDTH = dict(lock=1, cache=4, prot=3, qos=4, region=4, user=4, wuser=4)


class Slave:
    """all channels of a bus: records requests, answers them"""

    def __init__(self, cx, clk, bus, lanes, addrw, idw, opt):
        self.bus = bus
        if bus == "apb":
            sg = Sigs(cx, lanes, addrw, opt=opt)
            self.m = ApbMaster(ApbBus.from_prefix(cx.top, "apb"), clk)
            self.dev = Dev(cx, clk, sg, lambda: 99)
            self.valids = [sg.psel, sg.penable]
            return
        axi = bus == "axi"
        ch = channels(cx, ALL, AXI if axi else AXIL, lanes, addrw, idw, opt=opt)
        self.m = AxiMaster(AxiBus.from_prefix(cx.top, "axi"), clk) if axi else AxiLiteMaster(AxiLiteBus.from_prefix(cx.top, "axi"), clk)
        self.valids = [ch["aw"].valid, ch["w"].valid, ch["ar"].valid]
        self.cx = cx
        self.r = Tx(cx, clk, ch["r"])
        self.b = Tx(cx, clk, ch["b"])
        self.aw, self.w, self.ar = Rx(cx, clk, ch["aw"]), Rx(cx, clk, ch["w"], None, self.on_w), Rx(cx, clk, ch["ar"], None, self.on_ar)

    def on_w(self, it):
        if getattr(it, "wlast", 1) == 1:
            self.b.put(bid=getattr(self.aw.items[-1], "awid", 0) if self.aw.items else 0)

    def on_ar(self, a):
        n = self.cx.conc(getattr(a, "arlen", 0)) + 1
        for i in range(n):
            self.r.put(rid=getattr(a, "arid", 0), rlast=1 if i == n - 1 else 0)

    def requests(self, d):
        if self.bus == "apb":
            return [x["req"] for x in self.dev.sent]
        return self.aw.items if d == "w" else self.ar.items

    def total(self):
        if self.bus == "apb":
            return len(self.dev.sent)
        return len(self.aw.items) + len(self.ar.items)


def attempt(cx, f):
    """(accepted, result)"""
    try:
        return True, f()
    except ValueError:
        return False, None


async def trial(cx, clk, s, d, how, address, n, legal, kw, args, data=None):
    """start one operation, see whether that is right"""
    m = s.m
    if data is None and d == "w":
        data = bytes(n)
    accepted, ev, done = None, None, []
    start = cx.cycle
    if how == "init":
        accepted, ev = attempt(cx, lambda: m.init_write(address, data, **kw) if d == "w" else m.init_read(address, n, **kw))
    else:
        async def call():
            try:
                done.append(await (m.write(address, data, **kw) if d == "w" else m.read(address, n, **kw)))
            except ValueError:
                done.append("rejected at %d" % (cx.cycle - start))
        cocotb.start_soon(call())
        await FallingEdge(clk)
        accepted = not (done and isinstance(done[0], str))
        if not accepted:
            cx.check(done[0] == "rejected at 0", "rejected immediately")
    cx.check(legal if accepted else cx.not_(legal), "accepted exactly when it fits", "accepted" if accepted else "rejected")
    if not accepted:
        cx.cover("rejected")
        cx.check(m.idle(), "nothing pending after a rejected operation")
        for k in range(4):
            await RisingEdge(clk)
            for v in s.valids:
                cx.check(cx.val(v.value) == 0, "no bus activity for a rejected operation")
        # the master is usable
        before = s.total()
        if d == "w":
            r = await m.write(0, b"\1")
        else:
            r = await m.read(0, 1)
        await clocks(clk, 2)
        cx.check(r.address == 0 and s.total() == before + 1, "an operation after a rejected one")
        return
    cx.cover("accepted")
    if ev is not None:
        if not ev.is_set():
            await ev.wait()
        r = ev.data
    else:
        while not done:
            await RisingEdge(clk)
        r = done[0]
    cx.check(r.address == address, "accepted operations are performed")
    if n:
        reqs = s.requests(d)
        cx.check(len(reqs) >= 1, "accepted operations are performed")
        pre = "p" if s.bus == "apb" else "aw" if d == "w" else "ar"
        for q in reqs:
            for f, v in args.items():
                if hasattr(q, pre + f):
                    cx.check(getattr(q, pre + f) == v, "accepted arguments appear on the bus", f)
        a = getattr(reqs[0], pre + "addr")
        lanes = s.lanes
        cx.check(a // lanes == address // lanes, "accepted operations are performed", "address")


def setup(cx, cfg, opt):
    clk = cx.clock()
    s = Slave(cx, clk, cfg["bus"], cfg["lanes"], cfg.get("addrw", 32), cfg.get("idw", 2), opt)
    s.lanes = cfg["lanes"]
    return clk, s


def everything(bus):
    return ("pprot", "pslverr") if bus == "apb" else True


R_Q = [dict(bus=b, lanes=l, addrw=w, lens=n) for b, l, w, n in (
    ("axi", 1, 32, (0, 1, 3)), ("axi", 4, 12, (1, 2, 5)), ("axi", 8, 64, (1, 8, 9)), ("axil", 1, 32, (0, 1, 3)), ("axil", 4, 12, (1, 2, 5)), ("axil", 8, 64, (1, 8, 9)), ("apb", 1, 32, (0, 1, 3)), ("apb", 4, 12, (1, 2, 5)), ("apb", 8, 64, (1, 8, 9)))]
R_T = R_Q + [dict(bus=b, lanes=l, addrw=w, lens=n) for b in ("axi", "axil", "apb") for l, w, n in ((2, 16, (0, 1, 2, 3, 4, 5)), (4, 48, (0, 3, 4, 7, 8)), (16, 32, (1, 15, 16, 17)), (1, 8, (0, 1, 2, 4)))]


@case("C24", "range", quick=R_Q, thorough=R_T, must=["cover:accepted", "cover:rejected"])
async def address_range(cx, cfg):
    """any address, also outside the address space, several lengths"""
    clk, s = setup(cx, cfg, everything(cfg["bus"]))
    w, lanes = cfg["addrw"], cfg["lanes"]
    d = cx.choice("direction", ("w", "r"))
    how = cx.choice("call", ("init", "await"))
    n = cx.choice("len", cfg["lens"])
    low = cx.choice("addr.low", range(lanes))
    address = cx.int("addr.hi", -2, (1 << w) // lanes + 2) * lanes + low
    fixed = cfg["bus"] == "axi" and cx.flag("fixed")
    legal = cx.and_(address >= 0, address < 1 << w)
    if not fixed:
        legal = cx.and_(legal, address + n <= 1 << w)
    await RisingEdge(clk)
    await trial(cx, clk, s, d, how, address, n, legal, dict(burst=AxiBurstType.FIXED) if fixed else {}, {})


@case("C24", "length", quick=[dict(bus=b, lanes=2) for b in ("axi", "axil", "apb")], must=["cover:rejected"])
async def length(cx, cfg):
    """a negative length, something else than bytes as data, something else than an event"""
    clk, s = setup(cx, cfg, everything(cfg["bus"]))
    kind = cx.choice("argument", ("length", "data", "event w", "event r", "list", "big"))
    await RisingEdge(clk)
    if kind == "length":
        n = cx.int("len", -4, 2)
        cx.assume(cx.or_(n < 0, n == 2))
        await trial(cx, clk, s, "r", cx.choice("call", ("init", "await")), 0x100, n, n >= 0, {}, {})
    elif kind == "data":
        await trial(cx, clk, s, "w", cx.choice("call", ("init", "await")), 0x100, 2, False, {}, {}, data=cx.choice("data", (0, 5)))
    elif kind == "list":
        v = [1, cx.int("v", 0, 255), 3]
        await trial(cx, clk, s, "w", cx.choice("call", ("init", "await")), 0x100, 3, True, {}, {}, data=bytearray(v))
    elif kind == "big":
        await trial(cx, clk, s, "w", cx.choice("call", ("init", "await")), 0x100, 3, False, {}, {}, data=[1, cx.choice("v", (256, -1)), 3])
    else:
        await trial(cx, clk, s, kind[-1], "init", 0x100, 2, False, dict(event=cx.choice("event", (5, "x", True))), {})


@case("C24", "ids", quick=[dict(bus="axi", lanes=l, idw=w) for l, w in ((1, 1), (2, 3))], thorough=[dict(bus="axi", lanes=2, idw=w) for w in (1, 2, 4, 6)], must=["cover:accepted", "cover:rejected"])
async def ids(cx, cfg):
    clk, s = setup(cx, cfg, True)
    d = cx.choice("direction", ("w", "r"))
    i = cx.int("id", 0, (2 << cfg["idw"]) + 1)
    await RisingEdge(clk)
    pre = "aw" if d == "w" else "ar"
    await trial(cx, clk, s, d, cx.choice("call", ("init", "await")), 0x100, 2, i < 1 << cfg["idw"], {pre + "id": i}, dict(id=i))


@case("C24", "burst", quick=[dict(bus="axi", lanes=l) for l in (1, 2, 8)], thorough=[dict(bus="axi", lanes=l) for l in (1, 2, 4, 8, 16, 32, 128)], must=["cover:accepted", "cover:rejected"])
async def burst(cx, cfg):
    """size and burst type"""
    lanes = cfg["lanes"]
    clk, s = setup(cx, cfg, True)
    d = cx.choice("direction", ("w", "r"))
    kw = {}
    args = {}
    legal = True
    if cx.flag("size given"):
        z = cx.int("size", 0, 9)
        kw["size"] = z
        legal = z < lanes.bit_length()
        args["size"] = z
    else:
        args["size"] = lanes.bit_length() - 1
    t = cx.choice("burst", (0, 1, 3, 4, -1))
    if cx.flag("burst given"):
        kw["burst"] = t
        legal = cx.and_(legal, t in (0, 1))
        args["burst"] = t
    else:
        args["burst"] = 1
    await RisingEdge(clk)
    await trial(cx, clk, s, d, cx.choice("call", ("init", "await")), 0x100, 3, legal, kw, args)


def optional(bus):
    if bus == "axi":
        return ("lock", "cache", "prot", "qos", "region", "user")
    return ("prot",)


SB_Q = [dict(bus="axi", lanes=1, others=o) for o in (True, False)] + [dict(bus="axil", lanes=1, others=o) for o in (True, False)] + [dict(bus="apb", lanes=1, others=o) for o in (True, False)]


@case("C24", "sideband", quick=SB_Q, thorough=SB_Q + [dict(bus="axi", lanes=2, others=o, two=True) for o in (True, False)], must=["cover:accepted"])
async def sideband(cx, cfg):
    """a value for a signal which may not be connected"""
    bus = cfg["bus"]
    d = cx.choice("direction", ("w", "r"))
    names = optional(bus) + (("wuser",) if bus == "axi" and d == "w" else ())
    given = [cx.choice("signal", names)]
    if cfg.get("two"):
        given.append(cx.choice("signal", [n for n in names if n != given[0]]))
    there = {}
    for n in names:
        there[n] = cx.flag("connected " + n) if n in given else cfg["others"]
    pre = "p" if bus == "apb" else "aw" if d == "w" else "ar"
    # the opposite direction has everything the other way round
    opt = []
    for n in names:
        if bus == "apb":
            opt += ["pprot"] if there[n] else []
        elif n == "wuser":
            opt += ["wuser"] if there[n] else []
        else:
            opt.append((pre if there[n] else "ar" if pre == "aw" else "aw") + n)
    if bus == "axi" and d == "r":
        opt.append("wuser")
    clk, s = setup(cx, cfg, tuple(opt))
    kw, args, legal = {}, {}, True
    for n in given:
        v = cx.bits(n, WIDTH[n])
        aslist = n == "wuser" and cx.flag("list")
        kw[n] = [v, v] if aslist else v
        if aslist:
            cx.assume(v != 0)
        legal = cx.and_(legal, cx.or_(there[n], v == DEFAULT[n]))
        if n != "wuser":
            args[n] = v
    await RisingEdge(clk)
    await trial(cx, clk, s, d, cx.choice("call", ("init", "await")), 0x100, 2, legal, kw, args)


@case("C24", "enum", quick=[dict(bus="axi", lanes=1)], must=["cover:accepted", "cover:rejected"])
async def enums(cx, cfg):
    """lock values which do not exist (other sideband values out of range are not claimed)"""
    clk, s = setup(cx, cfg, True)
    d = cx.choice("direction", ("w", "r"))
    n = "lock"
    v = cx.int(n, -1, 9)
    top = 2
    await RisingEdge(clk)
    await trial(cx, clk, s, d, cx.choice("call", ("init", "await")), 0x100, 2, cx.and_(v >= 0, v < top), {n: v}, {n: v})
