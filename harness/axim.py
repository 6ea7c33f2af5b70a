"""AXI master: data placement, reassembly, burst legality, responses."""
import cocotb
from cocotb.triggers import RisingEdge
from cocotbext.axi import AxiWriteBus, AxiReadBus, AxiMasterWrite, AxiMasterRead, AxiBurstType, AxiResp, AxiProt, AxiLockType
from symx.api import case
from harness.common import channels, AXI, Rx, Tx, pick, Stall, clocks, always


def beat_addr(cx, addr, size, burst_fixed, n):
    """AXI4 A3.4.1: address of transfer n of a burst"""
    nb = 1 << size
    if burst_fixed or n == 0:
        return addr
    return (addr >> size << size) + n * nb


class WriteSlave:
    """collects bursts, answers each with one response once complete"""

    def __init__(self, cx, clk, ch, awp=None, wp=None, bp=None, resp=None):
        self.cx = cx
        self.bursts = []
        self.k = 0
        self.resp = resp or (lambda i: {})
        self.answered = 0
        self.b = Tx(cx, clk, ch["b"], bp)
        self.w = Rx(cx, clk, ch["w"], wp, self.on_any)
        self.aw = Rx(cx, clk, ch["aw"], awp, self.on_any)

    def on_any(self, it):
        # beats belong to the bursts in order
        cx = self.cx
        while self.answered < len(self.aw.items):
            a = self.aw.items[self.answered]
            n = cx.conc(a.awlen) + 1
            if len(self.w.items) - self.k < n:
                return
            a.beats = self.w.items[self.k:self.k + n]
            self.k += n
            self.b.put(bid=a.awid, **self.resp(self.answered))
            self.answered += 1


def check_write(cx, sl, address, data, size, burst, lanes, maxlen, args, wuser=0, aw=None):
    """the bursts carry the bytes to their addresses; legal bursts"""
    aws = sl.aw.items if aw is None else aw
    nb = 1 << size
    n = len(data)
    fixed = burst == AxiBurstType.FIXED
    cover = [0] * n
    total = 0
    k = 0
    seq = 0
    for a in aws:
        cx.check(a.awlen <= (min(16, maxlen) if fixed else maxlen) - 1, "burst length")
        cx.check(a.awsize == size, "burst size")
        cx.check(a.awburst == burst, "burst type")
        nbeats = cx.conc(a.awlen) + 1
        if not fixed:
            first = a.awaddr
            last = (a.awaddr >> size << size) + nbeats * nb - 1
            cx.check(first >> 12 == last >> 12, "4k boundary", f"{first} {last}")
        for s, v in args.items():
            cx.check(getattr(a, s) == v, "address sideband", s)
        for i, w in enumerate(a.beats):
            cx.check(w.wlast == (1 if i == nbeats - 1 else 0), "wlast")
            if hasattr(w, "wuser"):
                if isinstance(wuser, list):
                    cx.check(w.wuser == (wuser[k] if k < len(wuser) else 0), "wuser")
                else:
                    cx.check(w.wuser == wuser, "wuser")
            ba = beat_addr(cx, a.awaddr, size, fixed, i)
            word = ba // lanes * lanes
            lower = ba - word
            upper = (ba >> size << size) + nb - 1 - word
            for j in range(lanes):
                s = (w.wstrb >> j) & 1
                byte = (w.wdata >> (8 * j)) & 0xff
                if fixed:
                    idx = k * (upper - lower + 1) + j - lower
                else:
                    idx = word + j - address
                on = s == 1
                inside = cx.and_(idx >= 0, idx < n)
                cx.check(cx.implies(on, cx.and_(j >= lower, j <= upper)), "strobe inside the active lanes", f"lane {j}")
                cx.check(cx.implies(on, inside), "byte outside the requested range", f"lane {j}")
                cx.check(cx.implies(cx.and_(on, inside), byte == pick(cx, data, idx)), "byte value", f"lane {j}")
                for q in range(n):
                    cover[q] = cover[q] + cx.ite(cx.and_(on, idx == q), 1, 0)
            k += 1
    for q in range(n):
        cx.check(cover[q] == 1, "every byte written exactly once", f"{q}")
    cx.check(k == len(sl.w.items) if aw is None else True, "no extra beats")


W_QUICK = [dict(lanes=1, lens=(0, 1, 2, 3), maxb=256), dict(lanes=2, lens=(0, 1, 2, 3, 5), maxb=256),
           dict(lanes=4, lens=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9), maxb=256), dict(lanes=4, lens=(5, 8, 9), maxb=2),
           dict(lanes=8, lens=(1, 3, 8, 9, 17), maxb=256), dict(lanes=16, lens=(1, 17), maxb=256, sizes=(0, 2, 4))]
W_DEEP = W_QUICK + [dict(lanes=4, lens=(10, 11, 12, 13, 16, 17), maxb=m) for m in (1, 2, 3, 256)] + [
    dict(lanes=8, lens=(2, 4, 5, 6, 7, 10, 16, 18, 24, 25), maxb=m) for m in (1, 3, 256)] + [
    dict(lanes=16, lens=(1, 15, 16, 17, 33), maxb=256), dict(lanes=32, lens=(1, 31, 33), maxb=256, sizes=(0, 3, 5)),
    dict(lanes=4, lens=(3, 4, 5, 9), maxb=256, addrw=64), dict(lanes=2, lens=(1, 2, 3, 4, 5), maxb=2, addrw=16)]

DEFAULTS = dict(lock=0, cache=3, prot=2, qos=0, region=0, user=0)


def wargs(d):
    return {"aw" + k: v for k, v in d.items()}


def rargs(d):
    return {"ar" + k: v for k, v in d.items()}


@case(["C01", "C03"], "write", quick=W_QUICK, thorough=W_DEEP, max_cycles=400)
async def write(cx, cfg):
    lanes = cfg["lanes"]
    addrw = cfg.get("addrw", 32)
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b"), AXI, lanes, addrw)
    m = AxiMasterWrite(AxiWriteBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    sl = WriteSlave(cx, clk, ch)
    n = cx.choice("len", cfg["lens"])
    data = cx.bytes("data", n)
    address = cx.addr("addr", addrw, lanes.bit_length() - 1)
    size = cx.choice("size", cfg.get("sizes") or range(lanes.bit_length()))
    cx.assume(address + n <= 1 << addrw)
    await RisingEdge(clk)
    r = await m.write(address, data, size=size)
    cx.check(r.address == address, "result address")
    cx.check(r.length == n, "result length")
    cx.check(r.resp == AxiResp.OKAY, "result resp")
    check_write(cx, sl, address, data, size, AxiBurstType.INCR, lanes, min(cfg["maxb"], 256), wargs(DEFAULTS))
    cx.obs("bursts", len(sl.aw.items))


@case(["C01", "C03"], "write_fixed", quick=[dict(lanes=4, lens=(1, 2, 4, 6, 8), maxb=256), dict(lanes=2, lens=(2, 3, 4), maxb=2), dict(lanes=1, lens=(16, 17, 33), maxb=256)],
      thorough=[dict(lanes=4, lens=range(1, 13), maxb=256), dict(lanes=2, lens=range(1, 8), maxb=2), dict(lanes=8, lens=(1, 4, 8, 16), maxb=256), dict(lanes=1, lens=(15, 16, 17, 33), maxb=256)])
async def write_fixed(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b"), AXI, lanes)
    m = AxiMasterWrite(AxiWriteBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    sl = WriteSlave(cx, clk, ch)
    n = cx.choice("len", cfg["lens"])
    data = cx.bytes("data", n)
    address = cx.addr("addr", 32, lanes.bit_length() - 1)
    size = cx.choice("size", range(lanes.bit_length()))
    await RisingEdge(clk)
    r = await m.write(address, data, size=size, burst=AxiBurstType.FIXED)
    cx.check(r.resp == AxiResp.OKAY, "result resp")
    check_write(cx, sl, address, data, size, AxiBurstType.FIXED, lanes, cfg["maxb"], wargs(DEFAULTS))


@case("C03", "write_sideband", quick=[dict(lanes=2, maxb=1, idw=2, stall=1, n=3)],
      thorough=[dict(lanes=2, maxb=1, idw=2, stall=2, n=5), dict(lanes=4, maxb=2, idw=4, stall=1, n=14), dict(lanes=1, maxb=1, idw=1, stall=3, n=2)])
async def write_sideband(cx, cfg):
    """sideband values and IDs on every burst, with back pressure"""
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b"), AXI, lanes, idw=cfg["idw"])
    m = AxiMasterWrite(AxiWriteBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    sl = WriteSlave(cx, clk, ch, Stall(cx, "awready", cfg["stall"]), Stall(cx, "wready", cfg["stall"]))
    n = cfg["n"]
    data = cx.bytes("data", n)
    address = cx.addr("addr", 32, lanes.bit_length() - 1)
    cx.assume(address + n <= 1 << 32)
    a = dict(lock=cx.bits("lock", 1), cache=cx.bits("cache", 4), prot=cx.bits("prot", 3), qos=cx.bits("qos", 4), region=cx.bits("region", 4),
             user=cx.bits("user", 4))
    wl = cx.flag("wuser list")
    if wl:
        wuser = [cx.bits("wuser", 4) for i in range(2)]
    else:
        wuser = cx.bits("wuser", 4)
    explicit = cx.flag("explicit id")
    aid = cx.bits("id", cfg["idw"]) if explicit else None
    size = lanes.bit_length() - 1
    await RisingEdge(clk)
    if cx.flag("init"):
        ev = m.init_write(address, data, awid=aid, wuser=wuser, **a)
        await ev.wait()
        r = ev.data
    else:
        r = await m.write(address, data, awid=aid, wuser=wuser, **a)
    ids = wargs(a)
    if explicit:
        ids["awid"] = aid
    else:
        ids["awid"] = sl.aw.items[0].awid
    cx.check(r.resp == AxiResp.OKAY, "result resp")
    check_write(cx, sl, address, data, size, AxiBurstType.INCR, lanes, cfg["maxb"], ids, wuser=wuser)


LONG = [dict(lanes=1, lens=(255, 256, 257, 258), maxb=256), dict(lanes=2, lens=(511, 513, 514), maxb=256), dict(lanes=4, lens=(70,), maxb=16),
        dict(lanes=1, lens=(258,), maxb=300)]
LONG_T = LONG + [dict(lanes=1, lens=(510, 511, 512, 513, 514), maxb=256), dict(lanes=2, lens=(1024, 1030), maxb=256),
                 dict(lanes=8, lens=(2048, 2049, 2056), maxb=256), dict(lanes=8, lens=(300,), maxb=17), dict(lanes=1, lens=(5,), maxb=0),
                 dict(lanes=4, lens=(1023, 1024, 1025, 1030), maxb=256)]


def long_addr(cx, total):
    """addresses around the interesting places of a page, any page"""
    page = cx.bits("page", 20)
    low = cx.choice("low", (0, 1, 0xfff, 0x800, 0x1000 - total, 0x1000 - total + 1, 0x1000 - 256, 0x1000 - 257) if total < 0xfff else (0, 1, 0xfff, 0x800))
    a = page * 0x1000 + low
    cx.assume(a + total <= 1 << 32)
    return a, low


@case(["C01", "C03"], "write_long", quick=LONG, thorough=LONG_T, max_cycles=4000, path_s=300,
      note="long transfers: page symbolic, page offset from a list, data a fixed pattern")
async def write_long(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b"), AXI, lanes, opt=("wstrb",))
    m = AxiMasterWrite(AxiWriteBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    sl = WriteSlave(cx, clk, ch)
    n = cx.choice("len", cfg["lens"])
    data = bytes([(i * 7 + 3) & 0xff for i in range(n)])
    address, low = long_addr(cx, n)
    await RisingEdge(clk)
    await m.write(address, data)
    maxb = max(1, min(256, cfg["maxb"]))
    nb = lanes
    off = low % nb
    k = 0
    for a in sl.aw.items:
        cnt = cx.conc(a.awlen) + 1
        cx.check(cnt <= maxb, "burst length")
        start = address if k == 0 else address - off + k * nb
        cx.check(a.awaddr == start, "burst address")
        end = (start // nb * nb) + cnt * nb - 1
        cx.check(start >> 12 == end >> 12, "4k boundary")
        for i, w in enumerate(a.beats):
            cx.check(w.wlast == (i == cnt - 1), "wlast")
            for j in range(lanes):
                idx = k * nb + j - off
                on = 0 <= idx < n
                cx.check(((w.wstrb >> j) & 1) == on, "strobe")
                if on:
                    cx.check(((w.wdata >> (8 * j)) & 0xff) == data[idx], "byte value")
            k += 1
    cx.check(k == (n + off + nb - 1) // nb, "beat count")


class ReadSlave:
    """answers bursts with fresh data, in order"""

    def __init__(self, cx, clk, ch, arp=None, rp=None, resp=None):
        self.cx = cx
        self.resp = resp
        self.r = Tx(cx, clk, ch["r"], rp)
        self.lanes = len(ch["r"].sigs["rdata"]) // 8
        self.ar = Rx(cx, clk, ch["ar"], arp, self.on_ar)
        self.n = 0

    def on_ar(self, a):
        cx = self.cx
        a.beats = []
        cnt = cx.conc(a.arlen) + 1
        for i in range(cnt):
            d = cx.bytes("rdata", self.lanes)
            a.beats.append(d)
            kw = self.resp(self.n) if self.resp else {}
            self.n += 1
            self.r.put(rid=a.arid, rdata=int.from_bytes(d, "little"), rlast=1 if i == cnt - 1 else 0, **kw)


def check_read(cx, ars, address, n, result, size, burst, lanes, maxlen, args):
    nb = 1 << size
    fixed = burst == AxiBurstType.FIXED
    cover = [0] * n
    expect = [0] * n
    k = 0
    for a in ars:
        cx.check(a.arlen <= (min(16, maxlen) if fixed else maxlen) - 1, "burst length")
        cx.check(a.arsize == size, "burst size")
        cx.check(a.arburst == burst, "burst type")
        cnt = len(a.beats)
        if not fixed:
            last = (a.araddr >> size << size) + cnt * nb - 1
            cx.check(a.araddr >> 12 == last >> 12, "4k boundary")
        for s, v in args.items():
            cx.check(getattr(a, s) == v, "address sideband", s)
        for i in range(cnt):
            ba = beat_addr(cx, a.araddr, size, fixed, i)
            word = ba // lanes * lanes
            lower = ba - word
            upper = (ba >> size << size) + nb - 1 - word
            for j in range(lanes):
                idx = k * (upper - lower + 1) + j - lower if fixed else word + j - address
                act = cx.and_(j >= lower, j <= upper)
                for q in range(n):
                    hit = cx.and_(act, idx == q)
                    cover[q] = cover[q] + cx.ite(hit, 1, 0)
                    expect[q] = cx.ite(hit, a.beats[i][j], expect[q])
            k += 1
    cx.check(len(result.data) == n, "result length")
    for q in range(n):
        cx.check(cover[q] == 1, "every byte read exactly once")
        cx.check(result.data[q] == expect[q], "byte value", f"{q}")


@case(["C02", "C03"], "read", quick=W_QUICK, thorough=W_DEEP, max_cycles=400)
async def read(cx, cfg):
    lanes = cfg["lanes"]
    addrw = cfg.get("addrw", 32)
    clk = cx.clock()
    ch = channels(cx, ("ar", "r"), AXI, lanes, addrw)
    m = AxiMasterRead(AxiReadBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    sl = ReadSlave(cx, clk, ch)
    n = cx.choice("len", cfg["lens"])
    address = cx.addr("addr", addrw, lanes.bit_length() - 1)
    size = cx.choice("size", cfg.get("sizes") or range(lanes.bit_length()))
    cx.assume(address + n <= 1 << addrw)
    await RisingEdge(clk)
    r = await m.read(address, n, size=size)
    cx.check(r.address == address, "result address")
    cx.check(r.resp == AxiResp.OKAY, "result resp")
    check_read(cx, sl.ar.items, address, n, r, size, AxiBurstType.INCR, lanes, min(cfg["maxb"], 256), rargs(DEFAULTS))
    cx.obs("data", r.data)


@case("C02", "read_codes", quick=[dict(lanes=2, lens=(1, 3, 5), maxb=256, sizes=(0, 1)), dict(lanes=4, lens=(6,), maxb=1, sizes=(2,))],
      thorough=[dict(lanes=2, lens=(1, 3, 5, 6), maxb=256, sizes=(0, 1)), dict(lanes=4, lens=(4, 6, 9), maxb=1, sizes=(1, 2)), dict(lanes=8, lens=(3, 9), maxb=2, sizes=(1, 3))],
      note="the data do not depend on the response codes")
async def read_codes(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("ar", "r"), AXI, lanes)
    m = AxiMasterRead(AxiReadBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    codes = []

    def resp(i):
        codes.append(cx.bits("rresp", 2))
        return dict(rresp=codes[-1])
    sl = ReadSlave(cx, clk, ch, resp=resp)
    n = cx.choice("len", cfg["lens"])
    address = cx.addr("addr", 32, lanes.bit_length() - 1)
    size = cx.choice("size", cfg["sizes"])
    cx.assume(address + n <= 1 << 32)
    lock = cx.bits("lock", 1)
    await RisingEdge(clk)
    r = await m.read(address, n, size=size, lock=lock)
    check_read(cx, sl.ar.items, address, n, r, size, AxiBurstType.INCR, lanes, cfg["maxb"], dict(rargs(DEFAULTS), arlock=lock))


@case(["C02", "C03"], "read_fixed", quick=[dict(lanes=4, lens=(1, 2, 4, 6, 8), maxb=256), dict(lanes=2, lens=(2, 3, 4), maxb=2), dict(lanes=1, lens=(16, 17, 33), maxb=256)],
      thorough=[dict(lanes=4, lens=range(1, 13), maxb=256), dict(lanes=2, lens=range(1, 8), maxb=2), dict(lanes=8, lens=(1, 4, 8, 16), maxb=256), dict(lanes=1, lens=(15, 16, 17, 33), maxb=256)])
async def read_fixed(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("ar", "r"), AXI, lanes)
    m = AxiMasterRead(AxiReadBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    sl = ReadSlave(cx, clk, ch)
    n = cx.choice("len", cfg["lens"])
    address = cx.addr("addr", 32, lanes.bit_length() - 1)
    size = cx.choice("size", range(lanes.bit_length()))
    await RisingEdge(clk)
    r = await m.read(address, n, size=size, burst=AxiBurstType.FIXED)
    check_read(cx, sl.ar.items, address, n, r, size, AxiBurstType.FIXED, lanes, cfg["maxb"], rargs(DEFAULTS))


@case("C03", "read_sideband", quick=[dict(lanes=2, maxb=1, idw=2, stall=2, n=3)],
      thorough=[dict(lanes=2, maxb=1, idw=2, stall=3, n=5), dict(lanes=4, maxb=2, idw=4, stall=2, n=14), dict(lanes=1, maxb=1, idw=1, stall=3, n=2)])
async def read_sideband(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("ar", "r"), AXI, lanes, idw=cfg["idw"])
    m = AxiMasterRead(AxiReadBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    sl = ReadSlave(cx, clk, ch, Stall(cx, "arready", cfg["stall"]))
    n = cfg["n"]
    address = cx.addr("addr", 32, lanes.bit_length() - 1)
    cx.assume(address + n <= 1 << 32)
    a = dict(lock=cx.bits("lock", 1), cache=cx.bits("cache", 4), prot=cx.bits("prot", 3), qos=cx.bits("qos", 4), region=cx.bits("region", 4),
             user=cx.bits("user", 4))
    explicit = cx.flag("explicit id")
    aid = cx.bits("id", cfg["idw"]) if explicit else None
    size = lanes.bit_length() - 1
    await RisingEdge(clk)
    if cx.flag("init"):
        ev = m.init_read(address, n, arid=aid, **a)
        await ev.wait()
        r = ev.data
    else:
        r = await m.read(address, n, arid=aid, **a)
    ids = rargs(a)
    if explicit:
        ids["arid"] = aid
    else:
        ids["arid"] = sl.ar.items[0].arid
    cx.check(r.resp == AxiResp.OKAY, "result resp")
    check_read(cx, sl.ar.items, address, n, r, size, AxiBurstType.INCR, lanes, cfg["maxb"], ids)


@case(["C02", "C03"], "read_long", quick=LONG, thorough=LONG_T, max_cycles=4000, path_s=300,
      note="long transfers: page symbolic, page offset from a list, data a fixed pattern")
async def read_long(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("ar", "r"), AXI, lanes, opt=())
    m = AxiMasterRead(AxiReadBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    r = Tx(cx, clk, ch["r"])
    sent = []

    def on_ar(a):
        a.cnt = cx.conc(a.arlen) + 1
        for i in range(a.cnt):
            d = bytes([((len(sent) * lanes + j) * 11 + 5) & 0xff for j in range(lanes)])
            sent.append(d)
            r.put(rid=a.arid, rdata=int.from_bytes(d, "little"), rlast=1 if i == a.cnt - 1 else 0)
    ar = Rx(cx, clk, ch["ar"], None, on_ar)
    n = cx.choice("len", cfg["lens"])
    address, low = long_addr(cx, n)
    await RisingEdge(clk)
    res = await m.read(address, n)
    maxb = max(1, min(256, cfg["maxb"]))
    nb = lanes
    off = low % nb
    k = 0
    for a in ar.items:
        cx.check(a.cnt <= maxb, "burst length")
        start = address if k == 0 else address - off + k * nb
        cx.check(a.araddr == start, "burst address")
        end = (start // nb * nb) + a.cnt * nb - 1
        cx.check(start >> 12 == end >> 12, "4k boundary")
        k += a.cnt
    cx.check(k == (n + off + nb - 1) // nb, "beat count")
    allb = b"".join(sent)
    cx.check(res.data == allb[off:off + n], "byte value")
