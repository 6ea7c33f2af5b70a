"""AXI slave and RAM models: burst execution, ordering, target failures."""
import cocotb
from cocotb.triggers import RisingEdge
from cocotbext.axi import AxiBus, AxiWriteBus, AxiReadBus, AxiSlave, AxiSlaveWrite, AxiSlaveRead, AxiRam
from symx.api import case
from harness.common import (channels, AXI, Rx, Tx, Stall, Pattern, clocks, Target, content, beat_addresses, lanes_of, FIXED, INCR, WRAP,
                            expected_writes, same_writes)

NAME = {INCR: "incr", WRAP: "wrap", FIXED: "fixed"}
BURST = {v: k for k, v in NAME.items()}


def legal_burst(cx, cfg, lanes, k=""):
    """parameters of a legal burst: low address bits, size and type enumerated"""
    name = cx.choice("burst" + k, sorted(cfg["beats"]))
    burst = BURST[name]
    size = cx.choice("size" + k, cfg.get("sizes") or range(lanes.bit_length()))
    beats = cx.choice("beats" + k, cfg["beats"][name])
    nb = 1 << size
    low = cfg.get("low", lanes.bit_length() - 1)
    addr = cx.addr("addr" + k, 32, low)
    al = addr >> size << size
    if burst == WRAP:
        cx.assume(addr == al)
    elif burst == INCR:
        cx.assume((al >> 12) == ((al + beats * nb - 1) >> 12))
        cx.assume(al + beats * nb <= 1 << 32)
    return burst, size, beats, addr


def write_beats(cx, cfg, lanes, size, burst, beats, addr, k="", strbs=True):
    """data, strobes of every beat; strobes only on active lanes"""
    ads = beat_addresses(cx, addr, beats, size, burst)
    out = []
    sym = cfg.get("strb", "all")
    which = cx.choice("sparse" + k, range(beats)) if sym == "one" else None
    for i in range(beats):
        word, lo, hi = lanes_of(ads[i], size, lanes)
        lo, hi = cx.conc(lo), cx.conc(hi)
        active = ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
        if strbs and (sym == "all" or which == i):
            st = cx.bits("strb" + k, lanes)
            cx.assume(st & ~active & ((1 << lanes) - 1) == 0)
        else:
            st = active if strbs else (1 << lanes) - 1
        out.append((word, cx.bits("data" + k, 8 * lanes), st))
    return out


SW_Q = [dict(lanes=4, strb="all", beats=dict(incr=(1,))),
        dict(lanes=4, strb="one", beats=dict(incr=(1, 2, 3), fixed=(2,), wrap=(2, 4)), low=2),
        dict(lanes=2, strb="all", beats=dict(incr=(1, 2), fixed=(2,), wrap=(2, 4)), low=2),
        dict(lanes=1, strb="all", beats=dict(incr=(1, 2, 3), fixed=(2, 3), wrap=(2, 4)), low=1),
        dict(lanes=8, strb="no", beats=dict(incr=(1, 3), fixed=(2,), wrap=(2, 4)), low=3),
        dict(lanes=4, strb="no", beats=dict(incr=(1, 2), fixed=(2,), wrap=(2,)), nostrb=True, sizes=(2,))]
SW_T = SW_Q + [dict(lanes=4, strb="all", beats=dict(incr=(2, 3), fixed=(2,), wrap=(2,)), low=2),
               dict(lanes=8, strb="one", beats=dict(incr=(1, 2, 3, 5), fixed=(2, 3), wrap=(2, 4, 8)), low=4),
               dict(lanes=16, strb="no", beats=dict(incr=(1, 2, 9), fixed=(2, 16), wrap=(2, 4, 8, 16)), low=5),
               dict(lanes=2, strb="all", beats=dict(incr=(4,), fixed=(3,), wrap=(8,)), low=3),
               dict(lanes=1, strb="no", beats=dict(incr=(17, 256), fixed=(16,), wrap=(16,)), low=2),
               dict(lanes=4, strb="no", beats=dict(incr=(17, 40), fixed=(16,), wrap=(16,)), low=3)]


@case("C05", "slave_write", quick=SW_Q, thorough=SW_T, max_cycles=700)
async def slave_write(cx, cfg):
    """one burst into a recording target"""
    lanes = cfg["lanes"]
    clk = cx.clock()
    opt = ("bresp", "awprot") if cfg.get("nostrb") else True
    ch = channels(cx, ("aw", "w", "b"), AXI, lanes, opt=opt, master=False)
    t = Target(cx)
    AxiSlaveWrite(AxiWriteBus.from_prefix(cx.top, "axi"), clk, target=t)
    aw, w, b = Tx(cx, clk, ch["aw"]), Tx(cx, clk, ch["w"]), Rx(cx, clk, ch["b"])
    burst, size, beats, addr = legal_burst(cx, cfg, lanes)
    bl = write_beats(cx, cfg, lanes, size, burst, beats, addr, strbs=not cfg.get("nostrb"))
    i = cx.bits("id", 2)
    prot = cx.bits("prot", 3)
    await RisingEdge(clk)
    aw.put(awid=i, awaddr=addr, awlen=beats - 1, awsize=size, awburst=burst, awprot=prot)
    for k, (word, d, st) in enumerate(bl):
        w.put(wdata=d, wstrb=st, wlast=1 if k == beats - 1 else 0)
    while not b.items:
        await RisingEdge(clk)
        if not b.items:
            continue
    same_writes(cx, t.bytes_written(), expected_writes(cx, bl, lanes), "strobed bytes written to their addresses")
    cx.check(b.items[0].bid == i, "response id")
    cx.check(b.items[0].bresp == 0, "response okay")
    await clocks(clk, 3)
    cx.check(len(b.items) == 1, "one response")


SR_Q = [dict(lanes=4, beats=dict(incr=(1, 2, 3), fixed=(1, 2), wrap=(2, 4)), low=2), dict(lanes=8, beats=dict(incr=(1, 4), fixed=(2,), wrap=(2, 4)), low=4),
        dict(lanes=1, beats=dict(incr=(1, 3), fixed=(3,), wrap=(2, 4)), low=1), dict(lanes=2, beats=dict(incr=(2, 5), fixed=(2,), wrap=(4, 16)), low=5, sizes=(1,)), dict(lanes=2, beats=dict(incr=(2, 5), fixed=(2,), wrap=(4,)), low=3, sizes=(0,))]
SR_T = SR_Q + [dict(lanes=16, beats=dict(incr=(1, 2, 9), fixed=(2,), wrap=(2, 4, 8, 16)), low=5), dict(lanes=4, beats=dict(incr=(17, 64, 256), fixed=(16,), wrap=(16,)), low=3),
               dict(lanes=32, beats=dict(incr=(1, 3), fixed=(2,), wrap=(4,)), low=5)]


@case("C05", "slave_read", quick=SR_Q, thorough=SR_T, max_cycles=700)
async def slave_read(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("ar", "r"), AXI, lanes, master=False)
    t = Target(cx)
    AxiSlaveRead(AxiReadBus.from_prefix(cx.top, "axi"), clk, target=t)
    ar, r = Tx(cx, clk, ch["ar"]), Rx(cx, clk, ch["r"])
    burst, size, beats, addr = legal_burst(cx, cfg, lanes)
    i = cx.bits("id", 2)
    await RisingEdge(clk)
    ar.put(arid=i, araddr=addr, arlen=beats - 1, arsize=size, arburst=burst, arprot=cx.bits("prot", 3))
    while len(r.items) < beats:
        await RisingEdge(clk)
    await clocks(clk, 4)
    check_read(cx, r.items, beats, i, beat_addresses(cx, addr, beats, size, burst), size, lanes, content)


def check_read(cx, items, beats, i, ads, size, lanes, at):
    cx.check(len(items) == beats, "number of read transfers", f"{len(items)} of {beats}")
    for k, it in enumerate(items):
        cx.check(it.rid == i, "read id")
        cx.check(it.rresp == 0, "read response okay")
        cx.check(it.rlast == (1 if k == beats - 1 else 0), "rlast on the last transfer only")
        word, lo, hi = lanes_of(ads[k], size, lanes)
        for j in range(lanes):
            cx.check(cx.implies(cx.and_(j >= lo, j <= hi), (it.rdata >> (8 * j)) & 0xff == at(word + j)), "read data on the active lanes", f"transfer {k} lane {j}")


RAM_Q = [dict(lanes=2, size=16, beats=dict(incr=(1, 2), fixed=(2,), wrap=(2,)), strb="one", low=2), dict(lanes=4, size=32, beats=dict(incr=(1, 2), fixed=(2,), wrap=(2, 4)), strb="no", low=2)]
RAM_T = RAM_Q + [dict(lanes=4, size=32, beats=dict(incr=(1, 3), fixed=(2,), wrap=(4,)), strb="one", low=3), dict(lanes=8, size=64, beats=dict(incr=(1, 3), fixed=(2,), wrap=(2, 8)), strb="no", low=3)]


@case("C05", "ram", quick=RAM_Q, thorough=RAM_T, max_cycles=200)
async def ram(cx, cfg):
    """a write burst and a read burst on a RAM with arbitrary contents"""
    lanes, n = cfg["lanes"], cfg["size"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, lanes, master=False)
    init = cx.bytes("mem", n)
    dev = AxiRam(AxiBus.from_prefix(cx.top, "axi"), clk, mem=bytearray(init))
    aw, w, b = Tx(cx, clk, ch["aw"]), Tx(cx, clk, ch["w"]), Rx(cx, clk, ch["b"])
    ar, r = Tx(cx, clk, ch["ar"]), Rx(cx, clk, ch["r"])
    burst, size, beats, addr = legal_burst(cx, cfg, lanes)
    bl = write_beats(cx, cfg, lanes, size, burst, beats, addr)
    await RisingEdge(clk)
    aw.put(awid=1, awaddr=addr, awlen=beats - 1, awsize=size, awburst=burst)
    for k, (word, d, st) in enumerate(bl):
        w.put(wdata=d, wstrb=st, wlast=1 if k == beats - 1 else 0)
    while not b.items:
        await RisingEdge(clk)
    ref = [x for x in init]
    for a, v in expected_writes(cx, bl, lanes):
        for q in range(n):
            ref[q] = cx.ite(a % n == q, v, ref[q])
    got = dev.read(0, n)
    for q in range(n):
        cx.check(got[q] == ref[q], "memory contents after the burst", f"byte {q}")
    cx.check(cx.and_(b.items[0].bresp == 0, b.items[0].bid == 1), "response okay")
    ar.put(arid=2, araddr=addr, arlen=beats - 1, arsize=size, arburst=burst)
    while len(r.items) < beats:
        await RisingEdge(clk)
    await clocks(clk, 2)

    def at(a):
        v = 0
        for q in range(n):
            v = cx.ite(a % n == q, ref[q], v)
        return v
    check_read(cx, r.items, beats, 2, beat_addresses(cx, addr, beats, size, burst), size, lanes, at)


def new_slave(cx, clk, t):
    """the target is given to the constructor or set later"""
    if cx.flag("set target"):
        sl = AxiSlave(AxiBus.from_prefix(cx.top, "axi"), clk)
        sl.target = t
    else:
        sl = AxiSlave(AxiBus.from_prefix(cx.top, "axi"), clk, target=t)
    cx.check(sl.target is t, "target attribute")
    return sl


SEQ_Q = [dict(lanes=1, n=2, beats=dict(incr=(1, 2)), stalls=1, low=0, strb="no"), dict(lanes=2, n=3, beats=dict(incr=(1,)), stalls=0, low=0, strb="all", sizes=(1,)),
         dict(lanes=1, n=9, beats=dict(incr=(1,)), stalls=0, low=0, strb="no", hold=24), dict(lanes=1, n=6, beats=dict(incr=(2,)), stalls=0, low=0, strb="no", hold=24)]
SEQ_T = SEQ_Q + [dict(lanes=1, n=3, beats=dict(incr=(1, 2)), stalls=1, low=0, strb="no"), dict(lanes=1, n=2, beats=dict(incr=(1, 2)), stalls=2, low=0, strb="no"),
                 dict(lanes=1, n=4, beats=dict(incr=(1,)), stalls=1, low=0, strb="no")]


@case("C05", "write_sequence", quick=SEQ_Q, thorough=SEQ_T, max_cycles=200)
async def write_sequence(cx, cfg):
    """several bursts, any relative timing of address, data and response channels"""
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, lanes, master=False)
    t = Target(cx)
    new_slave(cx, clk, t)
    s = cfg["stalls"]
    aw, w = Tx(cx, clk, ch["aw"], Stall(cx, "awvalid", s)), Tx(cx, clk, ch["w"], Stall(cx, "wvalid", s))
    b = Rx(cx, clk, ch["b"], Pattern([0] * cfg["hold"]) if cfg.get("hold") else Stall(cx, "bready", s))
    exp = []
    bursts = []
    await RisingEdge(clk)
    for q in range(cfg["n"]):
        burst, size, beats, addr = legal_burst(cx, cfg, lanes, str(q))
        bl = write_beats(cx, cfg, lanes, size, burst, beats, addr, str(q))
        i = cx.bits("id", 2)
        bursts.append((bl, i))
        aw.put(awid=i, awaddr=addr, awlen=beats - 1, awsize=size, awburst=burst)
        for k, (word, d, st) in enumerate(bl):
            w.put(wdata=d, wstrb=st, wlast=1 if k == beats - 1 else 0)
    while len(b.items) < cfg["n"]:
        await RisingEdge(clk)
    await clocks(clk, 3)
    cx.check(len(b.items) == cfg["n"], "one response per burst")
    exp = []
    for (bl, i), it in zip(bursts, b.items):
        exp = exp + expected_writes(cx, bl, lanes)
        cx.check(it.bid == i, "responses in order with their id")
        cx.check(it.bresp == 0, "response okay")
    same_writes(cx, t.bytes_written(), exp, "strobed bytes written to their addresses")


RSEQ_Q = [dict(lanes=1, n=2, beats=dict(incr=(1, 2)), stalls=1, low=0), dict(lanes=2, n=3, beats=dict(incr=(1, 2)), stalls=0, low=0, sizes=(1,)),
          dict(lanes=1, n=1, beats=dict(incr=(4,)), stalls=3, low=0), dict(lanes=1, n=9, beats=dict(incr=(1,)), stalls=0, low=0, hold=24), dict(lanes=1, n=6, beats=dict(incr=(2,)), stalls=0, low=0, hold=24)]
RSEQ_T = RSEQ_Q + [dict(lanes=1, n=3, beats=dict(incr=(1, 2)), stalls=1, low=0), dict(lanes=1, n=2, beats=dict(incr=(1, 2, 3)), stalls=2, low=0)]


@case("C05", "read_sequence", quick=RSEQ_Q, thorough=RSEQ_T, max_cycles=200)
async def read_sequence(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, lanes, master=False)
    new_slave(cx, clk, Target(cx))
    s = cfg["stalls"]
    ar, r = Tx(cx, clk, ch["ar"], Stall(cx, "arvalid", s)), Rx(cx, clk, ch["r"], Pattern([0] * cfg["hold"]) if cfg.get("hold") else Stall(cx, "rready", s))
    await RisingEdge(clk)
    bursts = []
    for q in range(cfg["n"]):
        burst, size, beats, addr = legal_burst(cx, cfg, lanes, str(q))
        i = cx.bits("id", 2)
        bursts.append((burst, size, beats, addr, i))
        ar.put(arid=i, araddr=addr, arlen=beats - 1, arsize=size, arburst=burst)
    total = sum(x[2] for x in bursts)
    while len(r.items) < total:
        await RisingEdge(clk)
    await clocks(clk, 3)
    cx.check(len(r.items) == total, "number of read transfers")
    k = 0
    for burst, size, beats, addr, i in bursts:
        check_read(cx, r.items[k:k + beats], beats, i, beat_addresses(cx, addr, beats, size, burst), size, lanes, content)
        k += beats


FW_Q = [dict(lanes=1, n=3, beats=dict(incr=(1, 2)), low=0, strb="no"), dict(lanes=2, n=2, beats=dict(incr=(1, 2)), low=1, strb="one", sizes=(1,)), dict(lanes=2, n=1, beats=dict(incr=(1, 2), wrap=(2,), fixed=(2,)), low=1, strb="one")]
FW_T = FW_Q + [dict(lanes=1, n=4, beats=dict(incr=(1, 2, 3)), low=0, strb="no"), dict(lanes=4, n=2, beats=dict(incr=(1, 2)), low=0, strb="one", sizes=(2,))]


@case("C26", "axi_write_fail", quick=FW_Q, thorough=FW_T, max_cycles=200)
async def axi_write_fail(cx, cfg):
    """any subset of the target's writes fails"""
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, lanes, master=False)
    t = Target(cx, lambda: cx.flag("fail"))
    AxiSlave(AxiBus.from_prefix(cx.top, "axi"), clk, target=t)
    aw, w, b = Tx(cx, clk, ch["aw"]), Tx(cx, clk, ch["w"]), Rx(cx, clk, ch["b"])
    await RisingEdge(clk)
    for q in range(cfg["n"]):
        burst, size, beats, addr = legal_burst(cx, cfg, lanes, str(q))
        bl = write_beats(cx, cfg, lanes, size, burst, beats, addr, str(q))
        i = cx.bits("id", 2)
        del t.log[:]
        aw.put(awid=i, awaddr=addr, awlen=beats - 1, awsize=size, awburst=burst)
        for k, (word, d, st) in enumerate(bl):
            w.put(wdata=d, wstrb=st, wlast=1 if k == beats - 1 else 0)
        while len(b.items) <= q:
            await RisingEdge(clk)
        bad = any(x[3] for x in t.log)
        cx.check(b.items[q].bid == i, "response id")
        cx.check(b.items[q].bresp == (2 if bad else 0), "slave error exactly if the target failed")
        exp = expected_writes(cx, bl, lanes)
        got = t.bytes_written()
        if not bad:
            same_writes(cx, got, exp, "strobed bytes written to their addresses")
        else:
            # nothing but bytes of this burst reaches the target
            cx.cover("failed")
            for a, d in got:
                cx.check(cx.or_(*[cx.and_(a == ea, d == ed) for ea, ed in exp]), "only bytes of the burst are written")
    await clocks(clk, 3)
    cx.check(len(b.items) == cfg["n"], "one response per burst")


FR_Q = [dict(lanes=1, n=3, beats=dict(incr=(1, 2)), low=0), dict(lanes=2, n=2, beats=dict(incr=(1, 3)), low=1, sizes=(1,)), dict(lanes=2, n=1, beats=dict(incr=(1, 3), wrap=(2,), fixed=(2,)), low=2)]


@case("C26", "axi_read_fail", quick=FR_Q, thorough=FR_Q + [dict(lanes=1, n=4, beats=dict(incr=(1, 2, 3)), low=0)], max_cycles=200)
async def axi_read_fail(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, lanes, master=False)
    t = Target(cx, lambda: cx.flag("fail"))
    AxiSlave(AxiBus.from_prefix(cx.top, "axi"), clk, target=t)
    ar, r = Tx(cx, clk, ch["ar"]), Rx(cx, clk, ch["r"])
    await RisingEdge(clk)
    done = 0
    for q in range(cfg["n"]):
        burst, size, beats, addr = legal_burst(cx, cfg, lanes, str(q))
        i = cx.bits("id", 2)
        ads = beat_addresses(cx, addr, beats, size, burst)
        del t.log[:]
        ar.put(arid=i, araddr=addr, arlen=beats - 1, arsize=size, arburst=burst)
        while len(r.items) < done + beats:
            await RisingEdge(clk)
        items = r.items[done:]
        done += beats
        cx.check(len(items) == beats, "number of read transfers")
        cx.check(len(t.log) == beats, "one access per transfer")
        for k, it in enumerate(items):
            cx.check(it.rid == i, "read id")
            cx.check(it.rlast == (1 if k == beats - 1 else 0), "rlast on the last transfer only")
            cx.check(it.rresp == (2 if t.log[k][3] else 0), "slave error exactly on the failed transfer")
            if not t.log[k][3]:
                word, lo, hi = lanes_of(ads[k], size, lanes)
                for j in range(lanes):
                    cx.check(cx.implies(cx.and_(j >= lo, j <= hi), (it.rdata >> (8 * j)) & 0xff == content(word + j)), "read data on the active lanes")
            else:
                cx.cover("failed")
    await clocks(clk, 3)
    cx.check(len(r.items) == done, "no extra read transfers")
