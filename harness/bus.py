"""Buses: which signals belong to them, and models on buses with any optional signals absent."""
import cocotb
from cocotb.triggers import RisingEdge
from cocotbext.axi import AxiBus, AxiMaster, AxiRam, AxiSlave, AxiLiteBus, AxiLiteMaster, AxiLiteRam, AxiLiteSlave, ApbBus, ApbMaster, ApbRam, ApbSlave
from cocotbext.axi import AxiWriteBus, AxiReadBus, AxiLiteWriteBus, AxiLiteReadBus
from cocotbext.axi.axi_channels import AxiAWBus, AxiWBus, AxiBBus, AxiARBus, AxiRBus
from cocotbext.axi.axil_channels import AxiLiteAWBus, AxiLiteWBus, AxiLiteBBus, AxiLiteARBus, AxiLiteRBus
from cocotbext.axi import AxiStreamBus, AxiStreamSource, AxiStreamSink, AxiStreamMonitor, AxiStreamFrame
from symx.api import case
from harness.common import AXI, AXIL, pick, clocks

ALL = ("aw", "w", "b", "ar", "r")
APBREQ = (("paddr", "addr"), ("psel", 1), ("penable", 1), ("pwrite", 1), ("pwdata", "data"), ("pstrb", "strb"), ("pready", 1), ("prdata", "data"))
APBOPT = (("pprot", 3), ("pslverr", 1))
CHB = dict(axi=(AxiAWBus, AxiWBus, AxiBBus, AxiARBus, AxiRBus), axil=(AxiLiteAWBus, AxiLiteWBus, AxiLiteBBus, AxiLiteARBus, AxiLiteRBus))
BUS = dict(axi=(AxiBus, AxiWriteBus, AxiReadBus), axil=(AxiLiteBus, AxiLiteWriteBus, AxiLiteReadBus))
DEF = dict(lock=0, cache=3, prot=2, qos=0, region=0, user=0)


def table(kind, c):
    if kind == "apb":
        return APBREQ, APBOPT
    return (AXI if kind == "axi" else AXIL)[c]


def signals(cx, kind, c, prefix, lanes, present, addrw=16):
    """the signals of one channel (None: APB) in the design"""
    widths = dict(data=8 * lanes, strb=lanes, addr=addrw, id=2)
    out = {}
    req, opt = table(kind, c)
    for n, w in tuple(req) + tuple(o for o in opt if present(o[0])):
        out[n] = cx.sig(prefix + n, widths.get(w, w) if isinstance(w, str) else w)
    return out


def join(prefix, sep="_"):
    return prefix + sep if prefix else ""


def build(cx, kind, how, prefixes, **kw):
    """bus object of the channels, each of which has its prefix"""
    top = cx.top
    if kind == "apb":
        return ApbBus.from_prefix(top, prefixes, **kw) if prefixes else ApbBus.from_entity(top, **kw)
    full, wr, rd = BUS[kind]
    if how == "prefix":
        return full.from_prefix(top, prefixes, **kw) if prefixes else full.from_entity(top, **kw)
    if how == "halves":
        return (wr.from_prefix(top, prefixes, **kw), rd.from_prefix(top, prefixes, **kw)) if prefixes else (wr.from_entity(top, **kw), rd.from_entity(top, **kw))
    p = prefixes if isinstance(prefixes, dict) else {c: prefixes for c in ALL}
    ch = [b.from_prefix(top, p[c], **kw) if p[c] else b.from_entity(top, **kw) for b, c in zip(CHB[kind], ALL)]
    if how == "channels":
        return full.from_channels(*ch)
    return full(wr.from_channels(*ch[:3]), rd.from_channels(*ch[3:]))


def halves(cx, kind, bus, clk, size, mem):
    """master and RAM on a bus, or on its halves"""
    if kind == "apb":
        return ApbMaster(bus[0], clk), ApbRam(bus[1], clk, mem=mem)
    if isinstance(bus[0], tuple):
        from cocotbext.axi import AxiMasterWrite, AxiMasterRead, AxiRamWrite, AxiRamRead, AxiLiteMasterWrite, AxiLiteMasterRead, AxiLiteRamWrite, AxiLiteRamRead
        axi = kind == "axi"

        class M:
            pass
        m = M()
        w = (AxiMasterWrite if axi else AxiLiteMasterWrite)(bus[0][0], clk)
        r = (AxiMasterRead if axi else AxiLiteMasterRead)(bus[0][1], clk)
        m.write, m.read = w.write, r.read
        s = ((AxiRamWrite if axi else AxiLiteRamWrite)(bus[1][0], clk, mem=mem), (AxiRamRead if axi else AxiLiteRamRead)(bus[1][1], clk, mem=mem))
        return m, s
    return (AxiMaster if kind == "axi" else AxiLiteMaster)(bus[0], clk), (AxiRam if kind == "axi" else AxiLiteRam)(bus[1], clk, mem=mem)


async def sample(cx, clk, kind, sigs, log):
    """transfers on the signals, as a passive observer sees them"""
    edge = RisingEdge(clk)
    while True:
        await edge
        for c, ss in sigs.items():
            if kind == "apb":
                go = cx.resolvable(ss["psel"].value) and ss["psel"].value and ss["penable"].value and ss["pready"].value
            else:
                v, r = ss[c + "valid"].value, ss[c + "ready"].value
                go = cx.resolvable(v) and cx.resolvable(r) and v and r
            if go:
                log.append((c, {n: cx.val(s.value) for n, s in ss.items() if cx.resolvable(s.value)}))


def requested(cx, kind, d, present, args):
    """arguments for the signals which are there"""
    kw = {}
    if not args:
        return kw
    for f, w in (("lock", 1), ("cache", 4), ("prot", 3), ("qos", 4), ("region", 4), ("user", 4)) if kind == "axi" else (("prot", 3),):
        n = ("p" if kind == "apb" else "aw" if d == "w" else "ar") + f
        if present(n):
            kw[f] = cx.bits(n, w)
    if kind == "axi" and d == "w" and present("wuser"):
        kw["wuser"] = cx.bits("wuser", 4)
    return kw


def judge(cx, kind, log, kww, kwr, lanes, n):
    """every transfer has the requested attributes, the default ones where nothing was requested"""
    for c, it in log:
        d = ("w" if it["pwrite"] else "r") if kind == "apb" else "w" if c in ("aw", "w", "b") else "r"
        kw = kww if d == "w" else kwr
        pre = "p" if kind == "apb" else c
        for f, v in DEF.items():
            if pre + f in it and c in ("aw", "ar", None):
                cx.check(it[pre + f] == kw.get(f, v), "signals which are present carry the attributes", pre + f)
        if "wuser" in it:
            cx.check(it["wuser"] == kww.get("wuser", 0), "signals which are present carry the attributes", "wuser")
        for f in ("bresp", "rresp", "pslverr"):
            if f in it:
                cx.check(it[f] == 0, "response okay", f)


GROUPS = dict(axi=(("awlock", "awcache", "awprot", "awqos", "awregion", "awuser"), ("arlock", "arcache", "arprot", "arqos", "arregion", "aruser"), ("wstrb", "wuser", "bresp", "buser", "rresp", "ruser")),
              axil=(("awprot", "wstrb", "bresp", "arprot", "rresp"),), apb=(("pprot", "pslverr"),))
SUB_Q = [dict(kind="axi", group=g, others=o, lanes=2) for g in range(3) for o in (True, False)] + [dict(kind="axil", group=0, others=True, lanes=2), dict(kind="axil", group=0, others=True, lanes=4), dict(kind="apb", group=0, others=True, lanes=2), dict(kind="apb", group=0, others=True, lanes=1)]
SUB_T = SUB_Q + [dict(kind=k, group=g, others=o, lanes=l) for k, gs in (("axi", 3), ("axil", 1), ("apb", 1)) for g in range(gs) for o in (True, False) for l in (1, 4, 8)]


@case("C28", "subset", quick=SUB_Q, thorough=SUB_T, max_cycles=200, must=("signals which are present carry the attributes", "the pair is a byte array"))
async def subset(cx, cfg):
    """any subset of the optional signals of some channels, all or none of the others"""
    kind, lanes = cfg["kind"], cfg["lanes"]
    group = GROUPS[kind][cfg["group"]]
    clk = cx.clock()
    there = {}

    def present(n):
        if n not in there:
            there[n] = bool(cx.flag("has " + n)) if n in group else cfg["others"]
        return there[n]
    sigs = {c: signals(cx, kind, c, "x_", lanes, present) for c in ((None,) if kind == "apb" else ALL)}
    strb = kind == "apb" or present("wstrb")
    size = 4 * lanes
    mem = bytearray(size)
    m, s = halves(cx, kind, [build(cx, kind, "prefix", "x") for _ in range(2)], clk, size, mem)
    ref = [cx.bits("before", 8) for _ in range(size)]
    for k in range(size):
        mem[k] = ref[k]
    log = []
    cocotb.start_soon(sample(cx, clk, kind, sigs, log))
    await RisingEdge(clk)
    args = cx.flag("arguments given")
    kww, kwr = requested(cx, kind, "w", present, args), requested(cx, kind, "r", present, args)
    # without strobes only whole words can be written
    n = 2 * lanes if not strb else lanes + 1
    a = cx.int("word", 0, size // lanes - 1) * lanes + (cx.choice("offset", range(lanes)) if strb else 0)
    cx.assume(a + n <= size)
    d = cx.bytes("data", n)
    w = await m.write(a, d, **kww)
    cx.check(w.resp == 0 and w.address == a and w.length == n, "response okay")
    if kind == "axi":
        cx.check((w.user is not None) == present("buser"), "user signals of responses are reported exactly when they are there", "buser")
    want = [cx.ite(cx.and_(q >= a, q < a + n), pick(cx, d, q - a), ref[q]) for q in range(size)]
    for q in range(size):
        cx.check(mem[q] == want[q], "the pair is a byte array", f"byte {q} after the write")
    b = cx.addr("read", 16, lanes.bit_length() - 1)
    cx.assume(b + lanes + 1 <= size)
    r = await m.read(b, lanes + 1, **kwr)
    cx.check(r.resp == 0 and len(r.data) == lanes + 1, "response okay")
    if kind == "axi":
        cx.check((r.user is not None) == present("ruser"), "user signals of responses are reported exactly when they are there", "ruser")
    for k in range(lanes + 1):
        cx.check(r.data[k] == pick(cx, want, b + k), "the pair is a byte array", f"byte {k} read")
    await clocks(clk, 2)
    judge(cx, kind, log, kww, kwr, lanes, n)
    cx.check(len(log) > 0, "the observer sees the transfers")


CON_Q = [dict(kind=k, how=h) for k in ("axi", "axil") for h in ("prefix", "halves", "channels", "nested")] + [dict(kind="apb", how="prefix")]


@case("C28", "construct", quick=CON_Q, thorough=CON_Q + [dict(c, lanes=l) for c in CON_Q for l in (1, 4)], max_cycles=200, must=("only the signals of the bus are driven", "the pair is a byte array"))
async def construct(cx, cfg):
    """buses from an entity, from a prefix or from channels; other buses in the same design have similar names"""
    kind, how, lanes = cfg["kind"], cfg["how"], cfg.get("lanes", 2)
    clk = cx.clock()
    names = ("", "s", "s_axi", "S_AXI_0", "axi_s")
    chans = (None,) if kind == "apb" else ALL
    if how in ("channels", "nested"):
        mine = {c: cx.choice("prefix", ("", "s", "s_axi") if c == "aw" else ("s_axi", "s")) for c in ALL}
    else:
        p = cx.choice("prefix", names)
        mine = {c: p for c in chans}
    opt = cx.flag("optional signals")
    sigs, other = {}, []
    first = cx.flag("others declared first")
    sep = cx.choice("separator", ("_", "__"))

    def declare(own):
        for c in chans:
            for p in names:
                if p == mine[c] and own:
                    sigs[c] = signals(cx, kind, c, join(p, sep), lanes, lambda n: opt or n == "wstrb")
                elif not own and (p != mine[c] or p and sep != "_"):
                    # of the others the optional signals are there when they are missing here
                    other.extend(signals(cx, kind, c, join(p), lanes, lambda n: not opt or n == "wstrb").values())
    declare(not first)
    declare(bool(first))
    arg = mine if how in ("channels", "nested") else p
    size = 8
    mem = bytearray(size)
    m, s = halves(cx, kind, [build(cx, kind, how, arg, **({} if sep == "_" else dict(bus_separator=sep))) for _ in range(2)], clk, size, mem)
    noise = cx.flag("traffic on the others")
    if noise:
        for x in other:
            x.set(cx.bits("noise", 1))
    before = [x.value for x in other]
    log = []
    cocotb.start_soon(sample(cx, clk, kind, sigs, log))
    await RisingEdge(clk)
    n = 3
    a = cx.addr("addr", 16, lanes.bit_length() - 1)
    cx.assume(a + n <= size)
    d = cx.bytes("data", n)
    kw = requested(cx, kind, "w", lambda x: opt or x == "wstrb", True)
    kwr = requested(cx, kind, "r", lambda x: opt, True)
    w = await m.write(a, d, **kw)
    r = await m.read(a, n, **kwr)
    cx.check(w.resp == 0 and r.resp == 0, "response okay")
    for k in range(n):
        cx.check(r.data[k] == d[k], "the pair is a byte array", f"byte {k} read")
    for q in range(size):
        cx.check(mem[q] == cx.ite(cx.and_(q >= a, q < a + n), pick(cx, d, q - a), 0), "the pair is a byte array", f"byte {q} after the write")
    await clocks(clk, 2)
    judge(cx, kind, log, kw, kwr, lanes, n)
    cx.check(len(log) > 0, "the observer sees the transfers")
    for x, v in zip(other, before):
        y = x.value
        same = cx.resolvable(y) == cx.resolvable(v) and (not cx.resolvable(v) or cx.val(y) == cx.val(v))
        cx.check(same, "only the signals of the bus are driven", x._name)


OPT = ("tready", "tlast", "tkeep", "tid", "tdest", "tuser")
ST_Q = [dict(lanes=1, lens=((2,), (1, 2))), dict(lanes=2, lens=((3,), (1, 2)))]
ST_T = ST_Q + [dict(lanes=4, lens=((5,), (4, 3), (1, 1, 6))), dict(lanes=2, lens=((3,), (1, 4, 2)), bits=3), dict(lanes=8, lens=((9,), (8, 1)))]


@case("C28", "stream", quick=ST_Q, thorough=ST_T, max_cycles=100, must=("frames arrive as sent",))
async def stream(cx, cfg):
    """AXI stream source to sink and monitor, any subset of the optional signals"""
    lanes = cfg["lanes"]
    clk = cx.clock()
    pre = cx.choice("prefix", ("", "s"))
    has = [n for n in OPT if cx.flag("has " + n)]
    other = "s" if not pre else "t"
    sig, decoy = {}, []
    for n, w in (("tdata", 8 * lanes), ("tvalid", 1), ("tready", 1), ("tlast", 1), ("tkeep", lanes), ("tid", 3), ("tdest", 3), ("tuser", 2)):
        if n in has or n in ("tdata", "tvalid"):
            sig[n] = cx.sig(join(pre) + n, w)
        if n not in has:
            decoy.append(cx.sig(join(other) + n, w))

    def make():
        return AxiStreamBus.from_prefix(cx.top, pre) if pre else AxiStreamBus.from_entity(cx.top)
    kw = {} if "tkeep" in has else dict(byte_size=8)
    src = AxiStreamSource(make(), clk, **kw)
    snk = AxiStreamSink(make(), clk, **kw)
    mon = AxiStreamMonitor(make(), clk, **kw)
    await RisingEdge(clk)
    who = cx.choice("paused", ("none", "source", "sink") if "tready" in has else ("none", "source"))
    if who != "none":
        def pattern():
            for k in range(cfg.get("bits", 2)):
                yield cx.flag("pause")
            while True:
                yield False
        (src if who == "source" else snk).set_pause_generator(pattern())
    sent = []
    for n in cx.choice("lengths", cfg["lens"]):
        d = cx.bytes("data", n)
        side = {s: cx.bits(s, w) for s, w in (("tid", 3), ("tdest", 3), ("tuser", 2)) if s in has}
        await src.send(AxiStreamFrame(d, **side))
        sent.append(([x for x in d], side))
    # what arrives: without tkeep whole transfers, without tlast every transfer on its own
    want = []
    for d, side in sent:
        if "tkeep" not in has:
            d = d + [0] * (-len(d) % lanes)
        if "tlast" in has:
            want.append((d, side))
        else:
            for k in range(0, len(d), lanes):
                want.append((d[k:k + lanes], side))
    await src.wait()
    await clocks(clk, 8)
    for rx in (snk, mon):
        cx.check(rx.count() == len(want), "frames arrive as sent", "number")
        for d, side in want:
            f = rx.recv_nowait()
            cx.check(len(f.tdata) == len(d), "frames arrive as sent", "length")
            for x, y in zip(f.tdata, d):
                cx.check(x == y, "frames arrive as sent", "data")
            for s in ("tid", "tdest", "tuser"):
                v = getattr(f, s)
                if s in has:
                    for x in v if isinstance(v, (list, tuple)) else [v]:
                        cx.check(x == side[s], "frames arrive as sent", s)
                else:
                    cx.check(v is None or (isinstance(v, list) and not v), "no values of signals which are not there", s)
    for x in decoy:
        cx.check(not cx.resolvable(x.value), "only the signals of the bus are driven", x._name)
