"""AXI-Lite master, slave and RAM models."""
from cocotb.triggers import RisingEdge
from cocotbext.axi import AxiLiteBus, AxiLiteWriteBus, AxiLiteReadBus, AxiLiteMaster, AxiLiteMasterWrite, AxiLiteMasterRead
from cocotbext.axi import AxiLiteSlave, AxiLiteSlaveWrite, AxiLiteSlaveRead, AxiLiteRam
from symx.api import case
from harness.common import channels, AXIL, Rx, Tx, Stall, Pattern, clocks, Target, content, pick
from harness.common import expected_writes, same_writes, run_ops

ALL = ("aw", "w", "b", "ar", "r")


def check_words(cx, aws, ws, address, data, lanes, prot, strobes=True):
    """the words carry the bytes to their addresses, each once"""
    n = len(data)
    cover = [0] * n
    cx.check(len(aws) == len(ws), "one data word per address")
    for a, w in zip(aws, ws):
        cx.check(a.awprot == prot, "protection value")
        word = a.awaddr // lanes * lanes
        for j in range(lanes):
            on = (w.wstrb >> j) & 1 == 1 if strobes else True
            byte = (w.wdata >> (8 * j)) & 0xff
            i = word + j - address
            inside = cx.and_(i >= 0, i < n)
            cx.check(cx.implies(on, inside), "byte outside the requested range", f"lane {j}")
            cx.check(cx.implies(cx.and_(on, inside), byte == pick(cx, data, i)), "byte value", f"lane {j}")
            for q in range(n):
                cover[q] = cover[q] + cx.ite(cx.and_(on, i == q), 1, 0)
    for q in range(n):
        cx.check(cover[q] == 1, "every byte written exactly once", f"{q}")


W_Q = [dict(lanes=1, lens=(0, 1, 2, 3)), dict(lanes=2, lens=(0, 1, 2, 3, 4, 5)), dict(lanes=4, lens=range(0, 10)), dict(lanes=8, lens=(1, 3, 8, 9, 17)), dict(lanes=16, lens=(1, 17))]
W_T = W_Q + [dict(lanes=4, lens=range(10, 18)), dict(lanes=8, lens=(2, 4, 5, 6, 7, 10, 16, 18, 24, 25)), dict(lanes=32, lens=(1, 31, 33, 64)), dict(lanes=4, lens=(3, 4, 5, 9), addrw=64), dict(lanes=4, lens=(1, 5, 6), addrw=12)]


@case("C06", "write", quick=W_Q, thorough=W_T)
async def write(cx, cfg):
    lanes, addrw = cfg["lanes"], cfg.get("addrw", 32)
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b"), AXIL, lanes, addrw)
    m = AxiLiteMasterWrite(AxiLiteWriteBus.from_prefix(cx.top, "axi"), clk)
    aw, w, b = Rx(cx, clk, ch["aw"]), Rx(cx, clk, ch["w"]), Tx(cx, clk, ch["b"])
    w.on = lambda it: b.put(bresp=0)
    n = cx.choice("len", cfg["lens"])
    data = cx.bytes("data", n)
    address = cx.addr("addr", addrw, lanes.bit_length() - 1)
    cx.assume(address + n <= 1 << addrw)
    prot = cx.bits("prot", 3)
    await RisingEdge(clk)
    r = await m.write(address, data, prot)
    cx.check(r.address == address, "result address")
    cx.check(r.length == n, "result length")
    cx.check(r.resp == 0, "result okay")
    await clocks(clk, 3)
    check_words(cx, aw.items, w.items, address, data, lanes, prot)


R_Q = W_Q
R_T = W_T


@case("C06", "read", quick=R_Q, thorough=R_T)
async def read(cx, cfg):
    lanes, addrw = cfg["lanes"], cfg.get("addrw", 32)
    clk = cx.clock()
    ch = channels(cx, ("ar", "r"), AXIL, lanes, addrw)
    m = AxiLiteMasterRead(AxiLiteReadBus.from_prefix(cx.top, "axi"), clk)
    ar, r = Rx(cx, clk, ch["ar"]), Tx(cx, clk, ch["r"])
    words = []

    def on(it):
        d = cx.bits("rdata", 8 * lanes)
        words.append((it, d))
        r.put(rdata=d, rresp=0)
    ar.on = on
    n = cx.choice("len", cfg["lens"])
    address = cx.addr("addr", addrw, lanes.bit_length() - 1)
    cx.assume(address + n <= 1 << addrw)
    prot = cx.bits("prot", 3)
    await RisingEdge(clk)
    res = await m.read(address, n, prot)
    cx.check(res.address == address, "result address")
    cx.check(res.resp == 0, "result okay")
    cx.check(len(res.data) == n, "result length")
    for k in range(n):
        a = address + k
        hit = 0
        for it, d in words:
            word = it.araddr // lanes * lanes
            for j in range(lanes):
                hit = hit + cx.ite(a == word + j, 1, 0)
                cx.check(cx.implies(a == word + j, res.data[k] == (d >> (8 * j)) & 0xff), "byte value", f"byte {k}")
        cx.check(hit == 1, "every byte read exactly once", f"byte {k}")
    for it, d in words:
        cx.check(it.arprot == prot, "protection value")
    await clocks(clk, 3)
    cx.check(len(ar.items) == len(words), "no extra reads")


@case("C06", "write_nostrb", quick=[dict(lanes=2, words=(1, 2)), dict(lanes=4, words=(1, 3)), dict(lanes=1, words=(1, 3))])
async def write_nostrb(cx, cfg):
    """without strobes: whole words; without protection and response signals"""
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b"), AXIL, lanes, opt=())
    m = AxiLiteMasterWrite(AxiLiteWriteBus.from_prefix(cx.top, "axi"), clk)
    aw, w, b = Rx(cx, clk, ch["aw"]), Rx(cx, clk, ch["w"]), Tx(cx, clk, ch["b"])
    w.on = lambda it: b.put()
    n = cx.choice("words", cfg["words"]) * lanes
    data = cx.bytes("data", n)
    address = cx.addr("addr", 32, lanes.bit_length() - 1)
    cx.assume(cx.and_(address % lanes == 0, address + n <= 1 << 32))
    await RisingEdge(clk)
    r = await m.write(address, data)
    cx.check(r.resp == 0, "result okay")
    for a in aw.items:
        a.awprot = 0
    check_words(cx, aw.items, w.items, address, data, lanes, 0, strobes=False)


OPS_Q = [dict(ops=2, lens=(1, 2), stalls=1, mode="init"), dict(ops=3, lens=(1,), stalls=0, mode="init"), dict(ops=2, lens=(2,), stalls=1, mode="tasks"), dict(ops=1, lens=(2,), stalls=2, mode="tasks"), dict(ops=1, lens=(1,), stalls=1, mode="init", addrw=64),
         dict(ops=9, lens=(1,), stalls=0, mode="init", hold=24)]
OPS_T = OPS_Q + [dict(ops=1, lens=(3,), stalls=2, mode="tasks"), dict(ops=3, lens=(1, 2), stalls=1, mode="init"), dict(ops=2, lens=(1, 2, 3), stalls=2, mode="init"), dict(ops=2, lens=(1, 2), stalls=2, mode="tasks")]


@case("C06", "write_ops", quick=OPS_Q, thorough=OPS_T, max_cycles=250)
async def write_ops(cx, cfg):
    """several operations: order, own results, errors, idle and wait"""
    clk = cx.clock()
    ch = channels(cx, ALL, AXIL, 1, cfg.get("addrw", 32))
    m = AxiLiteMaster(AxiLiteBus.from_prefix(cx.top, "axi"), clk)
    s = cfg["stalls"]
    hold = cfg.get("hold")      # the slave takes nothing for a while
    aw, w = Rx(cx, clk, ch["aw"], Stall(cx, "awready", s)), Rx(cx, clk, ch["w"], Pattern([0] * hold) if hold else Stall(cx, "wready", s))
    b = Tx(cx, clk, ch["b"], Pattern([0] * 2 * hold) if hold else Stall(cx, "bvalid", s))
    nops = cfg["ops"]
    lens = [cx.choice("len", cfg["lens"]) for k in range(nops)]
    datas = [cx.bytes(f"data{k}", lens[k]) for k in range(nops)]
    prots = [cx.bits("prot", 3) for k in range(nops)]
    base = [0x100 * (k + 1) for k in range(nops)]
    await run_ops(cx, cfg, clk, m, m.write_if, b, lens, base,
                  lambda k, ev: m.init_write(base[k], datas[k], prots[k], ev), lambda k: m.write(base[k], datas[k], prots[k]),
                  lambda: min(len(aw.items), len(w.items)), lambda: dict(bresp=0 if hold else cx.bits("bresp", 2)), m.wait_write,
                  lambda k, r, sent: cx.check(r.length == lens[k], "result of its own operation", f"length {k}"), "bresp")
    i = 0
    for k in range(nops):
        check_words(cx, aw.items[i:i + lens[k]], w.items[i:i + lens[k]], base[k], datas[k], 1, prots[k])
        i += lens[k]
    cx.check(len(aw.items) == i, "no extra transfers")


@case("C06", "read_ops", quick=OPS_Q, thorough=OPS_T, max_cycles=250)
async def read_ops(cx, cfg):
    clk = cx.clock()
    ch = channels(cx, ALL, AXIL, 1, cfg.get("addrw", 32))
    m = AxiLiteMaster(AxiLiteBus.from_prefix(cx.top, "axi"), clk)
    s = cfg["stalls"]
    hold = cfg.get("hold")      # the slave answers nothing for a while
    ar, rt = Rx(cx, clk, ch["ar"], Stall(cx, "arready", s)), Tx(cx, clk, ch["r"], Pattern([0] * hold) if hold else Stall(cx, "rvalid", s))
    nops = cfg["ops"]
    lens = [cx.choice("len", cfg["lens"]) for k in range(nops)]
    prots = [cx.bits("prot", 3) for k in range(nops)]
    base = [0x100 * (k + 1) for k in range(nops)]

    def extra(k, r, sent):
        cx.check(len(r.data) == lens[k], "result of its own operation", f"length {k}")
        for x, y in zip(r.data, sent):
            cx.check(x == y["rdata"], "result of its own operation", f"data {k}")
    await run_ops(cx, cfg, clk, m, m.read_if, rt, lens, base,
                  lambda k, ev: m.init_read(base[k], lens[k], prots[k], ev), lambda k: m.read(base[k], lens[k], prots[k]),
                  lambda: len(ar.items), lambda: dict(rresp=0 if hold else cx.bits("rresp", 2), rdata=cx.bits("rdata", 8)), m.wait_read, extra, "rresp")
    i = 0
    for k in range(nops):
        for j in range(lens[k]):
            cx.check(ar.items[i].araddr == base[k] + j, "reads issued in order")
            cx.check(ar.items[i].arprot == prots[k], "protection value")
            i += 1
    cx.check(len(ar.items) == i, "no extra transfers")


# ------------------------------------------------------------------- slaves

SW_Q = [dict(lanes=4, n=1, low=2, strb="all"), dict(lanes=2, n=2, low=1, strb="all"), dict(lanes=8, n=1, low=3, strb="no"), dict(lanes=1, n=2, low=0, strb="all", stalls=1), dict(lanes=4, n=2, low=0, strb="none"), dict(lanes=1, n=9, low=0, strb="no", hold=24)]
SW_T = SW_Q + [dict(lanes=1, n=3, low=0, strb="all", stalls=1), dict(lanes=8, n=1, low=0, strb="all"), dict(lanes=2, n=3, low=0, strb="all"), dict(lanes=1, n=2, low=0, strb="no", stalls=2), dict(lanes=1, n=4, low=0, strb="no", stalls=1), dict(lanes=4, n=2, low=1, strb="all")]


def new_slave(cx, clk, t):
    if cx.flag("set target"):
        sl = AxiLiteSlave(AxiLiteBus.from_prefix(cx.top, "axi"), clk)
        sl.target = t
    else:
        sl = AxiLiteSlave(AxiLiteBus.from_prefix(cx.top, "axi"), clk, target=t)
    cx.check(sl.target is t, "target attribute")
    return sl


def word_write(cx, cfg, lanes, k=""):
    addr = cx.addr("addr" + k, 32, cfg.get("low", 0))
    d = cx.bits("data" + k, 8 * lanes)
    st = cx.bits("strb" + k, lanes) if cfg.get("strb") == "all" else (1 << lanes) - 1
    return addr, d, st


@case("C07", "slave_write", quick=SW_Q, thorough=SW_T)
async def slave_write(cx, cfg):
    lanes, n, s = cfg["lanes"], cfg["n"], cfg.get("stalls", 0)
    clk = cx.clock()
    ch = channels(cx, ALL, AXIL, lanes, opt=("bresp", "rresp", "awprot", "arprot") if cfg["strb"] == "none" else True, master=False)
    t = Target(cx)
    new_slave(cx, clk, t)
    aw, w = Tx(cx, clk, ch["aw"], Stall(cx, "awvalid", s)), Tx(cx, clk, ch["w"], Stall(cx, "wvalid", s))
    b = Rx(cx, clk, ch["b"], Pattern([0] * cfg["hold"]) if cfg.get("hold") else Stall(cx, "bready", s))
    await RisingEdge(clk)
    ws = []
    for k in range(n):
        addr, d, st = word_write(cx, cfg, lanes, str(k))
        ws.append((addr // lanes * lanes, d, st))
        aw.put(awaddr=addr, awprot=cx.bits("prot", 3))
        w.put(wdata=d, wstrb=st)
    while len(b.items) < n:
        await RisingEdge(clk)
    await clocks(clk, 3)
    cx.check(len(b.items) == n, "one response per write")
    for it in b.items:
        cx.check(it.bresp == 0, "response okay")
    same_writes(cx, t.bytes_written(), expected_writes(cx, ws, lanes), "strobed bytes written to their addresses")


SR_Q = [dict(lanes=4, n=2, low=2), dict(lanes=1, n=3, low=0, stalls=1), dict(lanes=8, n=1, low=3), dict(lanes=2, n=2, low=0, stalls=2), dict(lanes=1, n=9, low=0, hold=24)]
SR_T = SR_Q + [dict(lanes=1, n=4, low=0, stalls=2), dict(lanes=16, n=1, low=4)]


@case("C07", "slave_read", quick=SR_Q, thorough=SR_T)
async def slave_read(cx, cfg):
    lanes, n, s = cfg["lanes"], cfg["n"], cfg.get("stalls", 0)
    clk = cx.clock()
    ch = channels(cx, ALL, AXIL, lanes, master=False)
    new_slave(cx, clk, Target(cx))
    ar, r = Tx(cx, clk, ch["ar"], Stall(cx, "arvalid", s)), Rx(cx, clk, ch["r"], Pattern([0] * cfg["hold"]) if cfg.get("hold") else Stall(cx, "rready", s))
    await RisingEdge(clk)
    ads = [cx.addr("addr" + str(k), 32, cfg["low"]) for k in range(n)]
    for a in ads:
        ar.put(araddr=a, arprot=cx.bits("prot", 3))
    while len(r.items) < n:
        await RisingEdge(clk)
    await clocks(clk, 3)
    cx.check(len(r.items) == n, "one response per read")
    for a, it in zip(ads, r.items):
        cx.check(it.rresp == 0, "response okay")
        for j in range(lanes):
            cx.check((it.rdata >> (8 * j)) & 0xff == content(a // lanes * lanes + j), "contents of the addressed word", f"lane {j}")


RAM_Q = [dict(lanes=2, size=16, strb="all", low=1), dict(lanes=4, size=32, strb="no", low=2), dict(lanes=1, size=8, strb="all", low=0)]
RAM_T = RAM_Q + [dict(lanes=4, size=32, strb="all", low=2), dict(lanes=8, size=64, strb="no", low=3)]


@case("C07", "ram", quick=RAM_Q, thorough=RAM_T)
async def ram(cx, cfg):
    """a write, then a read anywhere, on a RAM with arbitrary contents"""
    lanes, n = cfg["lanes"], cfg["size"]
    clk = cx.clock()
    ch = channels(cx, ALL, AXIL, lanes, master=False)
    init = cx.bytes("mem", n)
    dev = AxiLiteRam(AxiLiteBus.from_prefix(cx.top, "axi"), clk, mem=bytearray(init))
    aw, w, b = Tx(cx, clk, ch["aw"]), Tx(cx, clk, ch["w"]), Rx(cx, clk, ch["b"])
    ar, r = Tx(cx, clk, ch["ar"]), Rx(cx, clk, ch["r"])
    addr, d, st = word_write(cx, cfg, lanes)
    await RisingEdge(clk)
    aw.put(awaddr=addr)
    w.put(wdata=d, wstrb=st)
    while not b.items:
        await RisingEdge(clk)
    ref = [x for x in init]
    for a, v in expected_writes(cx, [(addr // lanes * lanes, d, st)], lanes):
        for q in range(n):
            ref[q] = cx.ite(a % n == q, v, ref[q])
    got = dev.read(0, n)
    for q in range(n):
        cx.check(got[q] == ref[q], "memory contents after the write", f"byte {q}")
    ra = cx.bits("raddr", 32)
    ar.put(araddr=ra)
    while not r.items:
        await RisingEdge(clk)
    cx.check(cx.and_(r.items[0].rresp == 0, b.items[0].bresp == 0), "response okay")
    for j in range(lanes):
        cx.check((r.items[0].rdata >> (8 * j)) & 0xff == pick(cx, ref, (ra // lanes * lanes + j) % n), "contents of the addressed word", f"lane {j}")


F_Q = [dict(lanes=1, n=3), dict(lanes=2, n=2, strb="all", low=1)]
F_T = F_Q + [dict(lanes=1, n=5), dict(lanes=4, n=2, strb="all")]


@case("C26", "axil_write_fail", quick=F_Q, thorough=F_T)
async def axil_write_fail(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ALL, AXIL, lanes, master=False)
    t = Target(cx, lambda: cx.flag("fail"))
    new_slave(cx, clk, t)
    aw, w, b = Tx(cx, clk, ch["aw"]), Tx(cx, clk, ch["w"]), Rx(cx, clk, ch["b"])
    await RisingEdge(clk)
    for q in range(cfg["n"]):
        addr, d, st = word_write(cx, cfg, lanes, str(q))
        del t.log[:]
        aw.put(awaddr=addr)
        w.put(wdata=d, wstrb=st)
        while len(b.items) <= q:
            await RisingEdge(clk)
        bad = any(x[3] for x in t.log)
        cx.check(b.items[q].bresp == (2 if bad else 0), "slave error exactly if the target failed")
        exp = expected_writes(cx, [(addr // lanes * lanes, d, st)], lanes)
        if not bad:
            same_writes(cx, t.bytes_written(), exp, "strobed bytes written to their addresses")
        else:
            cx.cover("failed")
            for a, v in t.bytes_written():
                cx.check(cx.or_(*[cx.and_(a == ea, v == ed) for ea, ed in exp]), "only bytes of the word are written")
    await clocks(clk, 3)
    cx.check(len(b.items) == cfg["n"], "one response per write")


@case("C26", "axil_read_fail", quick=[dict(lanes=1, n=3), dict(lanes=4, n=2, low=2)], thorough=[dict(lanes=1, n=5), dict(lanes=4, n=2, low=2), dict(lanes=8, n=3)])
async def axil_read_fail(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    ch = channels(cx, ALL, AXIL, lanes, master=False)
    t = Target(cx, lambda: cx.flag("fail"))
    new_slave(cx, clk, t)
    ar, r = Tx(cx, clk, ch["ar"]), Rx(cx, clk, ch["r"])
    await RisingEdge(clk)
    for q in range(cfg["n"]):
        a = cx.addr("addr" + str(q), 32, cfg.get("low", 0))
        del t.log[:]
        ar.put(araddr=a)
        while len(r.items) <= q:
            await RisingEdge(clk)
        bad = any(x[3] for x in t.log)
        cx.check(r.items[q].rresp == (2 if bad else 0), "slave error exactly if the target failed")
        if not bad:
            for j in range(lanes):
                cx.check((r.items[q].rdata >> (8 * j)) & 0xff == content(a // lanes * lanes + j), "contents of the addressed word", f"lane {j}")
        else:
            cx.cover("failed")
    await clocks(clk, 3)
    cx.check(len(r.items) == cfg["n"], "one response per read")
