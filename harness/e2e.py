"""A master and the RAM model of its bus, connected: a byte array."""
import cocotb
from cocotb.triggers import RisingEdge, FallingEdge
from cocotbext.axi import AxiBus, AxiMaster, AxiRam, AxiSlave, AxiLiteBus, AxiLiteMaster, AxiLiteRam, AxiLiteSlave, ApbBus, ApbMaster, ApbRam, ApbSlave
from symx.api import case
from harness.common import channels, AXI, AXIL, clocks, pick
from harness.apb import Sigs

ALL = ("aw", "w", "b", "ar", "r")


class Pair:
    def __init__(self, cx, clk, kind, lanes, size, maxb=256, mem=None, prefix=None, target=None):
        """target: a slave model with this target in place of the RAM"""
        self.kind = kind
        prefix = prefix or ("apb" if kind == "apb" else "axi")
        kw = dict(target=target) if target is not None else dict(mem=mem) if mem is not None else dict(size=size)
        if kind == "apb":
            Sigs(cx, lanes, master=None, prefix=prefix)
            self.m = ApbMaster(ApbBus.from_prefix(cx.top, prefix), clk)
            self.s = (ApbRam if target is None else ApbSlave)(ApbBus.from_prefix(cx.top, prefix), clk, **kw)
            self.pausable = [(self.m, "pause"), (self.s, "pause")]
            return
        axi = kind == "axi"
        channels(cx, ALL, AXI if axi else AXIL, lanes, master=None, prefix=prefix)
        Bus = AxiBus if axi else AxiLiteBus
        self.m = AxiMaster(Bus.from_prefix(cx.top, prefix), clk, max_burst_len=maxb) if axi else AxiLiteMaster(Bus.from_prefix(cx.top, prefix), clk)
        S = (AxiRam if axi else AxiLiteRam) if target is None else (AxiSlave if axi else AxiLiteSlave)
        self.s = S(Bus.from_prefix(cx.top, prefix), clk, **kw)
        self.pausable = []
        for c in ALL:
            for d in (self.m, self.s):
                i = d.write_if if c in ("aw", "w", "b") else d.read_if
                self.pausable.append(getattr(i, c + "_channel"))


def store(cx, ref, a, data):
    return [cx.ite(cx.and_(q >= a, q < a + len(data)), pick(cx, data, q - a), ref[q]) for q in range(len(ref))]


def sizes(cx, kind, lanes):
    return dict(size=cx.choice("size", range(lanes.bit_length()))) if kind == "axi" else {}


def compare(cx, r, ref, a, n):
    cx.check(r.address == a and len(r.data) == n, "read result")
    cx.check(r.resp == 0, "response okay")
    for k in range(n):
        cx.check(r.data[k] == pick(cx, ref, a + k), "reads return the bytes written last", f"byte {k}")


SEQ_Q = [
    dict(kind="axi", lanes=2, size=8, ops="wr", lens=(1, 3)), dict(kind="axi", lanes=4, size=16, ops="wr", lens=(2, 5)), dict(kind="axi", lanes=1, size=8, ops="wwr", lens=(2,), maxb=1),
    dict(kind="axi", lanes=2, size=8, ops="wwr", lens=(3,), size1=True), dict(kind="axil", lanes=2, size=8, ops="wr", lens=(1, 3)), dict(kind="axil", lanes=4, size=16, ops="wr", lens=(2, 5)), dict(kind="axil", lanes=2, size=8, ops="wwr", lens=(3,)),
    dict(kind="apb", lanes=2, size=8, ops="wr", lens=(1, 3)), dict(kind="apb", lanes=4, size=16, ops="wr", lens=(2, 5)), dict(kind="apb", lanes=2, size=8, ops="wwr", lens=(3,)),
    *[dict(kind=k, lanes=2, size=6, ops="wrwr", lens=(3,), size1=True) for k in ("axi", "axil", "apb")]]
SEQ_T = SEQ_Q + [dict(kind=k, lanes=l, size=s, ops=o, lens=n) for k in ("axi", "axil", "apb") for l, s, o, n in (
    (2, 16, "wrwr", (1, 2, 4)), (4, 16, "wwr", (1, 3, 6)), (8, 32, "wwr", (3, 9)), (1, 8, "wrwwr", (1, 2)), (4, 32, "wrw", (5, 9)))] + [dict(kind="axi", lanes=4, size=32, ops="wwr", lens=(7, 9), maxb=m) for m in (1, 2)]


@case("C10", "sequence", quick=SEQ_Q, thorough=SEQ_T, max_cycles=300)
async def sequence(cx, cfg):
    """one operation after the other"""
    kind, lanes, size = cfg["kind"], cfg["lanes"], cfg["size"]
    clk = cx.clock()
    p = Pair(cx, clk, kind, lanes, size, cfg.get("maxb", 256), bytearray(size))
    ref = [0] * size
    await RisingEdge(clk)
    for k, op in enumerate(cfg["ops"]):
        n = cx.choice("len", cfg["lens"])
        a = cx.addr(f"addr{k}", 32, lanes.bit_length() - 1)
        cx.assume(a + n <= size)
        kw = {} if cfg.get("size1") else sizes(cx, kind, lanes)
        if op == "w":
            d = cx.bytes(f"data{k}", n)
            r = await p.m.write(a, d, **kw)
            cx.check(r.resp == 0 and r.length == n and r.address == a, "response okay")
            ref = store(cx, ref, a, d)
        else:
            compare(cx, await p.m.read(a, n, **kw), ref, a, n)
    got = p.s.read(0, size)
    for q in range(size):
        cx.check(got[q] == ref[q], "only the written bytes change", f"byte {q}")
    cx.check(p.m.idle(), "all operations complete")


PIPE_Q = [dict(kind="axi", lanes=2, size=8, n=(3, 2), ids=True), dict(kind="axi", lanes=1, size=4, n=(2, 1, 2), maxb=1), dict(kind="axil", lanes=2, size=8, n=(3, 2)), dict(kind="apb", lanes=2, size=8, n=(3, 2))]
PIPE_T = PIPE_Q + [dict(kind=k, lanes=4, size=16, n=n, maxb=m, ids=True) for k in ("axi", "axil", "apb") for n in ((5, 3), (2, 4, 3)) for m in ((1, 256) if k == "axi" else (256,))]


@case("C10", "pipelined", quick=PIPE_Q, thorough=PIPE_T, max_cycles=300)
async def pipelined(cx, cfg):
    """writes started together take effect in order; then reads started together"""
    kind, lanes, size = cfg["kind"], cfg["lanes"], cfg["size"]
    clk = cx.clock()
    p = Pair(cx, clk, kind, lanes, size, cfg.get("maxb", 256), bytearray(size))
    ref = [0] * size
    await RisingEdge(clk)
    ops = []
    for k, n in enumerate(cfg["n"]):
        a = cx.addr(f"addr{k}", 32, lanes.bit_length() - 1)
        cx.assume(a + n <= size)
        ops.append((a, cx.bytes(f"data{k}", n)))
    same = cx.flag("same id") if cfg.get("ids") else False
    for a, d in ops:
        p.m.init_write(a, d, **(dict(awid=1) if same else {}))
        ref = store(cx, ref, a, d)
    await p.m.wait()
    evs = [p.m.init_read(a, len(d), **(dict(arid=1) if same else {})) for a, d in ops]
    for ev, (a, d) in zip(evs, ops):
        if not ev.is_set():
            await ev.wait()
        compare(cx, ev.data, ref, a, len(d))
    got = p.s.read(0, size)
    for q in range(size):
        cx.check(got[q] == ref[q], "only the written bytes change", f"byte {q}")


PAUSE_Q = [dict(kind="axi", bits=4, chans=range(10), maxb=1), dict(kind="axil", bits=4, chans=range(10)), dict(kind="apb", bits=4, chans=range(2)), dict(kind="axi", bits=2, chans=range(0, 10), two=True), dict(kind="axil", bits=2, chans=range(0, 10), two=True), dict(kind="apb", bits=3, chans=(0,), two=True)]
PAUSE_T = PAUSE_Q + [dict(kind="axi", bits=7, chans=range(10), maxb=1), dict(kind="axil", bits=7, chans=range(10)), dict(kind="apb", bits=8, chans=range(2)), dict(kind="axi", bits=4, chans=range(0, 10), two=True), dict(kind="axil", bits=4, chans=range(0, 10), two=True),
                     dict(kind="apb", bits=5, chans=(0,), two=True)]


@case("C10", "pauses", quick=PAUSE_Q, thorough=PAUSE_T, max_cycles=200)
async def pauses(cx, cfg):
    """pause patterns on the channels of either side"""
    kind, lanes, size = cfg["kind"], 1, 8
    clk = cx.clock()
    p = Pair(cx, clk, kind, lanes, size, cfg.get("maxb", 256), bytearray(size))
    ref = [0] * size
    c1 = cx.choice("channel", cfg["chans"])
    chans = [c1]
    if cfg.get("two"):
        chans.append(cx.choice("channel", [c for c in range(len(p.pausable)) if c > c1] or [c1]))

    def pattern(name):
        for k in range(cfg["bits"]):
            yield cx.flag(name)
        while True:
            yield False

    async def pause_apb(d, name):
        for v in pattern(name):
            d.pause = v
            await RisingEdge(clk)
    await RisingEdge(clk)
    for i, c in enumerate(dict.fromkeys(chans)):
        d = p.pausable[c]
        if kind == "apb":
            cocotb.start_soon(pause_apb(d[0], f"pause {i}"))
        else:
            d.set_pause_generator(pattern(f"pause {i}"))
    a = [cx.bits(f"addr{k}", 3) for k in range(2)]
    n = 2
    for x in a:
        cx.assume(x + n <= size)
    d = [cx.bytes(f"data{k}", n) for k in range(2)]
    evs = []
    for k in range(2):
        evs.append(p.m.init_write(a[k], d[k]))
        ref = store(cx, ref, a[k], d[k])
        if k == 0:
            await clocks(clk, cx.choice("gap", (0, 3)))
    await p.m.wait()
    compare(cx, await p.m.read(a[0], n), ref, a[0], n)
    r = await p.m.read(0, size)
    compare(cx, r, ref, 0, size)
    for ev in evs:
        cx.check(ev.is_set() and ev.data.resp == 0, "all operations complete")
    got = p.s.read(0, size)
    for q in range(size):
        cx.check(got[q] == ref[q], "only the written bytes change", f"byte {q}")
