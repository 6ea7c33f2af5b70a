"""Several components on one memory; slave models on address spaces; buses behind address spaces."""
from cocotb.triggers import RisingEdge
from cocotbext.axi import AddressSpace, MemoryRegion, SparseMemoryRegion
from cocotbext.axi import AxiWriteBus, AxiReadBus, AxiMasterWrite, AxiMasterRead, AxiRamWrite, AxiRamRead
from cocotbext.axi import AxiLiteWriteBus, AxiLiteReadBus, AxiLiteMasterWrite, AxiLiteMasterRead, AxiLiteRamWrite, AxiLiteRamRead
from cocotbext.axi.sparse_memory import SparseMemory
from symx.api import case
from harness.e2e import Pair, store, compare
from harness.common import channels, AXI, AXIL, pick

SPARSE = 2 ** 20


class Port:
    """one way to access the memory"""

    def __init__(self, cx, clk, kind, lanes, size, mem, k):
        self.kind = kind
        if kind == "region":
            self.p = (SparseMemoryRegion(size, mem=mem) if isinstance(mem, SparseMemory) else MemoryRegion(size, mem=mem))
        elif kind == "space":
            r = (SparseMemoryRegion(size, mem=mem) if isinstance(mem, SparseMemory) else MemoryRegion(size, mem=mem))
            self.p = AddressSpace(2 ** 16)
            self.p.register_region(r, 0x100, size)
        elif kind.endswith("-halves"):
            # write and read models on signals of their own
            W, R = f"p{k}w", f"p{k}r"
            axi = kind == "axi-halves"
            channels(cx, ("aw", "w", "b"), AXI if axi else AXIL, lanes, master=None, prefix=W)
            channels(cx, ("ar", "r"), AXI if axi else AXIL, lanes, master=None, prefix=R)
            wb = [(AxiWriteBus if axi else AxiLiteWriteBus).from_prefix(cx.top, W) for _ in range(2)]
            rb = [(AxiReadBus if axi else AxiLiteReadBus).from_prefix(cx.top, R) for _ in range(2)]
            self.w = (AxiMasterWrite if axi else AxiLiteMasterWrite)(wb[0], clk)
            self.r = (AxiMasterRead if axi else AxiLiteMasterRead)(rb[0], clk)
            self.s = (AxiRamWrite if axi else AxiLiteRamWrite)(wb[1], clk, mem=mem), (AxiRamRead if axi else AxiLiteRamRead)(rb[1], clk, mem=mem)
        else:
            self.p = Pair(cx, clk, kind.split("-")[0], lanes, size, mem=mem, prefix=f"p{k}")

    async def write(self, a, d):
        if self.kind == "region":
            await self.p.write(a, d)
        elif self.kind == "space":
            await self.p.write(a + 0x100, d)
        elif self.kind.endswith("-ram"):
            self.p.s.write(a, d)
        elif self.kind.endswith("-halves"):
            return (await self.w.write(a, d)).resp
        else:
            return (await self.p.m.write(a, d)).resp

    async def read(self, a, n):
        if self.kind == "region":
            return await self.p.read(a, n)
        if self.kind == "space":
            return await self.p.read(a + 0x100, n)
        if self.kind.endswith("-ram"):
            return self.p.s.read(a, n)
        if self.kind.endswith("-halves"):
            return (await self.r.read(a, n)).data
        return (await self.p.m.read(a, n)).data


PAIRS = ((("axi", "axil"), (2, 4), False), (("apb", "axi"), (4, 1), False), (("axil", "apb"), (1, 2), True), (("axi-ram", "axil"), (2, 2), True))
PORTS_Q = [dict(ports=p, lanes=l, size=s, ops=o, n=n, sparse=sp) for p, l, sp in PAIRS for s, o, n in ((4, "wwr", (2, 1, 2)), (4, "rwr", (2,)), (8, "wr", (5, 3)))]
PORTS_Q += [dict(ports=p, lanes=(2, 2), size=s, ops=o, n=n, sparse=sp) for p, sp in ((("axi-halves", "region"), False), (("axil-halves", "region"), True)) for s, o, n in ((8, "wr", (3, 2)), (4, "rwr", (2,)))]
PORTS_Q += [dict(ports=("region", "apb-ram", "axi"), lanes=(1, 2, 2), size=8, ops="wr", n=(2, 3)), dict(ports=("space", "axil-ram", "apb"), lanes=(1, 2, 2), size=8, ops="wr", n=(2, 3), sparse=True)]
PORTS_T = PORTS_Q + [dict(ports=p, lanes=l, size=8, ops="wwr", n=(2, 3), sparse=sp) for p, l, sp in PAIRS] + [dict(ports=p, lanes=l, size=16, ops=o, n=(3, 5), sparse=s) for p, l in ((("axi", "axil", "apb"), (2, 4, 8)), (("region", "axi", "apb-ram"), (1, 4, 2)), (("space", "axil", "axi-ram"), (1, 4, 2))) for o in ("wwr", "wrwr") for s in (False, True)]


@case("C27", "ports", quick=PORTS_Q, thorough=PORTS_T, max_cycles=200, must=("one memory",))
async def ports(cx, cfg):
    """components which share a memory object"""
    size = cfg["size"]
    clk = cx.clock()
    mem = SparseMemory(SPARSE) if cfg.get("sparse") else bytearray(size)
    pp = [Port(cx, clk, k, l, size, mem, i) for i, (k, l) in enumerate(zip(cfg["ports"], cfg["lanes"]))]
    ref = [0] * size
    await RisingEdge(clk)
    for k, op in enumerate(cfg["ops"]):
        p = pp[cx.choice("port", range(len(pp)))]
        n = cfg["n"][k % len(cfg["n"])]
        a = cx.addr(f"addr{k}", 16, 3)
        cx.assume(a + n <= size)
        if op == "w":
            d = cx.bytes(f"data{k}", n)
            resp = await p.write(a, d)
            cx.check(resp is None or resp == 0, "response okay")
            ref = store(cx, ref, a, d)
        else:
            got = await p.read(a, n)
            cx.check(len(got) == n, "length of the data read")
            for i in range(n):
                cx.check(got[i] == pick(cx, ref, a + i), "one memory", f"byte {i}")
    for p in pp:
        got = await p.read(0, size)
        for q in range(size):
            cx.check(got[q] == ref[q], "one memory", f"byte {q} after the operations, {p.kind}")


BRIDGE_Q = [dict(up="axi", lanes=2, low="mem", n=3), dict(up="axil", lanes=2, low="mem", n=3), dict(up="apb", lanes=2, low="mem", n=3), dict(up="axi", lanes=2, low="apb", dlanes=2, n=2), dict(up="axil", lanes=2, low="axi", dlanes=2, n=2),
            dict(up="apb", lanes=2, low="axil", dlanes=4, n=2)]
BRIDGE_T = BRIDGE_Q + [dict(up=u, lanes=l, low=d, dlanes=dl, n=n) for u in ("axi", "axil", "apb") for d in ("axi", "axil", "apb") for l, dl, n in ((4, 2, 4), (2, 4, 4), (4, 4, 6))] + [dict(up=u, lanes=4, low="mem", n=6) for u in ("axi", "axil", "apb")]


@case("C27", "bridge", quick=BRIDGE_Q, thorough=BRIDGE_T, max_cycles=300, must=("translated address", "unmapped access answered with an error"))
async def bridge(cx, cfg):
    """a slave model whose target is an address space with a memory region and a second region: memory, or the master of another bus"""
    lanes = cfg["lanes"]
    clk = cx.clock()
    space = AddressSpace(2 ** 32)
    up = Pair(cx, clk, cfg["up"], lanes, None, prefix="up", target=space)
    # first region at 0x40, second one directly behind it or further away
    s1, s2, size2 = 4, 4, 16
    m1 = bytearray(s1)
    m2 = bytearray(size2)
    if cfg["low"] == "mem":
        low = MemoryRegion(size2, mem=m2)
    else:
        low = Pair(cx, clk, cfg["low"], cfg["dlanes"], size2, mem=m2, prefix="down").m
    b1 = 0x40
    gap = cx.choice("gap", (0, 4))
    b2 = b1 + s1 + gap
    tr = cx.choice("translation", (0, 5, None))
    if tr is None:
        # untranslated: the region sees the addresses of the space
        b2 = 8
    space.register_region(MemoryRegion(s1, mem=m1), b1)
    space.register_region(low, b2, s2, tr)
    to = b2 if tr is None else tr
    ref1 = [cx.bits("first", 8) for _ in range(s1)]
    ref2 = [cx.bits("second", 8) for _ in range(size2)]
    for k in range(s1):
        m1[k] = ref1[k]
    for k in range(size2):
        m2[k] = ref2[k]
    await RisingEdge(clk)
    n = cfg["n"]
    a = cx.addr("addr", 8, 3)
    where = []
    for i in range(n):
        if cx.and_(a + i >= b1, a + i < b1 + s1):
            where.append((1, a + i - b1))
        elif cx.and_(a + i >= b2, a + i < b2 + s2):
            where.append((2, a + i - b2 + to))
        else:
            where.append(None)
    mapped = None not in where
    write = cx.flag("write")
    old = list(ref1), list(ref2)
    if write:
        d = cx.bytes("data", n)
        r = await up.m.write(a, d)
        for i, w in enumerate(where):
            if w is not None:
                ref = (ref1, ref2)[w[0] - 1]
                for q in range(len(ref)):
                    ref[q] = cx.ite(w[1] == q, d[i], ref[q])
    else:
        r = await up.m.read(a, n)
    if not mapped:
        cx.check(r.resp == 2, "unmapped access answered with an error")
    else:
        cx.check(r.resp == 0, "response okay")
        if not write:
            cx.check(len(r.data) == n, "length of the data read")
            for i, (k, q) in enumerate(where):
                cx.check(r.data[i] == pick(cx, (ref1, ref2)[k - 1], q), "translated address", f"byte {i}")
    for m, ref, o in ((m1, ref1, old[0]), (m2, ref2, old[1])):
        for q in range(len(ref)):
            if mapped:
                cx.check(m[q] == ref[q], "translated address", "memory")
            else:
                # the mapped part of a refused access is unclaimed
                cx.check(cx.or_(m[q] == ref[q], m[q] == o[q]), "nothing else changes")
    # and the path works on after an error
    x = cx.bytes("then", 1)
    r = await up.m.write(b2, x)
    r2 = await up.m.read(b2, 1)
    cx.check(r.resp == 0 and r2.resp == 0 and r2.data[0] == x[0], "translated address", "afterwards")
    cx.check(m2[to] == x[0], "translated address", "afterwards")
