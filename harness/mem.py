"""Memories and word accessors."""
import mmap
from cocotbext.axi import (AddressSpace, SparseMemoryRegion, MemoryRegion, PeripheralRegion,
                           AxiBus, AxiMaster, AxiRam, AxiLiteBus, AxiLiteMaster, AxiLiteRam, ApbBus, ApbMaster, ApbRam)
from cocotbext.axi.address_space import Region
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory
from symx.api import case
from harness.common import AXI, AXIL, channels, clocks
from harness.apb import Sigs


class Model:
    """byte array: the list of all writes"""

    def __init__(self, cx):
        self.cx = cx
        self.log = []

    def write(self, a, data):
        self.log.append((a, list(data)))

    def clear(self):
        del self.log[:]

    def byte(self, a):
        v = 0
        for wa, d in self.log:
            for j in range(len(d)):
                v = self.cx.ite(a == wa + j, d[j], v)
        return v

    def read(self, a, n):
        return [self.byte(a + k) for k in range(n)]


def same(cx, got, want, name="bytes last written, or zero"):
    cx.check(len(got) == len(want), "length of the result")
    for g, w in zip(got, want):
        cx.check(g == w, name)


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def make(cx, cfg):
    size = cfg["size"] or cx.int("size", 1, 2 ** 64)
    return SparseMemory(size), size


SIZES = [dict(size=s) for s in (0, 1, 4, 4096, 8195, 2 ** 20, 2 ** 64)]


def attempt(fn):
    try:
        return [fn()]
    except Exception:
        return None


def do_write(mem, form, a, src, n):
    if form == "method":
        mem.write(a, src)
    elif form == "index":
        mem[a] = src[0]
    else:
        mem[a:a + n] = src


def do_read(mem, form, a, n):
    return mem.read(a, n) if form == "method" else [mem[a]] if form == "index" else mem[a:a + n]


def inside(cx, a, n, size):
    return cx.and_(a >= 0, a + n <= size)


def form_of(cx, cfg):
    n = cfg["n"]
    return cx.choice("form", cfg.get("forms") or [("method", 1), ("method", n), ("index", 1), ("slice", n)])


M2 = [("method", 2)]
OPS_Q = [dict(size=s, ops="wwr", n=2) for s in (1, 4, 4096)] + [dict(size=s, ops="wr", n=2) for s in (0, 8195, 2 ** 20, 2 ** 64)] + \
        [dict(size=s, ops="wwr", n=2, forms=M2) for s in (8195, 2 ** 64)] + [dict(size=2 ** 64, ops="wr", n=4, forms=[("method", 4)]), dict(size=2 ** 64, ops="wcwr", n=1, forms=[("method", 1)]),
                                                                             dict(size=2 ** 64, ops="wr", n=3, types=True, forms=[("method", 3), ("slice", 3)]), dict(size=8195, ops="wrwr", n=2, forms=[("method", 1)])]
OPS_T = OPS_Q + [dict(size=s, ops="wwr", n=2) for s in (0, 8195, 2 ** 20, 2 ** 64)] + \
        [dict(size=s, ops=o, n=n, forms=[("method", n)]) for s in (0, 8195, 2 ** 64) for o, n in (("wwr", 4), ("wwwr", 2), ("wrwr", 2), ("wrwrr", 1), ("wcwr", 2))] + [dict(size=2 ** 64, ops="wwr", n=3, types=True)]


@case("C18", "ops", quick=OPS_Q, thorough=OPS_T, must=("bytes last written, or zero",))
async def ops(cx, cfg):
    """sequences of accesses which are in range"""
    mem, size = make(cx, cfg)
    model = Model(cx)
    kept = []
    for o in cfg["ops"]:
        if o == "c":
            mem.clear()
            model.clear()
            continue
        form, n = form_of(cx, cfg)
        a = cx.int("address", 0, 2 ** 64 - 1)
        cx.assume(inside(cx, a, n, size))
        if o == "w":
            data = cx.bytes("data", n)
            src = data
            kind = cx.choice("data type", ("bytes", "bytearray", "list")) if cfg.get("types") else "bytes"
            if kind != "bytes" and form != "index":
                src = bytearray(data) if kind == "bytearray" else list(data)
            do_write(mem, form, a, src, n)
            model.write(a, data)
            if src is not data:
                for k in range(n):
                    src[k] = 0x5a
        else:
            got = do_read(mem, form, a, n)
            want = model.read(a, n)
            same(cx, got, want)
            kept.append((got, want))
    if cfg["ops"][-1] == "r" and cfg["ops"][-2:] != "rr":
        # results do not change later
        got, want = kept[-1]
        mem.write(0, b"\xa5" * min(cfg["size"] or 1, 4))
        mem.clear()
        same(cx, got, want, "a result does not change later")


ERR = [dict(c, error=e) for c in SIZES for e in ("write", "read", "assign", "negative", "step")]


@case("C18", "wrapped", quick=[dict(kind=k, size=s) for k, s in (("default", 2 ** 64), ("memory", 4096), ("memory", 2 ** 64), ("shared", 2 ** 40), ("region", 2 ** 64), ("axi ram", 2 ** 64), ("axil ram", 2 ** 64), ("apb ram", 2 ** 64))],
      must=("bytes last written, or zero", "size"))
async def wrapped(cx, cfg):
    """memory objects which contain a sparse memory"""
    k, size = cfg["kind"], cfg["size"]
    if k == "default":
        mem = Memory()
    elif k == "memory":
        mem = Memory(size)
    elif k == "shared":
        mem = Memory(mem=SparseMemory(size))
    elif k == "region":
        mem = SparseMemoryRegion(size)
    else:
        clk = cx.clock()
        if k == "apb ram":
            Sigs(cx, 4, 16, master=None)
            mem = ApbRam(ApbBus.from_prefix(cx.top, "apb"), clk)
        else:
            channels(cx, ("aw", "w", "b", "ar", "r"), AXI if k == "axi ram" else AXIL, 4, addrw=16, idw=2, opt=("wstrb", "bresp", "rresp", "awprot", "arprot"), prefix="x", master=None)
            mem = AxiRam(AxiBus.from_prefix(cx.top, "x"), clk) if k == "axi ram" else AxiLiteRam(AxiLiteBus.from_prefix(cx.top, "x"), clk)
    cx.check(mem.size == size, "size")
    model = Model(cx)
    a = cx.int("address", 0, 2 ** 64 - 1)
    cx.assume(inside(cx, a, 2, size))
    d = cx.bytes("data", 2)
    if k == "region":
        await mem.write(a, d)
    else:
        mem.write(a, d)
    model.write(a, d)
    b = cx.int("address", 0, 2 ** 64 - 1)
    cx.assume(inside(cx, b, 1, size))
    same(cx, (await mem.read(b, 1)) if k == "region" else mem.read(b, 1), model.read(b, 1))
    if k == "region":
        cx.check(mem[b] == model.byte(b), "bytes last written, or zero")
        mem[b] = 0x77
        same(cx, mem[b:b + 1], [0x77])


REG_Q = [dict(kind=k, size=s, ops=o, n=n) for k, s in (("mmap", 5), ("shared", 4), ("sparse", 4)) for o, n in (("wr", 2), ("ww", 2))] + [dict(kind="mmap", size=None, ops="wr", n=2), dict(kind="sparse", size=None, ops="wr", n=2)]
REG_T = REG_Q + [dict(kind=k, size=s, ops=o, n=n) for k in ("mmap", "shared", "sparse") for s, o, n in ((8, "wwr", 3), (8, "wrwr", 2), (16, "wr", 5))]


@case("C18", "region", quick=REG_Q, thorough=REG_T, must=("bytes last written, or zero", "outside of the region"))
async def region(cx, cfg):
    """memory regions, by methods, index and slice; two regions on one memory"""
    kind, n = cfg["kind"], cfg["n"]
    full = cfg["size"]
    if full is None:
        # the default size
        reg = [MemoryRegion() if kind == "mmap" else SparseMemoryRegion()]
        size = 4096 if kind == "mmap" else 2 ** 64
        cx.check(reg[0].size == size, "size")
    else:
        size = full
        if kind == "mmap":
            reg = [MemoryRegion(size)]
        elif kind == "shared":
            mem = bytearray(size)
            reg = [MemoryRegion(size, mem=mem), MemoryRegion(size=size, mem=mem)]
        else:
            mem = SparseMemory(size)
            reg = [SparseMemoryRegion(size, mem=mem), SparseMemoryRegion(size=size, mem=mem)]
    model = Model(cx)
    for o in cfg["ops"]:
        r = reg[cx.choice("region", range(len(reg)))]
        form = cx.choice("form", ("method", "index", "slice"))
        k = 1 if form == "index" else n
        if full is None:
            a = cx.choice("address", (0, size - k))
        else:
            a = cx.choice("address", range(size)) if o == "w" else cx.addr("address", 8, 3)
        if form == "method" and not cx.choice("inside", (1, 0)):
            # methods check the range
            a = cx.int("outside", -2, 2 ** 64 + 2)
            cx.assume(cx.not_(inside(cx, a, n, size)))
            data = cx.bytes("data", n)
            bad = False
            try:
                if o == "w":
                    await r.write(a, data)
                else:
                    await r.read(a, n)
            except ValueError:
                bad = True
            cx.check(bad, "outside of the region")
            continue
        cx.assume(inside(cx, a, k, size))
        if o == "w":
            data = cx.bytes("data", k)
            if form == "method":
                await r.write(a, data)
            elif form == "index":
                r[a] = data[0]
            else:
                r[a:a + k] = data
            model.write(a, data)
        else:
            got = await r.read(a, k) if form == "method" else [r[a]] if form == "index" else r[a:a + k]
            same(cx, got, model.read(a, k))
    if full is not None:
        for r in reg:
            want = model.read(0, size)
            same(cx, await r.read(0, size), want)
            if kind != "sparse":
                same(cx, bytes(r), want)
            else:
                same(cx, r.mem[0:size], want)
                cx.check(len(r.mem) == size, "size")


@case("C18", "errors", quick=ERR, thorough=[dict(e, n=3) for e in ERR] + [dict(e, n=4, first=2) for e in ERR], must=("out of range", "wrong length", "negative length"))
async def errors(cx, cfg):
    """accesses which must fail and change nothing"""
    mem, size = make(cx, cfg)
    n = cfg.get("n", 2)
    model = Model(cx)
    cx.check(mem.size == size, "size")
    a = cx.int("address", 0, 2 ** 64 - 1)
    m = cfg.get("first", 1)
    cx.assume(inside(cx, a, m, size))
    d = cx.bytes("data", m)
    mem.write(a, d)
    model.write(a, d)
    kind = cfg["error"]
    if kind in ("write", "read"):
        form, k = cx.choice("form", [("method", 1), ("method", n), ("index", 1)] + ([("slice", n)] if kind == "write" else []))
        b = cx.int("start", -3 if form != "slice" else 0, 2 ** 64 + 2)
        cx.assume(cx.not_(inside(cx, b, k, size)))
        data = cx.bytes("data", k)
        if kind == "write":
            cx.check(attempt(lambda: do_write(mem, form, b, data, k)) is None, "out of range")
        else:
            cx.check(attempt(lambda: do_read(mem, form, b, k)) is None, "out of range")
    else:
        b = cx.int("start", 0, 2 ** 64 - 1)
        cx.assume(b < size)
        if kind == "assign":
            k = cx.choice("slice length", range(0, 2 + n))
            cx.assume(b + k <= size)
            j = cx.choice("data length", range(0, 2 + n))
            cx.assume(k != j)
            data = cx.bytes("data", j)

            def f():
                mem[b:b + k] = data
            cx.check(raises(f), "wrong length")
        elif kind == "negative":
            k = cx.int("length", -(2 ** 64), -1)
            cx.check(raises(lambda: mem.read(b, k)), "negative length")
        else:
            s = cx.choice("step", (-1, 2, 3))
            k = cx.choice("slice length", range(2, 4))

            def g():
                mem[b:b + k:s] = bytes(k)
            cx.check(raises(g), "step")
    c = cx.int("address", 0, 2 ** 64 - 1)
    cx.assume(c < size)
    same(cx, mem.read(c, 1), model.read(c, 1))


def big(n, tag):
    return [(k * 7 + tag + (k >> 8) * 3) & 0xff for k in range(n)]


LONG = [4095, 4096, 4097, 8191, 8193, 12290]


@case("C18", "long", quick=[dict(n=4097, off=3), dict(n=8200, off=2)], thorough=[dict(n=n, off=8) for n in LONG])
async def long(cx, cfg):
    """accesses covering whole blocks"""
    n = cfg["n"]
    mem = SparseMemory(2 ** 64)
    blk = cx.choice("block", (1, 2 ** 50))
    e = cfg["off"]
    off = cx.choice("offset", list(range(e)) + list(range(4096 - e, 4096)))
    a = blk * 4096 + off
    w = cx.choice("distance", (-2, -1, 0, 1, n - 2, n - 1, n, n + 1))
    model = {}
    before = cx.bytes("before", 2)
    mem.write(a + w, before)
    model[w] = before[0]
    model[w + 1] = before[1]
    data = big(n, 1)
    sub = cx.bytes("data", 3)
    pos = (0, 4096 - off if off else 4096, n - 1)
    for p, x in zip(pos, sub):
        if p < n:
            data[p] = x
    mem.write(a, bytes(data))
    for k in range(n):
        model[k] = data[k]
    got = mem.read(a - 4, n + 8)
    cx.check(len(got) == n + 8, "length of the result")
    for k in range(n + 8):
        want = model.get(k - 4, 0)
        if k - 4 in pos or k < 8 or k > n or not (type(want) is int and got[k] == want):
            cx.check(got[k] == want, "bytes last written, or zero")


# ------------------------------------------------------------------- words

class Plain:
    """plain object with read and write methods"""

    def __init__(self, n):
        self.mem = SparseMemory(n)

    async def read(self, address, length, **kwargs):
        return self.mem.read(address, length)

    async def write(self, address, data, **kwargs):
        self.mem.write(address, bytes(data))


def interface(cx, kind):
    """a memory interface, the address at which to use it, raw access to its bytes"""
    clk = cx.clock()
    if kind == "memory":
        m = Memory(2 ** 32)
        return clk, m, 0, m.mem
    if kind == "memory mmap":
        raw = mmap.mmap(-1, 64)
        return clk, Memory(mem=raw), 0, raw
    if kind == "memory bytearray":
        raw = bytearray(64)
        return clk, Memory(mem=raw), 0, raw
    if kind == "sparse region":
        m = SparseMemoryRegion(2 ** 32)
        return clk, m, 0, m.mem
    if kind == "memory region":
        m = MemoryRegion(64)
        return clk, m, 0, m.mem
    if kind == "peripheral":
        p = Plain(64)
        return clk, PeripheralRegion(p, 64), 0, p.mem
    if kind == "window":
        m = SparseMemoryRegion(2 ** 32)
        return clk, m.create_window(16, 64), 16, m.mem
    if kind == "pool window":
        m = MemoryRegion(256)
        p = m.create_window_pool(64, 128)
        return clk, p.alloc_window(64), 64, m.mem
    if kind == "space":
        sp = AddressSpace(2 ** 32)
        m = SparseMemory(64)
        sp.register_region(MemoryRegion(16, mem=m), 0)
        sp.register_region(SparseMemoryRegion(64, mem=m), 16, 48, 16)
        return clk, sp, 0, m
    if kind == "pool":
        sp = AddressSpace(2 ** 32)
        r = sp.create_pool(64, 64).alloc_region(64)
        return clk, r, 0, r.mem
    if kind == "apb":
        s = Sigs(cx, 4, 16, master=None)
        bus = ApbBus.from_prefix(cx.top, "apb")
        m = SparseMemory(2 ** 16)
        ApbRam(bus, clk, mem=m)
        return clk, ApbMaster(bus, clk), 0, m
    t, chans = (AXI if kind == "axi" else AXIL), ("aw", "w", "b", "ar", "r")
    channels(cx, chans, t, 4, addrw=16, idw=2, opt=("wstrb", "bresp", "rresp", "awprot", "arprot"), prefix="x", master=None)
    m = SparseMemory(2 ** 16)
    if kind == "axi":
        bus = AxiBus.from_prefix(cx.top, "x")
        AxiRam(bus, clk, mem=m)
        return clk, AxiMaster(bus, clk), 0, m
    bus = AxiLiteBus.from_prefix(cx.top, "x")
    AxiLiteRam(bus, clk, mem=m)
    return clk, AxiLiteMaster(bus, clk), 0, m


def to_bytes(x, ws, order):
    b = [(x >> (8 * k)) & 0xff for k in range(ws)]
    return b if order == "little" else b[::-1]


KINDS = ["memory", "memory mmap", "memory bytearray", "sparse region", "memory region", "peripheral", "window", "pool window", "space", "pool", "apb", "axil", "axi"]
FORMS = ["words", "dwords", "qwords", "byte", "word", "dword", "qword"]


@case("C19", "words", quick=[dict(kind=k, words=2) for k in KINDS], thorough=[dict(kind=k, words=w) for k in KINDS for w in (2, 3)], must=("bytes of the words", "words read"))
async def words(cx, cfg):
    kind = cfg["kind"]
    clk, m, base, raw = interface(cx, kind)
    sync = kind.startswith("memory") and kind != "memory region"
    form = cx.choice("accessor", FORMS)
    order = cx.choice("byte order", ("little", "big"))
    explicit = order == "big" or cx.flag("byte order given")
    a = cx.choice("address", (0, 1, 3, 8))
    many = form.endswith("s")
    count = cx.choice("count", range(1, cfg["words"] + 1)) if many else 1
    ws = {"dwords": 4, "qwords": 8, "byte": 1, "dword": 4, "qword": 8}.get(form)
    given = ws is None and cx.flag("word size given")
    if ws is None:
        ws = cx.choice("word size", (1, 2, 3, 5, 8)) if given else 2
    vals = [cx.bits("word", 8 * ws) for k in range(count)]
    n = 40
    old = cx.bytes("old", n)
    for k in range(n):
        raw[base + k] = old[k]
    if form == "byte":
        order = "little"
        explicit = False
    read = cx.flag("read")
    args = []
    kw = {}
    style = cx.flag("keywords")
    if explicit or (given and not style):
        if style:
            kw["byteorder"] = order
        else:
            args.append(order)
    if given:
        if style:
            kw["ws"] = ws
        else:
            args.append(ws)
    if read:
        f = getattr(m, "read_" + form)
        r = f(a, count, *args, **kw) if many else f(a, *args, **kw)
        if not sync:
            r = await r
        got = list(r) if many else [r]
        cx.check(len(got) == count, "words read")
        for k in range(count):
            want = 0
            for j in range(ws):
                b = old[a + k * ws + (ws - 1 - j if order == "little" else j)]
                want = want << 8 | b
            cx.check(got[k] == want, "words read")
        new = list(old)
    else:
        f = getattr(m, "write_" + form)
        r = f(a, vals if many else vals[0], *args, **kw)
        if not sync:
            await r
        new = list(old)
        for k in range(count):
            new[a + k * ws:a + k * ws + ws] = to_bytes(vals[k], ws, order)
    for k in range(n):
        cx.check(raw[base + k] == new[k], "bytes of the words")


class Tagged(Region):
    """region which records the options of its accesses"""

    def __init__(self, cx, size, log):
        super().__init__(size)
        self.cx, self.log = cx, log

    async def _read(self, address, length, **kwargs):
        self.log.append((address, length, kwargs))
        return self.cx.bytes("read data", length)

    async def _write(self, address, data, **kwargs):
        self.log.append((address, len(data), kwargs))


@case("C19", "options", quick=[dict(words=2)], thorough=None, must=("options reach the access",))
async def options(cx, cfg):
    """options of an access (a protection value, say) reach the one read or write it is made of"""
    cx.clock()
    log = []
    m = Tagged(cx, 64, log)
    at = 0
    if cx.flag("window"):
        m, at = m.create_window(8, 32), 8
    form = cx.choice("accessor", FORMS)
    many = form.endswith("s")
    ws = {"dwords": 4, "qwords": 8, "byte": 1, "dword": 4, "qword": 8}.get(form, 2)
    n = cfg["words"] if many else 1
    a = cx.choice("address", (0, 3))
    kw = {"prot": cx.bits("prot", 3), "tag": 5} if cx.flag("options") else {}
    if cx.flag("read"):
        await getattr(m, "read_" + form)(a, *([n] if many else []), **kw)
    else:
        vals = [cx.bits("word", 8 * ws) for k in range(n)]
        await getattr(m, "write_" + form)(a, vals if many else vals[0], **kw)
    cx.check(len(log) == 1, "one access")
    addr, size, got = log[0]
    cx.check(addr == a + at and size == n * ws, "one access")
    cx.check(sorted(got) == sorted(kw), "options reach the access")
    for k in kw:
        cx.check(got[k] == kw[k], "options reach the access", k)
