"""Address spaces, windows and peripheral regions."""
from cocotb.triggers import RisingEdge
from cocotbext.axi import AddressSpace, Region, MemoryRegion, SparseMemoryRegion, PeripheralRegion, Window
from symx.api import case

# widths of symbolic addresses; larger ones only multiply the solver time, the code has no limits of its own
WIDTH = 10
TOP = 2 ** WIDTH


class Rec(Region):
    """region which records its accesses"""

    def __init__(self, cx, name, size, log, clk=None):
        super().__init__(size)
        self.cx, self.name, self.log, self.clk = cx, name, log, clk

    async def read(self, address, length, **kwargs):
        if self.clk is not None:
            await RisingEdge(self.clk)
        data = self.cx.bytes("read data", length)
        self.log.append((self.name, "r", address, data, kwargs))
        return data

    async def write(self, address, data, **kwargs):
        if self.clk is not None:
            await RisingEdge(self.clk)
        self.log.append((self.name, "w", address, bytes(data), kwargs))


async def attempt(coro):
    """[result], or None if an exception was raised"""
    try:
        return [await coro]
    except Exception:
        return None


def plain_attempt(fn):
    try:
        return [fn()]
    except Exception:
        return None


async def access(cx, target, write, a, n, kw):
    data = cx.bytes("data", n)
    if write:
        return await attempt(target.write(a, data, **kw)), data
    return await attempt(target.read(a, n, **kw)), None


def judge(cx, log, want, write, data, r):
    """log: calls made; want: [(name, address, bytes)] expected"""
    cx.check(len(log) == len(want), "each region once", f"{len(log)} calls, {len(want)} expected")
    pos = 0
    for (name, d, a, x, kw), (wname, wa, wn) in zip(log, want):
        cx.check(name == wname, "the right region, in address order")
        cx.check(d == ("w" if write else "r"), "direction")
        cx.check(a == wa, "local address")
        cx.check(len(x) == wn, "part of the data")
        cx.check(kw == {"tag": 5}, "keyword arguments passed on")
        for k in range(wn):
            if write:
                cx.check(x[k] == data[pos + k], "part of the data")
            else:
                cx.check(r[0][pos + k] == x[k], "concatenation of the data read")
        pos += wn
    if not write:
        cx.check(len(r[0]) == pos, "length of the result")


def ranges(cx, k, width=WIDTH):
    """base and size of a region"""
    base = cx.bits("base", width)
    size = cx.int("size", 1, 2 ** width)
    return base, size


@case("C20", "access", quick=[dict(regions=1, n=3, trans=True), dict(regions=1, n=2, width=64), dict(regions=2, n=3, width=8), dict(regions=2, n=2, trans=True, width=7), dict(regions=3, n=3, near=True), dict(regions=2, n=3, near=True, slow=True)],
      thorough=[dict(regions=1, n=6, trans=True), dict(regions=1, n=3, width=64), dict(regions=3, n=3, near=True), dict(regions=2, n=5, trans=True), dict(regions=3, n=5, near=True), dict(regions=3, n=3, trans=True), dict(regions=4, n=6, near=True), dict(regions=2, n=4, near=True, slow=True)],
      must=("each region once", "unmapped address refused"))
async def access_(cx, cfg):
    clk = cx.clock()
    width = cfg.get("width", WIDTH)
    space = AddressSpace(2 ** width)
    log = []
    regs = []
    order = list(range(cfg["regions"]))
    for k in order:
        if cfg.get("near"):
            # regions of a few bytes, next to each other or nearly so
            size = cx.int("size", 1, 2)
            if k == 0:
                base = 4
            else:
                base = cx.int("position", 0, 8)
        else:
            base, size = ranges(cx, k, width)
            cx.assume(base + size <= 2 ** width)
        off = 0
        if cfg.get("trans"):
            off = cx.choice("translation", ("none", 0, "sym"))
            off = None if off == "none" else cx.bits("offset", width) if off == "sym" else 0
        for b, s, _ in regs:
            cx.assume(cx.or_(base + size <= b, b + s <= base))
        style = cx.choice("size given", (True, False)) if k == 0 else True
        # only a part of the region may be mapped
        extra = cx.choice("not mapped", (0, 3)) if style and cfg.get("near") and k < 2 else 0
        r = Rec(cx, k, size + extra, log, clk if cfg.get("slow") else None)
        if style and not cfg.get("near"):
            space.register_region(r, base, size, off)
        elif style:
            space.register_region(r, base, size=size)
        elif off == 0 and cfg.get("trans") is None:
            space.register_region(r, base)
        else:
            space.register_region(r, base, offset=off)
        regs.append((base, size, off))
    n = cx.choice("length", range(1, cfg["n"] + 1))
    a = cx.int("address", -2, 2 ** width + 2) if not cfg.get("near") else cx.int("start", 0, 9)
    write = cx.flag("write")
    owners = []
    for i in range(n):
        who = None
        for k, (b, s, o) in enumerate(regs):
            if cx.and_(a + i >= b, a + i < b + s):
                who = k
                break
        owners.append(who)
    want = []
    mapped = None not in owners
    if mapped:
        for i, k in enumerate(owners):
            if i and owners[i - 1] == k:
                name, addr, m = want[-1]
                want[-1] = (name, addr, m + 1)
            else:
                b, s, o = regs[k]
                want.append((k, a + i if o is None else a + i - b + o, 1))
    r, data = await access(cx, space, write, a, n, {"tag": 5})
    if not mapped:
        cx.check(r is None, "unmapped address refused")
        for name, d, x, y, kw in log:
            cx.check(name in owners, "only regions which cover the access")
        return
    cx.check(r is not None, "mapped address accepted")
    judge(cx, log, want, write, data, r)


@case("C20", "overlap", quick=[dict(regions=1), dict(regions=2)], thorough=[dict(regions=1), dict(regions=2), dict(regions=3)], must=("overlap refused", "no overlap accepted"))
async def overlap(cx, cfg):
    """registration of one more region"""
    cx.clock()
    space = AddressSpace(TOP)
    log = []
    regs = []
    for k in range(cfg["regions"]):
        base, size = ranges(cx, k)
        cx.assume(base + size <= TOP)
        for b, s in regs:
            cx.assume(cx.or_(base + size <= b, b + s <= base))
        space.register_region(Rec(cx, k, size, log), base)
        regs.append((base, size))
    base, size = ranges(cx, 9)
    cx.assume(base + size <= TOP)
    how = cx.choice("register", ("size", "no size", "offset", "untranslated", "pool"))
    new = Rec(cx, 9, size if how != "size" else TOP, log)

    def reg():
        if how == "size":
            space.register_region(new, base, size)
        elif how == "no size":
            space.register_region(new, base)
        elif how == "offset":
            space.register_region(new, base, size, cx.bits("offset", WIDTH))
        elif how == "untranslated":
            space.register_region(new, base, size, None)
        else:
            space.create_pool(base, size)
    clash = False
    for b, s in regs:
        if cx.and_(base < b + s, b < base + size):
            clash = True
    if how == "pool":
        # building the allocator of a pool depends on the size
        cx.assume(size == 2 ** 5)
    ok = plain_attempt(reg) is not None
    if clash:
        cx.check(not ok, "overlap refused")
        cx.check(new.parent is None, "a refused region is not touched")
        # and the space is unchanged
        a = cx.bits("address", WIDTH)
        hit = None
        for k, (b, s) in enumerate(regs):
            if cx.and_(a >= b, a < b + s):
                hit = k
        r, data = await access(cx, space, False, a, 1, {"tag": 5})
        cx.check((r is not None) == (hit is not None), "unmapped address refused")
        if hit is not None:
            judge(cx, log, [(hit, a - regs[hit][0], 1)], False, data, r)
    else:
        cx.check(ok, "no overlap accepted")
        if how != "pool":
            cx.check(new.parent is space, "parent")


@case("C20", "nested", quick=[dict(n=3)], thorough=[dict(n=5)], must=("each region once",))
async def nested(cx, cfg):
    """space in a space, with a region on either side and pools"""
    cx.clock()
    log = []
    outer = AddressSpace(2 ** 32)
    base = cx.choice("base", (0, 16, 2 ** 31))
    inner = AddressSpace(8)
    first = cx.flag("inner filled first")
    lo, hi, last = Rec(cx, "lo", 4, log), Rec(cx, "hi", 4, log), Rec(cx, "last", 8, log)
    if first:
        inner.register_region(lo, 0)
        inner.register_region(hi, 4)
    outer.register_region(last, base + 8)
    outer.register_region(inner, base)
    if not first:
        inner.register_region(hi, 4)
        inner.register_region(lo, 0)
    n = cx.choice("length", range(1, cfg["n"] + 1))
    a = cx.choice("start", range(0, min(13, 17 - n)))
    write = cx.flag("write")
    r, data = await access(cx, outer, write, base + a, n, {"tag": 5})
    want = []
    for name, b, s in (("lo", 0, 4), ("hi", 4, 4), ("last", 8, 8)):
        x, y = max(a, b), min(a + n, b + s)
        if x < y:
            want.append((name, x - b, y - x))
    cx.check(r is not None, "mapped address accepted")
    judge(cx, log, want, write, data, r)


@case("C20", "pools", quick=[dict(n=2)], thorough=[dict(n=4)], must=("bytes in the right region",))
async def pools(cx, cfg):
    """regions of a pool are reached at their absolute addresses"""
    cx.clock()
    space = AddressSpace(2 ** 32)
    base = cx.choice("base", (0, 64, 2 ** 30))
    pool = space.create_pool(base, 64)
    sizes = [cx.choice("size", (1, 3, 8, 16)) for k in range(2)]
    regs = [pool.alloc_region(s) for s in sizes]
    which = cx.choice("region", (0, 1))
    r, o, s = regs[which], regs[1 - which], sizes[which]
    n = min(cfg["n"], s)
    at = cx.choice("offset", (0, s - n))
    data = cx.bytes("data", n)
    aa = r.get_absolute_address(at)
    if cx.flag("through the space"):
        await space.write(aa, data)
    else:
        await r.write(at, data)
    got = await space.read(aa, n)
    for k in range(n):
        cx.check(got[k] == data[k], "bytes in the right region")
    got = await r.read(0, s)
    for k in range(s):
        cx.check(got[k] == (data[k - at] if at <= k < at + n else 0), "bytes in the right region")
    got = await o.read(0, sizes[1 - which])
    for x in got:
        cx.check(x == 0, "nothing else changed")


# ----------------------------------------------------------------- windows

class Base(Region):
    """outermost interface: checks of the package apply, accesses are recorded"""

    def __init__(self, cx, size, log):
        super().__init__(size)
        self.cx, self.log = cx, log

    async def _read(self, address, length, **kwargs):
        data = self.cx.bytes("read data", length)
        self.log.append(("base", "r", address, data, kwargs))
        return data

    async def _write(self, address, data, **kwargs):
        self.log.append(("base", "w", address, bytes(data), kwargs))


class Special(Window):
    pass


WIN_Q = [dict(depth=1, n=3), dict(depth=2, n=2), dict(depth=2, n=2, pool=True), dict(depth=3, n=1)]
WIN_T = [dict(depth=1, n=8), dict(depth=2, n=4), dict(depth=2, n=4, pool=True), dict(depth=3, n=4), dict(depth=3, n=3, pool=True), dict(depth=4, n=2)]


@case("C21", "access", quick=WIN_Q, thorough=WIN_T, must=("out of range refused", "same offset in the parent", "absolute address"))
async def windows(cx, cfg):
    cx.clock()
    log = []
    total = cx.int("size", 1, TOP)
    outer = Base(cx, total, log)
    w, size, at = outer, total, 0
    for k in range(cfg["depth"]):
        off = cx.bits("offset", WIDTH)
        full = cx.flag("size given")
        if full:
            n = cx.int("window size", 1, TOP)
        else:
            n = size - off
        cx.assume(cx.and_(off < size, off + n <= size))
        pool = cfg.get("pool") and k == 0
        if pool:
            # a pool is a window, too; its allocator depends on the size
            n = 2 ** 5
            cx.assume(off + n <= size)
            w = w.create_window_pool(off, n)
        elif full:
            w = w.create_window(off, n)
        else:
            w = w.create_window(off)
        size = n
        at = at + off
        cx.check(w.size == n, "window size")
    n = cx.choice("length", range(0, cfg["n"] + 1))
    a = cx.int("address", -2, TOP + 2)
    write = cx.flag("write")
    ok = cx.and_(a >= 0, a + n <= size)
    if n == 0:
        cx.assume(cx.not_(a == size))       # empty access at the end
    r, data = await access(cx, w, write, a, n, {"tag": 5})
    if ok:
        cx.check(r is not None, "access in range accepted")
        if n or log:
            cx.check(len(log) == 1 and log[0][1] == ("w" if write else "r"), "one access")
            cx.check(log[0][2] == at + a, "same offset in the parent")
            cx.check(len(log[0][3]) == n, "length")
            cx.check(log[0][4] == {"tag": 5}, "keyword arguments passed on")
            for k in range(n):
                cx.check(log[0][3][k] == (data[k] if write else r[0][k]), "data")
    else:
        cx.check(r is None and not log, "out of range refused")
    if not write:
        b = cx.int("absolute", -2, TOP + 2)
        if cx.and_(b >= 0, b < size):
            cx.check(w.get_absolute_address(b) == at + b, "absolute address")
        else:
            cx.check(plain_attempt(lambda: w.get_absolute_address(b)) is None, "no absolute address outside")


@case("C21", "create", quick=[dict(kind=k) for k in ("window", "pool", "nested")], thorough=None, must=("does not fit", "fits"))
async def create(cx, cfg):
    """which windows fit"""
    cx.clock()
    log = []
    total = cx.int("size", 1, TOP)
    w = outer = Base(cx, total, log)
    size, at = total, 0
    if cfg["kind"] == "nested":
        at = cx.bits("offset", WIDTH)
        size = cx.int("window size", 1, TOP)
        cx.assume(at + size <= total)
        w = outer.create_window(at, size)
    off = cx.int("offset", -4, TOP + 4)
    given = cx.flag("size given")
    n = cx.int("window size", 1, TOP + 4) if given else None
    if cfg["kind"] == "pool" and given:
        n = cx.choice("window size", (1, 5, 64, 2 ** 9))
    fit = cx.and_(off >= 0, off < size)
    if given:
        fit = cx.and_(fit, off + n <= size)
    if cfg["kind"] == "pool" and not given:
        cx.assume(cx.implies(fit, size - off == 16))

    def f():
        if cfg["kind"] == "pool":
            return w.create_window_pool(off, n) if given else w.create_window_pool(off)
        return w.create_window(off, n) if given else w.create_window(off)
    r = plain_attempt(f)
    if fit:
        cx.check(r is not None, "fits")
        cx.check(r[0].size == (n if given else size - off), "window size")
        cx.check(r[0].parent is w, "parent")
        cx.check(r[0].get_absolute_address(0) == at + off, "absolute address")
    else:
        cx.check(r is None, "does not fit")
    cx.check(not log, "no access")


@case("C21", "pools", quick=[dict(size=s, n=2) for s in (16, 24)], thorough=[dict(size=s, n=3) for s in (16, 24, 7, 64)], must=("same offset in the parent",))
async def pool_windows(cx, cfg):
    """windows of a pool: inside the pool, disjoint, right addresses"""
    cx.clock()
    log = []
    outer = Base(cx, TOP, log)
    off = cx.bits("offset", WIDTH - 1)
    pool = outer.create_window_pool(off, cfg["size"], **({"window_type": Special} if cx.flag("window type") else {}))
    wins = []
    for k in range(cfg["n"]):
        s = cx.choice("size", (1, 2, 3, 8))
        r = plain_attempt(lambda: pool.alloc_window(s))
        if r is not None:
            wins.append((r[0], s))
    cx.check(len(wins) >= 1, "space available")
    used = []
    for w, s in wins:
        cx.check(w.size == s, "window size")
        a = w.get_absolute_address(0)
        cx.check(cx.and_(a >= off, a + s <= off + cfg["size"]), "inside the pool")
        for b, t in used:
            cx.check(cx.or_(a + s <= b, b + t <= a), "disjoint")
        used.append((a, s))
    k = cx.choice("window", range(len(wins)))
    w, s = wins[k]
    i = cx.choice("address", (0, s - 1, s, -1))
    write = cx.flag("write")
    r, data = await access(cx, w, write, i, 1, {})
    if 0 <= i < s:
        cx.check(r is not None and len(log) == 1, "one access")
        cx.check(log[0][2] == used[k][0] + i, "same offset in the parent")
        cx.check(w.get_absolute_address(i) == log[0][2], "absolute address")
    else:
        cx.check(r is None and not log, "out of range refused")


@case("C21", "spaces", quick=[dict()], thorough=None, must=("absolute address",))
async def spaces(cx, cfg):
    """absolute addresses through address spaces, windows created at any time"""
    cx.clock()
    outer, inner = AddressSpace(2 ** 16), AddressSpace(2 ** 12)
    reg = SparseMemoryRegion(2 ** 10)
    b1, b2 = cx.int("base", 0, 2 ** 16 - 2 ** 12), cx.int("base", 0, 2 ** 12 - 2 ** 10)
    o1, o2 = cx.bits("offset", 9), cx.bits("offset", 8)
    when = cx.choice("windows created", range(3))
    first = cx.flag("outer registered first")
    made = []

    def mk(k):
        if k == when:
            w = reg.create_window(o1, 2 ** 9)
            made.append(w.create_window(o2, 64) if not cx.flag("pool") else w.create_window_pool(o2, 64).alloc_window(64))
    mk(0)
    if first:
        outer.register_region(inner, b1)
    else:
        inner.register_region(reg, b2)
    mk(1)
    if first:
        inner.register_region(reg, b2)
    else:
        outer.register_region(inner, b1)
    mk(2)
    k = cx.choice("address", (0, 5, 63))
    want = b1 + b2 + o1 + o2 + k
    cx.check(made[0].get_absolute_address(k) == want, "absolute address")
    a = cx.bits("region address", 10)
    cx.check(reg.get_absolute_address(a) == b1 + b2 + a, "absolute address")
    c = cx.bits("space address", 12)
    cx.check(inner.get_absolute_address(c) == b1 + c, "absolute address")
    d = cx.bytes("data", 1)
    if cx.flag("write through the window"):
        await made[0].write(k, d)
        got = await outer.read(want, 1)
    else:
        await outer.write(want, d)
        got = await made[0].read(k, 1)
    cx.check(got[0] == d[0], "the absolute address is the address in the outermost space")


@case("C21", "translated", quick=[dict()], thorough=None, must=("the absolute address is the address in the outermost space", "unknown absolute address"))
async def translated(cx, cfg):
    """regions mapped with a translation: an absolute address which is reported is the right one"""
    cx.clock()
    log = []
    space = AddressSpace(2 ** 16)
    reg = Rec(cx, "reg", 256, log)
    if cx.flag("registered in another space before"):
        AddressSpace(2 ** 16).register_region(reg, 0x400)
    how = cx.choice("translation", (None, 0, 16))
    base = cx.int("base", 1, 128)
    space.register_region(reg, base, 64, how)
    off = cx.bits("offset", 6)
    w = reg
    local = off
    if cx.flag("window"):
        w = reg.create_window(32, 128)
        local = off + 32
    r = plain_attempt(lambda: w.get_absolute_address(off))
    aa = r[0] if r else None
    if how == 0:
        cx.check(aa is not None, "absolute address reported")
    if aa is None:
        cx.check(how != 0, "unknown absolute address")
        cx.stop()
    right = local if how is None else base + local - how
    cx.assume(cx.and_(right >= base, right < base + 64))
    cx.check(aa == right, "absolute address")
    got = await attempt(space.read(aa, 1))
    cx.check(got is not None and len(log) == 1, "mapped address accepted")
    cx.check(log[0][2] == local, "the absolute address is the address in the outermost space")


# -------------------------------------------------------- peripheral regions

class Odd(Exception):
    pass


def peripheral(cx, kind, log, clk, err):
    def rd(address, length, kw):
        data = cx.bytes("read data", length)
        log.append(("r", address, data, kw))
        if err:
            raise err("failed")
        return data

    def wr(address, data, kw):
        log.append(("w", address, bytes(data), kw))
        if err:
            raise err("failed")

    class Sync:
        def read(self, address, length, **kwargs):
            return rd(address, length, kwargs)

        def write(self, address, data, **kwargs):
            return wr(address, data, kwargs)

    class Async:
        async def read(self, address, length, **kwargs):
            await RisingEdge(clk)
            return rd(address, length, kwargs)

        async def write(self, address, data, **kwargs):
            await RisingEdge(clk)
            wr(address, data, kwargs)

    class Quick:
        async def read(self, address, length, **kwargs):
            return rd(address, length, kwargs)

        async def write(self, address, data, **kwargs):
            wr(address, data, kwargs)

    class Mixed(Sync):
        async def write(self, address, data, **kwargs):
            await RisingEdge(clk)
            wr(address, data, kwargs)

    class Result(Sync):
        def write(self, address, data, **kwargs):
            wr(address, data, kwargs)
            return len(data)

    return dict(sync=Sync, coroutine=Async, quick=Quick, mixed=Mixed, result=Result)[kind]()


PER = [dict(kind=k) for k in ("sync", "coroutine", "quick", "mixed", "result")]


@case("C25", "forward", quick=[dict(p, n=3) for p in PER], thorough=[dict(p, n=8) for p in PER], must=("called once", "passes on exceptions"))
async def forward(cx, cfg):
    clk = cx.clock()
    log = []
    err = cx.choice("raises", (None, Odd, TypeError, ValueError, AttributeError))
    size = cx.int("size", 1, TOP)
    obj = peripheral(cx, cfg["kind"], log, clk, err)
    reg = PeripheralRegion(obj, size)
    via = cx.choice("through", ("region", "window", "space"))
    n = cx.choice("length", range(1, cfg["n"] + 1))
    a = cx.bits("address", WIDTH)
    cx.assume(a + n <= size)
    target, x = reg, a
    if via == "window":
        off = cx.bits("offset", WIDTH)
        cx.assume(cx.and_(off <= a))
        target, x = reg.create_window(off), a - off
    elif via == "space":
        sp = AddressSpace(2 ** 64)
        sp.register_region(reg, 2 ** 62)
        target, x = sp, a + 2 ** 62
    kw = {"tag": 5} if cx.flag("keyword") else {}
    data = cx.bytes("data", n)
    write = cx.flag("write")
    res = raised = None
    try:
        res = await (target.write(x, data, **kw) if write else target.read(x, n, **kw))
    except Exception as e:
        raised = e
    cx.check(len(log) == 1, "called once", f"{len(log)} calls")
    d, la, ld, lk = log[0]
    cx.check(d == ("w" if write else "r"), "direction")
    cx.check(la == a, "same address")
    cx.check(len(ld) == n, "same length")
    cx.check(lk == kw, "keyword arguments passed on")
    if write:
        for k in range(n):
            cx.check(ld[k] == data[k], "same data")
    if err:
        cx.check(type(raised) is err, "passes on exceptions")
    else:
        cx.check(raised is None, "no exception")
        if not write:
            cx.check(len(res) == n, "returns the result")
            for k in range(n):
                cx.check(res[k] == ld[k], "returns the result")
