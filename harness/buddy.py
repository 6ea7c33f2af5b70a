"""Block allocator and pools."""
from cocotbext.axi import AddressSpace, Region, MemoryRegion, SparseMemoryRegion
from cocotbext.axi.buddy_allocator import BuddyAllocator
from symx.api import case


class Oracle:
    """blocks in use, as (address, size asked for, size of the block)"""

    def __init__(self, cx, size, min_alloc):
        self.cx, self.size, self.min = cx, size, min_alloc
        self.used = []

    def room(self, n, block):
        """is there a free aligned block which lies inside the pool"""
        cx = self.cx
        if block >= 2 * self.size:
            return False        # the smallest block is larger than the pool
        for b in range(0, self.size, block):
            if all(u + bl <= b or b + block <= u for u, _, bl in self.used):
                if b + n <= self.size:
                    return True
        return False

    def alloc(self, fn, n):
        cx = self.cx
        bad = cx.or_(n < 1, n > self.size)
        if bad:
            try:
                fn()
            except Exception:
                return
            cx.fail("size out of range refused")
        block = 1
        while block < n or block < self.min:
            block = block * 2
        want = self.room(n, block)
        try:
            a = fn()
        except Exception:
            a = None
        if a is None:
            cx.check(not want, "a free block is found")
            cx.cover("exhausted")
            return
        cx.check(cx.and_(a >= 0, a + n <= self.size), "inside the pool")
        cx.check(a % block == 0, "aligned")
        for u, _, bl in self.used:
            cx.check(cx.or_(a + block <= u, u + bl <= a), "does not overlap a block in use")
        self.used.append((cx.conc(a), n, block))


def free_all(cx, o, free):
    order = o.used[::-1] if cx.flag("free in reverse") else o.used
    for a, _, _ in list(order):
        free(a)
    del o.used[:]


SEQ_Q = [dict(size=s, n=4) for s in (1, 2, 3, 4)] + [dict(size=s, n=3) for s in (5, 6, 7, 8, 12, 16)] + [dict(size=8, n=3, min=2), dict(size=16, n=3, min=3), dict(size=6, n=3, min=4), dict(size=4, n=2, min=8)]
SEQ_T = [dict(size=8, n=4), dict(size=6, n=4)] + [dict(size=s, n=5) for s in (1, 2, 3, 4, 5, 6, 7, 8)] + [dict(size=s, n=4) for s in (9, 12, 15, 16, 31, 32)] + \
        [dict(size=8, n=5, min=2), dict(size=16, n=4, min=3), dict(size=6, n=4, min=4), dict(size=4, n=3, min=8), dict(size=4, n=6)]


@case("C22", "allocator", quick=SEQ_Q, thorough=SEQ_T, must=("inside the pool", "unknown address refused", "everything freed", "cover:exhausted"))
async def allocator(cx, cfg):
    size, least = cfg["size"], cfg.get("min", 1)
    al = BuddyAllocator(size, least) if "min" in cfg else BuddyAllocator(size)
    o = Oracle(cx, size, least)
    for k in range(cfg["n"]):
        op = cx.choice("operation", ("alloc", "free", "wrong free")) if k else "alloc"
        if op == "alloc":
            n = cx.int("size", 0, size + 1)
            o.alloc(lambda: al.alloc(n), n)
        elif op == "free":
            if not o.used:
                cx.stop()
            i = cx.choice("block", range(len(o.used)))
            a, _, _ = o.used.pop(i)
            al.free(a)
        else:
            a = cx.int("wrong address", -2, size + 2)
            for u, _, _ in o.used:
                cx.assume(a != u)
            try:
                al.free(a)
                ok = False
            except Exception:
                ok = True
            cx.check(ok, "unknown address refused")
    if size < least:
        cx.check(not o.used, "everything freed")
        return
    free_all(cx, o, al.free)
    n = cx.int("size", 1, size)
    o.alloc(lambda: al.alloc(n), n)
    cx.check(len(o.used) == 1, "everything freed")


@case("C22", "large", quick=[dict(bits=12), dict(bits=32, fixed=True), dict(bits=64, concrete=True)], thorough=[dict(bits=12, more=1), dict(bits=20), dict(bits=32), dict(bits=48, fixed=True), dict(bits=64, fixed=True)], must=("disjoint",))
async def large(cx, cfg):
    """large pools: two allocations of any size"""
    size = 2 ** cfg["bits"] - cx.choice("less", (0, 1, 5))
    al = BuddyAllocator(size)
    blocks = []
    for k in range(2 + cfg.get("more", 0)):
        if cfg.get("concrete") or k and cfg.get("fixed"):
            n = cx.choice("size", (1, 5, size // 2, size // 2 + 1))
        else:
            n = cx.int("size", 1, size)
        try:
            a = al.alloc(n)
        except Exception:
            if k == 0:
                cx.fail("a free block is found")
            cx.cover("exhausted")
            continue
        cx.check(cx.and_(a >= 0, a + n <= size), "inside the pool")
        for b, m in blocks:
            cx.check(cx.or_(a + n <= b, b + m <= a), "disjoint")
        # aligned to the size rounded up: no power of two below the size divides less
        p = a & -a
        cx.check(cx.or_(a == 0, p >= n), "aligned")
        blocks.append((a, n))
    cx.check(len(blocks) >= 1, "disjoint")
    for b, m in blocks:
        al.free(b)
    cx.check(al.alloc(size) == 0, "everything freed")


@case("C22", "pools", quick=[dict(kind=k, size=s, n=3) for k in ("window", "region") for s in (8, 6)], thorough=[dict(kind=k, size=s, n=4) for k in ("window", "region") for s in (8, 6, 16)],
      must=("inside the pool", "does not overlap a block in use", "cover:exhausted"))
async def pools(cx, cfg):
    size = cfg["size"]
    base = cx.choice("base", (0, 32))
    o = Oracle(cx, size, 1)
    made = []
    if cfg["kind"] == "window":
        parent = SparseMemoryRegion(64)
        pool = parent.create_window_pool(base, size)
    else:
        space = AddressSpace(2 ** 32)
        pool = space.create_pool(base, size)
    for k in range(cfg["n"]):
        n = cx.choice("size", range(0, size + 2))

        def fn():
            w = pool.alloc_window(n) if cfg["kind"] == "window" else pool.alloc_region(n)
            cx.check(w.size == n, "size of the window or region")
            made.append(w)
            return w.get_absolute_address(0) - base
        o.alloc(fn, n)
    cx.check(len(made) == len(o.used), "inside the pool")
    # each holds its own data
    for k, w in enumerate(made):
        await w.write(0, bytes([k + 1]) * len(w))
    for k, w in enumerate(made):
        got = await w.read(0, len(w))
        for x in got:
            cx.check(x == k + 1, "does not overlap a block in use")
