"""APB master, slave and RAM models."""
import cocotb
from cocotb.triggers import RisingEdge
from cocotbext.axi import ApbBus, ApbMaster, ApbSlave, ApbRam
from symx.api import case
from harness.common import Item, Pauser, Stall, clocks, Target, content, pick, expected_writes, same_writes, run_ops, always


class Sigs:
    def __init__(self, cx, lanes, addrw=32, opt=("pprot", "pslverr"), master=True, prdata0=0, prefix="apb"):
        self.cx = cx
        self.all = {}
        for n, w in (("paddr", addrw), ("psel", 1), ("penable", 1), ("pwrite", 1), ("pwdata", 8 * lanes), ("pstrb", lanes), ("pready", 1), ("prdata", 8 * lanes), ("pprot", 3), ("pslverr", 1)):
            if n in opt or n not in ("pprot", "pslverr"):
                s = cx.sig(prefix + "_" + n, w)
                self.all[n] = s
                setattr(self, n, s)
                slave = n in ("pready", "prdata", "pslverr")
                if slave == master and not (n == "prdata" and prdata0 is None):
                    s.set(0)
        self.has = opt


REQ = ("paddr", "pwrite", "pwdata", "pstrb", "pprot")


class Dev:
    """APB slave of the testbench and protocol checker"""

    def __init__(self, cx, clk, sigs, total, policy=None, err=None, undriven=False):
        self.cx, self.clk, self.s = cx, clk, sigs
        self.pauser = None
        self.policy = policy or always
        self.err = err
        self.total = total          # transfers which belong to operations started so far
        self.op_of = []
        self.sent = []
        self.undriven = undriven
        self.presented = 0
        self.task = cocotb.start_soon(self.run())

    def stop(self):
        self.task.kill()
        self.s.pready.value = 0

    def sample(self):
        it = Item()
        for n in REQ:
            if n in self.s.all:
                setattr(it, n, self.cx.val(self.s.all[n].value))
        return it

    async def run(self):
        cx, s = self.cx, self.s
        edge = RisingEdge(self.clk)
        cur = None
        resting = cx.choice("pready while idle", (0, 1))
        s.pready.value = resting
        rdy = 0
        while True:
            await edge
            cx.check(cx.resolvable(s.psel.value) and cx.resolvable(s.penable.value), "select and enable driven")
            sel, en = cx.val(s.psel.value), cx.val(s.penable.value)
            if cur is None:
                cx.check(en == 0, "one setup cycle")
                if sel == 0:
                    continue
                cx.check(len(self.sent) < self.total(), "select only with a pending operation")
                cx.check(not (self.pauser and self.pauser.paused(cx.cycle - 1)), "no transfer begins while paused")
                cur = self.sample()
            else:
                cx.check(cx.and_(sel == 1, en == 1), "access phase lasts until ready")
                now = self.sample()
                for n in REQ:
                    if n in s.all:
                        cx.check(getattr(now, n) == getattr(cur, n), "request unchanged during the transfer", n)
                if rdy:
                    k = len(self.sent)
                    self.sent.append(dict(op=self.op_of[k] if k < len(self.op_of) else None, cycle=cx.cycle, rdata=rdata, resp=err * 2, req=cur))
                    cur = None
                    s.pready.value = resting
                    continue
                self.policy.stalled()
            rdy = self.policy()
            rdata = 0
            if not self.undriven or cur.pwrite == 0:
                rdata = cx.bits("rdata", 8 * len(s.pstrb))
                s.prdata.value = rdata
            err = 0
            if "pslverr" in s.has:
                err = cx.bits("pslverr", 1) if self.err else 0
                s.pslverr.value = err
            s.pready.value = rdy
            if rdy:
                self.presented += 1


def check_write(cx, xs, address, data, lanes, prot):
    n = len(data)
    cover = [0] * n
    for x in xs:
        q = x["req"]
        cx.check(q.pwrite == 1, "direction")
        if prot is not None:
            cx.check(q.pprot == prot, "protection value")
        word = q.paddr // lanes * lanes
        for j in range(lanes):
            on = (q.pstrb >> j) & 1 == 1
            byte = (q.pwdata >> (8 * j)) & 0xff
            i = word + j - address
            inside = cx.and_(i >= 0, i < n)
            cx.check(cx.implies(on, inside), "byte outside the requested range", f"lane {j}")
            cx.check(cx.implies(cx.and_(on, inside), byte == pick(cx, data, i)), "byte value", f"lane {j}")
            for k in range(n):
                cover[k] = cover[k] + cx.ite(cx.and_(on, i == k), 1, 0)
    for k in range(n):
        cx.check(cover[k] == 1, "every byte written exactly once", f"{k}")


def check_read(cx, xs, address, got, n, lanes, prot):
    cx.check(len(got) == n, "result length")
    for x in xs:
        q = x["req"]
        cx.check(q.pwrite == 0, "direction")
        cx.check(q.pstrb == 0, "no write strobe on reads")
        if prot is not None:
            cx.check(q.pprot == prot, "protection value")
    for k in range(n):
        hit = 0
        for x in xs:
            word = x["req"].paddr // lanes * lanes
            for j in range(lanes):
                hit = hit + cx.ite(address + k == word + j, 1, 0)
                cx.check(cx.implies(address + k == word + j, got[k] == (x["rdata"] >> (8 * j)) & 0xff), "byte value", f"byte {k}")
        cx.check(hit == 1, "every byte read exactly once", f"byte {k}")


M_Q = [dict(lanes=1, lens=(0, 1, 2, 3)), dict(lanes=2, lens=(0, 1, 2, 3, 4, 5)), dict(lanes=4, lens=range(0, 10)), dict(lanes=8, lens=(1, 3, 8, 9, 17))]
M_T = M_Q + [dict(lanes=4, lens=range(10, 18)), dict(lanes=8, lens=(2, 4, 5, 6, 7, 10, 16, 18)), dict(lanes=16, lens=(1, 17)), dict(lanes=4, lens=(3, 4, 5, 9), addrw=64), dict(lanes=4, lens=(1, 5, 6), addrw=12)]


@case("C08", "single", quick=M_Q, thorough=M_T)
async def single(cx, cfg):
    """one operation, any address and data"""
    lanes, addrw = cfg["lanes"], cfg.get("addrw", 32)
    clk = cx.clock()
    wr = cx.flag("write")
    bare = cx.flag("no optional signals")
    sg = Sigs(cx, lanes, addrw, opt=() if bare else ("pprot", "pslverr"), prdata0=None if wr else 0)
    m = ApbMaster(ApbBus.from_prefix(cx.top, "apb"), clk)
    n = cx.choice("len", cfg["lens"])
    started = []
    dev = Dev(cx, clk, sg, lambda: 99 if started else 0, undriven=wr)
    address = cx.addr("addr", addrw, lanes.bit_length() - 1)
    cx.assume(address + n <= 1 << addrw)
    data = cx.bytes("data", n) if wr else None
    prot = 2 if bare else cx.bits("prot", 3)
    await RisingEdge(clk)
    started.append(1)
    r = await (m.write(address, data, prot) if wr else m.read(address, n, prot))
    cx.check(r.address == address, "result address")
    cx.check(r.resp == 0, "result code")
    await clocks(clk, 4)
    if wr:
        cx.check(r.length == n, "result length")
        check_write(cx, dev.sent, address, data, lanes, None if bare else prot)
    else:
        check_read(cx, dev.sent, address, r.data, n, lanes, None if bare else prot)


OPS_Q = [dict(ops=2, lens=(1, 2), stalls=1, mode="init"), dict(ops=3, lens=(1,), stalls=0, mode="init"), dict(ops=2, lens=(2,), stalls=1, mode="tasks"), dict(ops=1, lens=(3,), stalls=2, mode="tasks"), dict(ops=2, lens=(1,), stalls=0, mode="tasks", pause=3, how="edge"), dict(ops=1, lens=(1,), stalls=1, mode="init", addrw=64),
         dict(ops=2, lens=(1,), stalls=0, mode="tasks", pause=3, how="generator"), dict(ops=1, lens=(2,), stalls=1, mode="tasks", pause=3, how="attribute"),
         dict(ops=1, lens=(2,), stalls=0, mode="tasks", pause=6, how="attribute"), dict(ops=1, lens=(3,), stalls=0, mode="init", pause=8, how="generator"), dict(ops=1, lens=(3,), stalls=0, mode="init", pause=3, how="change")]
OPS_T = OPS_Q + [dict(ops=3, lens=(1, 2), stalls=1, mode="init"), dict(ops=2, lens=(1, 2, 3), stalls=2, mode="init"), dict(ops=2, lens=(1, 2), stalls=3, mode="tasks"), dict(ops=2, lens=(1, 2), stalls=0, mode="tasks", pause=6, how="edge")]


@case("C08", "ops", quick=OPS_Q, thorough=OPS_T, max_cycles=250)
async def ops(cx, cfg):
    """several operations: order, own results, errors, idle and wait"""
    clk = cx.clock()
    sg = Sigs(cx, 1, cfg.get("addrw", 32))
    m = ApbMaster(ApbBus.from_prefix(cx.top, "apb"), clk)
    nops = cfg["ops"]
    lens = [cx.choice("len", cfg["lens"]) for k in range(nops)]
    wr = [cx.flag("write") for k in range(nops)]
    datas = [cx.bytes(f"data{k}", lens[k]) for k in range(nops)]
    prots = [cx.bits("prot", 3) for k in range(nops)]
    base = [0x100 * (k + 1) for k in range(nops)]
    dev = Dev(cx, clk, sg, lambda: sum(lens), Stall(cx, "pready", cfg["stalls"]), err=True)
    dev.op_of = [k for k in range(nops) for j in range(lens[k])]

    def init(k, ev):
        return m.init_write(base[k], datas[k], prots[k], ev) if wr[k] else m.init_read(base[k], lens[k], prots[k], ev)

    def call(k):
        return m.write(base[k], datas[k], prots[k]) if wr[k] else m.read(base[k], lens[k], prots[k])

    def extra(k, r, sent):
        if wr[k]:
            cx.check(r.length == lens[k], "result of its own operation", f"length {k}")
            check_write(cx, sent, base[k], datas[k], 1, prots[k])
        else:
            check_read(cx, sent, base[k], r.data, lens[k], 1, prots[k])

    if cfg.get("pause"):
        dev.pauser = Pauser(cx, clk, m, cfg["pause"], cfg["how"])
    await run_ops(cx, cfg, clk, m, m, dev, lens, base, init, call, lambda: 0, None, m.wait, extra, "resp")
    cx.check(len(dev.sent) == sum(lens), "no extra transfers")


# ------------------------------------------------------------------- slaves

class Drv:
    """APB master of the testbench"""

    def __init__(self, cx, clk, sigs):
        self.cx, self.clk, self.s = cx, clk, sigs
        self.pauser = None

    def drive(self, **kw):
        for n, v in kw.items():
            if n in self.s.all:
                self.s.all[n].value = v

    async def foreign(self):
        """transfer to another peripheral"""
        edge = RisingEdge(self.clk)
        self.drive(psel=0, penable=0, pwrite=self.cx.bits("other pwrite", 1), paddr=0, pwdata=self.cx.bits("other pwdata", len(self.s.pwdata)), pstrb=(1 << len(self.s.pstrb)) - 1)
        await edge
        self.drive(penable=1)
        await edge
        self.drive(penable=0)

    async def xfer(self, wr, addr, data=0, strb=0, prot=0):
        cx, s = self.cx, self.s
        edge = RisingEdge(self.clk)
        self.drive(psel=1, penable=0, paddr=addr, pwrite=wr, pwdata=data, pstrb=strb, pprot=prot)
        await edge
        self.drive(penable=1)
        while True:
            await edge
            cx.check(cx.resolvable(s.pready.value), "ready driven")
            if s.pready.value:
                cx.check(not (self.pauser and self.pauser.paused(cx.cycle - 1)), "no transfer completes while paused")
                break
        it = Item()
        it.rdata = cx.val(s.prdata.value)
        it.err = cx.val(s.pslverr.value) if "pslverr" in s.has else 0
        self.drive(psel=0, penable=0)
        return it


def gap(cx, clk, d, on):
    """nothing, an idle cycle or a transfer elsewhere"""
    return cx.choice("gap", (0, 1, 2)) if on else 0


class SlowTarget(Target):
    def __init__(self, cx, clk, delays, fails=None):
        super().__init__(cx, fails)
        self.clk = clk
        self.delays = delays

    async def write(self, address, data, **kwargs):
        if self.delays:
            await clocks(self.clk, self.cx.choice("target delay", self.delays))
        await super().write(address, data)

    async def read(self, address, length, **kwargs):
        if self.delays:
            await clocks(self.clk, self.cx.choice("target delay", self.delays))
        return await super().read(address, length)


S_Q = [dict(lanes=4, n=1, low=2, strb="all"), dict(lanes=2, n=2, low=1, strb="all"), dict(lanes=8, n=1, low=3, strb="no"), dict(lanes=1, n=3, low=0, strb="all", gaps=True), dict(lanes=1, n=2, low=0, strb="no", delays=(0, 1, 2)), dict(lanes=1, n=2, low=0, strb="no", pause=4, how="edge"), dict(lanes=1, n=2, low=0, strb="no", pause=3, how="generator"), dict(lanes=1, n=2, low=0, strb="no", pause=3, how="change")]
S_T = S_Q + [dict(lanes=8, n=1, low=0, strb="all"), dict(lanes=2, n=3, low=0, strb="all"), dict(lanes=1, n=4, low=0, strb="all", gaps=True), dict(lanes=1, n=3, low=0, strb="no", delays=(0, 1, 3), gaps=True), dict(lanes=1, n=3, low=0, strb="no", pause=7, how="attribute", gaps=True)]


@case("C09", "slave", quick=S_Q, thorough=S_T)
async def slave(cx, cfg):
    lanes, n = cfg["lanes"], cfg["n"]
    clk = cx.clock()
    bare = cx.flag("no optional signals")
    sg = Sigs(cx, lanes, opt=() if bare else ("pprot", "pslverr"), master=False)
    t = SlowTarget(cx, clk, cfg.get("delays"))
    if cx.flag("set target"):
        dev = ApbSlave(ApbBus.from_prefix(cx.top, "apb"), clk)
        dev.target = t
    else:
        dev = ApbSlave(ApbBus.from_prefix(cx.top, "apb"), clk, target=t)
    drv = Drv(cx, clk, sg)

    await RisingEdge(clk)
    if cfg.get("pause"):
        drv.pauser = Pauser(cx, clk, dev, cfg["pause"], cfg["how"])
    for k in range(n):
        g = gap(cx, clk, drv, cfg.get("gaps"))
        if g == 1:
            await clocks(clk, 1)
        if g == 2:
            await drv.foreign()
        wr = cx.choice("write", (1, 0))
        addr = cx.addr(f"addr{k}", 32, cfg["low"])
        word = addr // lanes * lanes
        prot = cx.bits("prot", 3)
        del t.log[:]
        if wr:
            d = cx.bits(f"data{k}", 8 * lanes)
            st = cx.bits(f"strb{k}", lanes) if cfg["strb"] == "all" else (1 << lanes) - 1
            x = await drv.xfer(1, addr, d, st, prot)
            same_writes(cx, t.bytes_written(), expected_writes(cx, [(word, d, st)], lanes), "strobed bytes written once")
        else:
            x = await drv.xfer(0, addr, 0, 0, prot)
            cx.check(not t.bytes_written(), "reads write nothing")
            for j in range(lanes):
                cx.check((x.rdata >> (8 * j)) & 0xff == content(word + j), "contents of the addressed word", f"lane {j}")
        cx.check(x.err == 0, "no error")
        done = len(t.log)
        if k == n - 1:
            await clocks(clk, 3)
            if cfg.get("gaps"):
                await drv.foreign()
                await clocks(clk, 2)
        cx.check(len(t.log) == done, "each transfer performed once")


RAM_Q = [dict(lanes=2, size=16, strb="all", low=1), dict(lanes=4, size=32, strb="no", low=2), dict(lanes=1, size=8, strb="all", low=0)]
RAM_T = RAM_Q + [dict(lanes=4, size=32, strb="all", low=2), dict(lanes=8, size=64, strb="no", low=3)]


@case("C09", "ram", quick=RAM_Q, thorough=RAM_T)
async def ram(cx, cfg):
    """a write, then a read anywhere, on a RAM with arbitrary contents"""
    lanes, n = cfg["lanes"], cfg["size"]
    clk = cx.clock()
    sg = Sigs(cx, lanes, master=False)
    init = cx.bytes("mem", n)
    dev = ApbRam(ApbBus.from_prefix(cx.top, "apb"), clk, mem=bytearray(init))
    drv = Drv(cx, clk, sg)
    addr = cx.addr("addr", 32, cfg["low"])
    d = cx.bits("data", 8 * lanes)
    st = cx.bits("strb", lanes) if cfg["strb"] == "all" else (1 << lanes) - 1
    await RisingEdge(clk)
    x = await drv.xfer(1, addr, d, st)
    ref = [v for v in init]
    for a, v in expected_writes(cx, [(addr // lanes * lanes, d, st)], lanes):
        for q in range(n):
            ref[q] = cx.ite(a % n == q, v, ref[q])
    got = dev.read(0, n)
    for q in range(n):
        cx.check(got[q] == ref[q], "memory contents after the write", f"byte {q}")
    ra = cx.bits("raddr", 32)
    y = await drv.xfer(0, ra)
    cx.check(cx.and_(x.err == 0, y.err == 0), "no error")
    for j in range(lanes):
        cx.check((y.rdata >> (8 * j)) & 0xff == pick(cx, ref, (ra // lanes * lanes + j) % n), "contents of the addressed word", f"lane {j}")


F_Q = [dict(lanes=1, n=3), dict(lanes=2, n=2, strb="all", low=1)]
F_T = F_Q + [dict(lanes=1, n=5), dict(lanes=4, n=2, strb="all")]


@case("C26", "apb_fail", quick=F_Q, thorough=F_T, must=("cover:failed",))
async def apb_fail(cx, cfg):
    lanes = cfg["lanes"]
    clk = cx.clock()
    sg = Sigs(cx, lanes, master=False)
    t = Target(cx, lambda: cx.flag("fail"))
    ApbSlave(ApbBus.from_prefix(cx.top, "apb"), clk, target=t)
    drv = Drv(cx, clk, sg)
    await RisingEdge(clk)
    for k in range(cfg["n"]):
        wr = cx.choice("write", (1, 0))
        addr = cx.addr(f"addr{k}", 32, cfg.get("low", 0))
        word = addr // lanes * lanes
        d = cx.bits(f"data{k}", 8 * lanes)
        st = cx.bits(f"strb{k}", lanes) if cfg.get("strb") else (1 << lanes) - 1
        del t.log[:]
        x = await drv.xfer(wr, addr, d, st if wr else 0)
        bad = any(e[3] for e in t.log)
        cx.check(x.err == (1 if bad else 0), "slave error exactly if the target failed")
        exp = expected_writes(cx, [(word, d, st)], lanes) if wr else []
        if bad:
            cx.cover("failed")
            for a, v in t.bytes_written():
                cx.check(cx.or_(*[cx.and_(a == ea, v == ed) for ea, ed in exp]), "only bytes of the word are written")
        else:
            same_writes(cx, t.bytes_written(), exp, "strobed bytes written to their addresses")
            if not wr:
                for j in range(lanes):
                    cx.check((x.rdata >> (8 * j)) & 0xff == content(word + j), "contents of the addressed word", f"lane {j}")
