"""AXI master: matching of responses to operations, completion, idle."""
import cocotb
from cocotb.triggers import RisingEdge, Event
from cocotbext.axi import AxiWriteBus, AxiReadBus, AxiBus, AxiMaster, AxiMasterWrite, AxiMasterRead, AxiResp
from symx.api import case
from harness.common import channels, AXI, Rx, Tx, Stall, clocks, Watch, combine_ok


class Chooser:
    """picks which of the eligible transfers to answer next, or to wait"""

    def __init__(self, cx, stalls):
        self.cx, self.stalls = cx, stalls

    def pick(self, pending, idof):
        cx = self.cx
        el = []
        for i, p in enumerate(pending):
            older = False
            for q in pending[:i]:
                if idof(q) == idof(p):
                    older = True
                    break
            if not older:
                el.append(i)
        opts = list(el)
        if self.stalls > 0:
            opts.append(None)
        if not opts:
            return None
        k = cx.choice("pick", opts)
        if k is None:
            self.stalls -= 1
        return k


RESP_Q = [dict(ops=2, maxb=1, bursts=(1, 2), stalls=1, idw=2, mode="init"), dict(ops=3, maxb=1, bursts=(1,), stalls=0, idw=1, mode="init"),
          dict(ops=2, maxb=1, bursts=(1, 2), stalls=0, idw=1, mode="tasks"), dict(ops=1, maxb=1, bursts=(1, 2, 3), stalls=2, idw=2, mode="write"), dict(ops=1, maxb=1, bursts=(1, 2), stalls=1, idw=2, mode="tasks", addrw=64)]
RESP_T = RESP_Q + [dict(ops=3, maxb=1, bursts=(1, 2), stalls=1, idw=2, mode="init"), dict(ops=4, maxb=1, bursts=(1,), stalls=1, idw=2, mode="init"),
                   dict(ops=2, maxb=1, bursts=(2, 3), stalls=2, idw=1, mode="tasks")]


async def start_ops(cx, cfg, m, start, args):
    """issue the operations; returns events"""
    evs = []
    for k in range(cfg["ops"]):
        evs.append(start(k, args[k]))
    return evs


@case("C04", "write_resp", quick=RESP_Q, thorough=RESP_T, max_cycles=200)
async def write_resp(cx, cfg):
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, 1, cfg.get("addrw", 32), idw=cfg["idw"])
    m = AxiMaster(AxiBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    aw = Rx(cx, clk, ch["aw"])
    w = Rx(cx, clk, ch["w"])
    b = Tx(cx, clk, ch["b"])
    nops = cfg["ops"]
    counts = [cx.choice("bursts", cfg["bursts"]) for k in range(nops)]
    ids = [cx.bits("id", cfg["idw"]) if cx.flag("explicit") else None for k in range(nops)]
    base = [0x100 * (k + 1) for k in range(nops)]
    results = [None] * nops
    events = [None] * nops
    resps = [[] for k in range(nops)]
    users = [[] for k in range(nops)]
    watch = Watch(cx, b, counts)
    waited = []

    async def call(k):
        results[k] = await m.write(base[k], bytes(counts[k]), awid=ids[k])
        events[k].set(results[k])

    async def waiter(f, name):
        await f()
        watch.report(None, name + " returns only when all operations are complete")
        cx.check(m.write_if.idle(), "idle after wait")
        waited.append(name)
    await RisingEdge(clk)
    cx.check(m.idle(), "idle at the start")
    for k in range(nops):
        if cfg["mode"] == "init":
            own = Event() if k == 0 else None
            events[k] = m.init_write(base[k], bytes(counts[k]), awid=ids[k], event=own)
            cx.check(own is None or events[k] is own, "own event")
            cx.check(not m.idle(), "idle while an operation is outstanding", "after the call")
        else:
            events[k] = Event()
            cocotb.start_soon(call(k))
    if cfg["mode"] != "init":
        await clocks(clk, 1)
    cocotb.start_soon(waiter(m.wait, "wait"))
    cocotb.start_soon(waiter(m.wait_write, "wait_write"))
    total = sum(counts)
    chooser = Chooser(cx, cfg["stalls"])
    pending = []
    seen = 0
    op_of = [k for k in range(nops) for j in range(counts[k])]
    nans = 0
    edge = RisingEdge(clk)
    while not watch.done():
        await edge
        watch.judge()
        for k in range(nops):
            if events[k].is_set():
                watch.report(k, "completion before its last response")
        if m.idle():
            watch.report(None, "idle while an operation is outstanding")
        while seen < min(len(aw.items), len(w.items)):
            a = aw.items[seen]
            k = op_of[seen]
            cx.check(a.awaddr == base[k] + (seen - sum(counts[:k])), "bursts issued in the order of the calls")
            if ids[k] is not None:
                cx.check(a.awid == ids[k], "burst id")
            a.op = k
            pending.append(a)
            seen += 1
        if pending and b.idle():
            i = chooser.pick(pending, lambda p: p.awid)
            if i is not None:
                p = pending.pop(i)
                r = cx.bits("bresp", 2)
                u = cx.bits("buser", 4)
                b.put(bid=p.awid, bresp=r, buser=u, op=p.op)
                resps[p.op].append(r)
                users[p.op].append(u)
    for k in range(nops):
        if not events[k].is_set():
            await events[k].wait()
        r = events[k].data
        cx.check(r.address == base[k], "result of its own operation", f"address {k}")
        cx.check(r.length == counts[k], "result of its own operation", f"length {k}")
        cx.check(combine_ok(cx, r.resp, resps[k]), "result code", f"op {k}")
        cx.check(len(r.user) == counts[k], "result user", f"op {k}")
        for x, y in zip(r.user, users[k]):
            cx.check(x == y, "result user", f"op {k}")
    await clocks(clk, 3)
    watch.judge()
    cx.check(m.idle() and m.write_if.idle(), "idle at the end")
    cx.check(len(waited) == 2, "wait returns when the operations are complete", str(waited))
    cx.check(len(aw.items) == total, "no extra bursts")


RREAD_Q = [dict(ops=2, maxb=1, beats=(1, 2), stalls=1, idw=2, mode="init"), dict(ops=2, maxb=2, beats=(2, 3), stalls=0, idw=1, mode="init"),
           dict(ops=3, maxb=1, beats=(1,), stalls=0, idw=1, mode="init"),
           dict(ops=2, maxb=2, beats=(1, 2), stalls=0, idw=1, mode="tasks"), dict(ops=1, maxb=2, beats=(1, 2, 3, 4), stalls=2, idw=2, mode="read"), dict(ops=1, maxb=1, beats=(1, 2), stalls=1, idw=2, mode="tasks", addrw=64)]
RREAD_T = RREAD_Q + [dict(ops=3, maxb=1, beats=(1, 2), stalls=1, idw=2, mode="init"), dict(ops=3, maxb=2, beats=(2,), stalls=0, idw=2, mode="init"),
                     dict(ops=2, maxb=2, beats=(2, 3, 4), stalls=1, idw=1, mode="tasks")]


@case("C04", "read_resp", quick=RREAD_Q, thorough=RREAD_T, max_cycles=200)
async def read_resp(cx, cfg):
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, 1, cfg.get("addrw", 32), idw=cfg["idw"])
    m = AxiMaster(AxiBus.from_prefix(cx.top, "axi"), clk, max_burst_len=cfg["maxb"])
    ar = Rx(cx, clk, ch["ar"])
    rt = Tx(cx, clk, ch["r"])
    nops = cfg["ops"]
    counts = [cx.choice("beats", cfg["beats"]) for k in range(nops)]
    ids = [cx.bits("id", cfg["idw"]) if cx.flag("explicit") else None for k in range(nops)]
    base = [0x100 * (k + 1) for k in range(nops)]
    events = [None] * nops
    resps = [[] for k in range(nops)]
    users = [[] for k in range(nops)]
    datas = [[] for k in range(nops)]
    watch = Watch(cx, rt, counts)
    waited = []

    async def call(k):
        events[k].set(await m.read(base[k], counts[k], arid=ids[k]))

    async def waiter(f, name):
        await f()
        watch.report(None, name + " returns only when all operations are complete")
        cx.check(m.read_if.idle(), "idle after wait")
        waited.append(name)
    await RisingEdge(clk)
    cx.check(m.idle(), "idle at the start")
    for k in range(nops):
        if cfg["mode"] == "init":
            own = Event() if k == 0 else None
            events[k] = m.init_read(base[k], counts[k], arid=ids[k], event=own)
            cx.check(own is None or events[k] is own, "own event")
            cx.check(not m.idle(), "idle while an operation is outstanding", "after the call")
        else:
            events[k] = Event()
            cocotb.start_soon(call(k))
    if cfg["mode"] != "init":
        await clocks(clk, 1)
    cocotb.start_soon(waiter(m.wait, "wait"))
    cocotb.start_soon(waiter(m.wait_read, "wait_read"))
    total = sum(counts)
    chooser = Chooser(cx, cfg["stalls"])
    pending = []
    seen = 0
    beats_seen = 0
    edge = RisingEdge(clk)
    while not watch.done():
        await edge
        watch.judge()
        for k in range(nops):
            if events[k].is_set():
                watch.report(k, "completion before its last response")
        if m.idle():
            watch.report(None, "idle while an operation is outstanding")
        while seen < len(ar.items):
            a = ar.items[seen]
            k = 0
            while beats_seen >= sum(counts[:k + 1]):
                k += 1
            cx.check(a.araddr == base[k] + (beats_seen - sum(counts[:k])), "bursts issued in the order of the calls")
            if ids[k] is not None:
                cx.check(a.arid == ids[k], "burst id")
            a.op = k
            a.left = cx.conc(a.arlen) + 1
            beats_seen += a.left
            pending.append(a)
            seen += 1
        if pending and rt.idle():
            i = chooser.pick(pending, lambda p: p.arid)
            if i is not None:
                p = pending[i]
                p.left -= 1
                r = cx.bits("rresp", 2)
                u = cx.bits("ruser", 4)
                d = cx.bits("rdata", 8)
                rt.put(rid=p.arid, rresp=r, ruser=u, rdata=d, rlast=1 if p.left == 0 else 0, op=p.op)
                if p.left == 0:
                    pending.pop(i)
                resps[p.op].append(r)
                users[p.op].append(u)
                datas[p.op].append(d)
    for k in range(nops):
        if not events[k].is_set():
            await events[k].wait()
        r = events[k].data
        cx.check(r.address == base[k], "result of its own operation", f"address {k}")
        cx.check(len(r.data) == counts[k], "result of its own operation", f"length {k}")
        for x, y in zip(r.data, datas[k]):
            cx.check(x == y, "result of its own operation", f"data {k}")
        cx.check(combine_ok(cx, r.resp, resps[k]), "result code", f"op {k}")
        cx.check(len(r.user) == counts[k], "result user", f"op {k}")
        for x, y in zip(r.user, users[k]):
            cx.check(x == y, "result user", f"op {k}")
    await clocks(clk, 3)
    watch.judge()
    cx.check(m.idle() and m.read_if.idle(), "idle at the end")
    cx.check(len(waited) == 2, "wait returns when the operations are complete", str(waited))


HIST_Q = [dict(phases=(1, 2), bursts=(1, 2), idw=2), dict(phases=(2, 2), bursts=(1,), idw=2, refill=True), dict(phases=(9,), bursts=(1,), idw=2, many=True)]
HIST_T = HIST_Q + [dict(phases=(1, 3), bursts=(1, 2), idw=2), dict(phases=(2, 2), bursts=(1, 2), idw=2), dict(phases=(1, 2, 2), bursts=(1,), idw=2),
                   dict(phases=(2, 3), bursts=(1,), idw=2, refill=True)]


async def history(cx, cfg, clk, m, rx, tx, start, addr_of, id_of, answer, verify, fresh):
    """operations in phases: the ones of a phase are outstanding together and are
    answered in any order the IDs allow; the next phase starts when all of them
    (with refill: all but one) are complete, so that whatever the master keeps
    per ID is used again, for the same ID or for another one"""
    n = sum(cfg["phases"])
    counts = [cx.choice("bursts", cfg["bursts"]) for k in range(n)]
    many = cfg.get("many")      # many operations at once, IDs chosen by the master, answered in order and okay
    ids = [None if many else cx.bits("id", cfg["idw"]) if cx.flag("explicit") else None for k in range(n)]
    events = [None] * n
    answers = [[] for k in range(n)]
    base = [0x100 * (k + 1) for k in range(n)]
    chooser = Chooser(cx, 0)
    await RisingEdge(clk)
    first, seen, pending = 0, 0, []
    op_of = [k for k in range(n) for j in range(counts[k])]
    for ph, size in enumerate(cfg["phases"]):
        for k in range(first, first + size):
            events[k] = start(base[k], counts[k], ids[k])
        first += size
        goal = sum(counts[:first])
        keep = 1 if cfg.get("refill") and ph + 1 < len(cfg["phases"]) else 0
        while len(rx.items) < goal or fresh() < goal:
            await RisingEdge(clk)
        while seen < goal:
            a = rx.items[seen]
            k = a.op = op_of[seen]
            cx.check(addr_of(a) == base[k] + (seen - sum(counts[:k])), "bursts issued in the order of the calls")
            if ids[k] is not None:
                cx.check(id_of(a) == ids[k], "burst id")
            pending.append(a)
            seen += 1
        while len(pending) > keep:
            p = pending.pop(0 if many else chooser.pick(pending, id_of))
            answers[p.op].append(answer(p))
        while not tx.idle():
            await RisingEdge(clk)
        await clocks(clk, 3)
        left = [p.op for p in pending]
        for k in range(first):
            cx.check(events[k].is_set() == (k not in left), "complete when, and only when, its responses are in", f"op {k}")
        cx.check(m.idle() == (not left), "idle exactly when nothing is outstanding")
    for k in range(n):
        r = events[k].data
        cx.check(r.address == base[k], "result of its own operation", f"address {k}")
        cx.check(combine_ok(cx, r.resp, [x[0] for x in answers[k]]), "result code", f"op {k}")
        cx.check(len(r.user) == counts[k], "result user", f"op {k}")
        for x, y in zip(r.user, answers[k]):
            cx.check(x == y[1], "result user", f"op {k}")
        verify(k, r, counts[k], answers[k])
    cx.check(len(rx.items) == sum(counts), "no extra bursts")


@case("C04", "write_history", quick=HIST_Q, thorough=HIST_T, max_cycles=300, must=("complete when, and only when, its responses are in",))
async def write_history(cx, cfg):
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, 1, idw=cfg["idw"])
    m = AxiMaster(AxiBus.from_prefix(cx.top, "axi"), clk, max_burst_len=1)
    aw, w, b = Rx(cx, clk, ch["aw"]), Rx(cx, clk, ch["w"]), Tx(cx, clk, ch["b"])

    def answer(p):
        r, u = 0 if cfg.get("many") else cx.bits("bresp", 2), cx.bits("buser", 4)
        b.put(bid=p.awid, bresp=r, buser=u, op=p.op)
        return r, u

    def verify(k, r, n, ans):
        cx.check(r.length == n, "result of its own operation", f"length {k}")
    await history(cx, cfg, clk, m, aw, b, lambda a, n, i: m.init_write(a, bytes(n), awid=i), lambda a: a.awaddr, lambda a: a.awid, answer, verify,
                  lambda: len(w.items))


@case("C04", "read_history", quick=HIST_Q, thorough=HIST_T, max_cycles=300, must=("complete when, and only when, its responses are in",))
async def read_history(cx, cfg):
    clk = cx.clock()
    ch = channels(cx, ("aw", "w", "b", "ar", "r"), AXI, 1, idw=cfg["idw"])
    m = AxiMaster(AxiBus.from_prefix(cx.top, "axi"), clk, max_burst_len=1)
    ar, rt = Rx(cx, clk, ch["ar"]), Tx(cx, clk, ch["r"])

    def answer(p):
        r, u, d = 0 if cfg.get("many") else cx.bits("rresp", 2), cx.bits("ruser", 4), cx.bits("rdata", 8)
        rt.put(rid=p.arid, rresp=r, ruser=u, rdata=d, rlast=1, op=p.op)
        return r, u, d

    def verify(k, r, n, ans):
        cx.check(len(r.data) == n, "result of its own operation", f"length {k}")
        for x, y in zip(r.data, ans):
            cx.check(x == y[2], "result of its own operation", f"data {k}")
    await history(cx, cfg, clk, m, ar, rt, lambda a, n, i: m.init_read(a, n, arid=i), lambda a: a.araddr, lambda a: a.arid, answer, verify,
                  lambda: len(ar.items))
