"""AXI stream source, sink, monitor and frames."""
import cocotb
from cocotb.queue import QueueFull
from cocotb.triggers import RisingEdge, FallingEdge, Event
from cocotb.utils import get_sim_time
from cocotbext.axi import AxiStreamBus, AxiStreamSource, AxiStreamSink, AxiStreamMonitor, AxiStreamFrame
from symx.api import case
from harness.stream import timed_waits, TMO_Q, TMO_T
from harness.common import Item, Pauser, clocks, Tx, Stall

SIDE = (("tid", 4), ("tdest", 4), ("tuser", 3))
EVERY = ("tvalid", "tready", "tlast", "tkeep", "tid", "tdest", "tuser")


def bus(cx, lanes, has, bsize=8, pre="s"):
    s = {"tdata": cx.sig(pre + "_tdata", lanes * bsize)}
    for n in has:
        s[n] = cx.sig(f"{pre}_{n}", lanes if n == "tkeep" else dict(SIDE).get(n, 1))
    return s


class Frame:
    """contents of a frame of the testbench: one value per byte for everything"""

    def __init__(self, cx, n, lanes, k, style, bsize=8):
        self.data = [cx.bits(f"data{k}", bsize) for i in range(n)]
        self.keep = [1] * n
        self.side = {s: [0] * n for s, w in SIDE}
        self.arg = {}
        if style == "none":
            return
        if style == "short":        # lists shorter than the data are continued with their last value
            self.keep = [cx.bits("keep", 1) for i in range(max(1, n - 1))]
            self.arg["tkeep"] = [x for x in self.keep]
            self.keep = self.keep + [self.keep[-1]] * (n - len(self.keep))
        elif style == "keep":
            self.keep = [cx.bits("keep", 1) for i in range(n)]
            self.arg["tkeep"] = [x for x in self.keep]
        for s, w in SIDE:
            if style in ("int", "keep"):
                v = cx.bits(f"{s}{k}", w)
                self.side[s] = [v] * n
                self.arg[s] = v
            elif style == "list":
                self.side[s] = [cx.bits(f"{s}{k}", w) for i in range(n)]
                self.arg[s] = [x for x in self.side[s]]
            elif style == "short":      # continued with the last value
                v = [cx.bits(f"{s}{k}", w) for i in range(max(1, n - 1))]
                self.side[s] = v + [v[-1]] * (n - len(v))
                self.arg[s] = [x for x in v]

    def make(self, form, bsize=8, **kw):
        data = self.data if bsize != 8 or form == "list" else bytearray(self.data)
        return AxiStreamFrame(data, **self.arg, **kw)


def check_beats(cx, beats, frame, lanes, has, bsize=8):
    """beats carry the frame"""
    n = len(frame.data)
    cx.check(len(beats) == (n + lanes - 1) // lanes, "consecutive full transfers", f"{len(beats)} transfers for {n} bytes")
    for k, b in enumerate(beats):
        last = k == len(beats) - 1
        m = n - k * lanes if last else lanes
        for j in range(m):
            i = k * lanes + j
            cx.check((b["tdata"] >> (bsize * j)) & ((1 << bsize) - 1) == frame.data[i], "bytes in order", f"byte {i}")
            if "tkeep" in has:
                cx.check((b["tkeep"] >> j) & 1 == frame.keep[i], "keep of each byte", f"byte {i}")
        if "tkeep" in has:
            cx.check(b["tkeep"] >> m == 0, "keep clear for unused lanes")
        if "tlast" in has:
            cx.check(b["tlast"] == (1 if last else 0), "last flag on the last transfer only")
        for s, w in SIDE:
            if s in has:
                cx.check(b[s] == frame.side[s][k * lanes + m - 1], "sideband values", f"{s} of transfer {k}")


class Recv:
    """receiver of an AXI stream: checks that a waiting transfer is held"""

    def __init__(self, cx, clk, s, ready):
        self.cx, self.clk, self.s, self.left = cx, clk, s, ready
        self.beats = []
        self.presented = []       # (cycle of presentation)
        self.times = []           # (time of presentation)
        self.now = None
        self.on_new = None
        cocotb.start_soon(self.run())

    def next_ready(self):
        r = self.cx.bits("ready", 1) if self.left > 0 else 1
        self.left -= 1
        self.s["tready"].value = r
        return r

    async def run(self):
        cx, s = self.cx, self.s
        has_r = "tready" in s
        rdy = self.next_ready() if has_r else 1
        prev = None
        while True:
            before = self.now
            await RisingEdge(self.clk)
            self.now = get_sim_time()
            v = 1
            if "tvalid" in s:
                cx.check(cx.resolvable(s["tvalid"].value), "valid driven")
                v = cx.val(s["tvalid"].value)
            if prev is not None:
                cx.check(v == 1, "valid held until ready")
            if v == 1 and ("tvalid" in s or cx.resolvable(s["tdata"].value)):
                now = {n: cx.val(x.value) for n, x in s.items() if n not in ("tvalid", "tready")}
                if prev is not None:
                    for n in now:
                        cx.check(now[n] == prev[n], "values held until ready", n)
                else:
                    self.presented.append(cx.cycle)
                    self.times.append(before)
                    if self.on_new is not None:
                        self.on_new()
                if rdy == 1:
                    now["cycle"] = cx.cycle
                    self.beats.append(now)
                    prev = None
                else:
                    prev = now
            if has_r:
                rdy = self.next_ready()


def nbeats(n, lanes):
    return (n + lanes - 1) // lanes


SRC_Q = [
    dict(lanes=1, lens=((1,), (2,), (3,)), style=("none", "int", "list"), ready=3), dict(lanes=4, lens=((1,), (3,), (4,), (5,), (8,), (9,)), style=("none", "int", "list", "short"), ready=2),
    dict(lanes=2, lens=((1, 2), (2, 1), (3, 2), (4, 3)), style=("int",), ready=3), dict(lanes=3, lens=((4,), (5,), (6,), (7,)), style=("list", "keep"), ready=0),
    dict(lanes=2, lens=((3,),), style=("keep",), ready=4), dict(lanes=1, lens=((1, 1, 2), (2, 1, 1)), style=("int",), ready=3), dict(lanes=8, lens=((1,), (7,), (8,), (9,), (17,)), style=("int",), ready=1),
    dict(lanes=2, lens=((1, 3), (4, 2)), style=("int",), ready=2, has=("tvalid", "tready", "tlast")), dict(lanes=2, lens=((2, 4),), style=("int",), ready=2, has=("tvalid", "tready")),
    dict(lanes=2, lens=((1, 3),), style=("list",), ready=0, has=("tvalid", "tlast", "tkeep", "tuser")), dict(lanes=2, lens=((3,), (4,)), style=("none",), ready=2, bsize=12),
    dict(lanes=4, lens=((3,), (6,)), style=("int",), ready=1, bsize=5), dict(lanes=16, lens=((17,),), style=("int",), ready=0)]
SRC_T = SRC_Q + [dict(lanes=4, lens=[(n,) for n in range(1, 18)], style=("list", "int", "short"), ready=2), dict(lanes=2, lens=((3, 4, 1), (2, 2, 3)), style=("list", "int"), ready=5), dict(lanes=8, lens=[(n,) for n in range(1, 26)], style=("int", "list"), ready=1), dict(lanes=3, lens=((5,),), style=("keep", "short"), ready=3)]


@case("C13", "source", quick=SRC_Q, thorough=SRC_T, max_cycles=100)
async def source(cx, cfg):
    lanes, has, bsize = cfg["lanes"], cfg.get("has", EVERY), cfg.get("bsize", 8)
    clk = cx.clock()
    s = bus(cx, lanes, has, bsize)
    kw = {} if bsize == 8 or "tkeep" in has else dict(byte_size=bsize)
    src = AxiStreamSource(AxiStreamBus.from_prefix(cx.top, "s"), clk, **kw)
    rx = Recv(cx, clk, s, cfg["ready"])
    lens = cx.choice("lens", cfg["lens"])
    style = cx.choice("style", cfg["style"])
    frames = [Frame(cx, n, lanes, k, style, bsize) for k, n in enumerate(lens)]
    await FallingEdge(clk)
    done = {}
    for k, f in enumerate(frames):
        if style == "none" and bsize == 8:
            how = cx.choice("call", ("send", "write", "write_nowait", "send_nowait"))
            d = bytes(f.data)
            if how == "send":
                await src.send(d)
            elif how == "write":
                await src.write(d)
            elif how == "write_nowait":
                src.write_nowait(d)
            else:
                src.send_nowait(d)
        else:
            fr = f.make("bytes", bsize, tx_complete=lambda x, k=k: done.update({k: (x.sim_time_start, x.sim_time_end)}))
            await src.send(fr)
            # the source has its own copy
            fr.tdata[0] = (fr.tdata[0] + 1) & 0x1f
            fr.tid = 9
    total = sum(nbeats(n, lanes) for n in lens)
    while len(rx.beats) < total:
        await FallingEdge(clk)
    await clocks(clk, 3)
    cx.check(len(rx.beats) == total, "no extra transfers")
    i = 0
    for k, f in enumerate(frames):
        m = nbeats(len(f.data), lanes)
        check_beats(cx, rx.beats[i:i + m], f, lanes, has, bsize)
        if k in done:
            cx.check(done[k] == (rx.times[i], rx.times[i + m - 1]), "times of the first and last transfer")
        i += m


# ------------------------------------------------------------------ sinks

class Stim:
    """arbitrary valid (and ready) values on a stream for n cycles; records what is handshaken"""

    def __init__(self, cx, clk, s, n, lanes, both, bsize=8, keep=True, tail=1):
        self.cx, self.clk, self.s, self.n, self.lanes, self.both, self.bsize, self.keep, self.tail = cx, clk, s, n, lanes, both, bsize, keep, tail
        self.beats = []
        self.frames = []
        self.cur = []
        self.times = []             # of the first and last transfer of each frame
        self.begin = None
        self.ready = []
        self.done = False
        self.drive(True)
        cocotb.start_soon(self.run())

    def drive(self, now=False, idle=False):
        cx, s = self.cx, self.s
        self.now = {"tdata": cx.bits("tdata", len(s["tdata"]))}
        if "tlast" in s:
            self.now["tlast"] = cx.bits("tlast", 1)
        if "tkeep" in s:
            self.now["tkeep"] = cx.bits("tkeep", self.lanes) if self.keep else (1 << self.lanes) - 1
        for n, w in SIDE:
            if n in s:
                self.now[n] = cx.bits(n, w)
        self.v = 0 if idle else cx.bits("valid", 1)
        self.r = cx.bits("ready", 1) if self.both and not idle else 0
        for n, x in list(self.now.items()) + [("tvalid", self.v)] + ([("tready", self.r)] if self.both else []):
            if n in s:
                if now:
                    s[n].set(x)
                else:
                    s[n].value = x

    async def run(self):
        cx, s = self.cx, self.s
        for k in range(self.n + self.tail):
            await RisingEdge(self.clk)
            r = v = 1
            if "tready" in s:
                cx.check(cx.resolvable(s["tready"].value), "ready driven")
                r = cx.val(s["tready"].value)
            if "tvalid" in s:
                v = self.v
            self.ready.append(r)
            if v == 1 and r == 1 and not self.done:
                if not self.cur:
                    self.begin = get_sim_time()
                self.cur.append(self.now)
                last = self.now["tlast"] if "tlast" in s else 1
                if last == 1:
                    self.frames.append(self.cur)
                    self.times.append((self.begin, get_sim_time()))
                    self.cur = []
            if k + 1 >= self.n and "tvalid" not in s:
                self.done = True
                return
            self.drive(idle=k + 1 >= self.n)
        self.done = True


def unpack(cx, frames, lanes, has, bsize):
    """contents of the frames by the AXI stream rules: (bytes, {sideband: values})"""
    out = []
    for fr in frames:
        data, side = [], {s: [] for s, w in SIDE}
        for b in fr:
            kp = cx.conc(b["tkeep"]) if "tkeep" in has else (1 << lanes) - 1
            for j in range(lanes):
                if (kp >> j) & 1:
                    data.append((b["tdata"] >> (bsize * j)) & ((1 << bsize) - 1))
                    for s, w in SIDE:
                        side[s].append(b[s] if s in has else None)
        out.append((data, side))
    return out


def expand(v, n):
    return v if isinstance(v, list) else [v] * n


def check_frames(cx, got, exp, has):
    cx.check(len(got) == len(exp), "one frame per last transfer", f"{len(got)} frames instead of {len(exp)}")
    for f, (data, side) in zip(got, exp):
        cx.check(len(f.tdata) == len(data), "bytes with keep, in order", f"{len(f.tdata)} bytes instead of {len(data)}")
        for a, b in zip(f.tdata, data):
            cx.check(a == b, "bytes with keep, in order")
        cx.check(f.tkeep is None, "keep removed")
        for s, w in SIDE:
            v = getattr(f, s)
            if s not in has or not data:
                cx.check(v is None, "no sideband value", s)
            else:
                vs = expand(v, len(data))
                cx.check(len(vs) == len(data), "corresponding sideband values", s)
                for a, b in zip(vs, side[s]):
                    cx.check(a == b, "corresponding sideband values", s)


RX_Q = [
    dict(n=3, lanes=1, has=("tvalid", "tready", "tlast", "tkeep", "tuser")), dict(n=2, lanes=2, has=EVERY), dict(n=1, lanes=4, has=("tvalid", "tready", "tlast", "tkeep")),
    dict(n=3, lanes=2, has=("tlast", "tkeep", "tuser")), dict(n=2, lanes=4, has=("tlast", "tkeep", "tdest")),
    dict(n=3, lanes=2, has=("tvalid", "tready", "tlast", "tid", "tdest")), dict(n=3, lanes=2, has=("tvalid", "tready")), dict(n=3, lanes=2, has=("tvalid", "tlast", "tuser")), dict(n=3, lanes=1, has=("tlast", "tuser")), dict(n=3, lanes=1, has=("tready",)),
    dict(n=2, lanes=2, has=("tvalid", "tready", "tlast", "tkeep"), bsize=12), dict(n=4, lanes=3, has=("tvalid", "tready", "tlast"), bsize=5), dict(n=3, lanes=8, has=("tvalid", "tready", "tlast"))]
RX_T = RX_Q + [dict(n=4, lanes=2, has=("tvalid", "tready", "tlast", "tkeep")), dict(n=5, lanes=1, has=("tvalid", "tready", "tlast")), dict(n=3, lanes=2, has=EVERY), dict(n=2, lanes=4, has=("tvalid", "tready", "tlast", "tkeep", "tuser"))]


async def receive(cx, cfg, model):
    lanes, has, bsize = cfg["lanes"], cfg["has"], cfg.get("bsize", 8)
    clk = cx.clock()
    s = bus(cx, lanes, has, bsize)
    st = Stim(cx, clk, s, cfg["n"], lanes, model is AxiStreamMonitor, bsize)
    kw = {} if bsize == 8 or "tkeep" in has else dict(byte_lanes=lanes)
    rx = model(AxiStreamBus.from_prefix(cx.top, "s"), clk, **kw)
    while not st.done:
        await FallingEdge(clk)
        cx.check(rx.count() == len(st.frames), "one frame per last transfer")
        cx.check(rx.queue_occupancy_frames == len(st.frames), "occupancy")
        if model is AxiStreamMonitor:
            for n, x in st.now.items():
                cx.check(cx.val(s[n].value) == x, "a monitor never drives the bus")
            if "tready" in s:
                cx.check(cx.val(s["tready"].value) == st.r, "a monitor never drives the bus")
    nframes = len(st.frames)
    got = []
    mode = cx.choice("receive", ("recv", "read"))
    exp = unpack(cx, st.frames, lanes, has, bsize)
    if mode == "recv":
        for k in range(nframes):
            got.append(await rx.recv() if k % 2 else rx.recv_nowait())
        check_frames(cx, got, exp, has)
        for f, (a, b) in zip(got, st.times):
            cx.check(f.sim_time_start == a and f.sim_time_end == b, "times of the first and last transfer")
    else:
        allb = []
        for d, _ in exp:
            allb = allb + d
        if allb:
            first = await rx.read(1)
            rest = rx.read_nowait()
            both = [x for x in first] + [x for x in rest]
        else:
            both = rx.read_nowait()
        cx.check(len(both) == len(allb), "read returns the pending data")
        for a, b in zip(both, allb):
            cx.check(a == b, "read returns the pending data")
    cx.check(rx.empty() and rx.queue_occupancy_bytes == 0 and rx.queue_occupancy_frames == 0, "occupancy")


@case("C14", "monitor", quick=RX_Q, thorough=RX_T)
async def monitor(cx, cfg):
    await receive(cx, cfg, AxiStreamMonitor)


@case("C14", "sink", quick=RX_Q, thorough=RX_T)
async def sink(cx, cfg):
    await receive(cx, cfg, AxiStreamSink)


# ----------------------------------------------------------------- frames

def side_value(cx, name, w, n, kinds):
    """(argument, values for each byte or None)"""
    kind = cx.choice(name + " kind", kinds)
    if kind == "none":
        return None, None
    if kind == "empty":
        return [], None
    if kind == "int":
        v = cx.bits(name, w)
        return v, [v] * n
    m = n if kind == "list" else kind
    v = [cx.bits(name, w) for i in range(m)]
    return [x for x in v], (v + [v[-1]] * n)[:n] if m else None


class Spec:
    """a frame and what it stands for"""

    def __init__(self, cx, n, kinds, keeps, form, k=""):
        self.data = [cx.bits("tdata" + k, 8) for i in range(n)]
        self.keep_arg, self.keep = side_value(cx, "tkeep" + k, 1, n, keeps)
        self.args, self.side = {}, {}
        for s, w in SIDE:
            self.args[s], self.side[s] = side_value(cx, s + k, w, n, kinds.get(s, ("none",)))
        data = self.data
        if form == "bytearray":
            data = bytearray(data)
        elif form == "bytes":
            data = bytes(data)
        self.frame = AxiStreamFrame(data, tkeep=self.keep_arg, **self.args)


def check_same(cx, f, g, what):
    cx.check(len(f.tdata) == len(g.tdata), what)
    for a, b in zip(f.tdata, g.tdata):
        cx.check(a == b, what)
    for s in ("tkeep", "tid", "tdest", "tuser"):
        a, b = getattr(f, s), getattr(g, s)
        if a is None or b is None:
            cx.check(a is None and b is None, what, s)
        elif isinstance(a, list) or isinstance(b, list):
            cx.check(isinstance(a, list) and isinstance(b, list) and len(a) == len(b), what, s)
            for x, y in zip(a, b):
                cx.check(x == y, what, s)
        else:
            cx.check(a == b, what, s)


ALL = ("none", "int", "list", "empty", 1, 4)
FR_Q = [dict(n=1, kinds=dict(tid=ALL, tuser=ALL), keeps=("none", "list", "empty")), dict(n=2, kinds=dict(tuser=ALL), keeps=("none", "list", "empty", 1, 3)), dict(n=3, kinds=dict(tid=("int", "list"), tdest=("list",)), keeps=("list", 2)), dict(n=3, kinds=dict(tdest=ALL), keeps=("list",))]
FR_T = FR_Q + [dict(n=5, kinds=dict(tid=("int", "list"), tdest=("list",), tuser=("list", "none")), keeps=("list", "none")), dict(n=2, kinds=dict(tid=ALL, tdest=ALL, tuser=ALL), keeps=("list", "none"))]
FORMS = ("bytearray", "bytes", "list")


@case("C15", "copy", quick=FR_Q[:3], thorough=FR_T)
async def copy(cx, cfg):
    sp = Spec(cx, cfg["n"], cfg["kinds"], cfg["keeps"], cx.choice("form", FORMS))
    ev = Event()
    ref = AxiStreamFrame(sp.frame, tx_complete=ev)
    f = sp.frame
    f.sim_time_start, f.sim_time_end = 11, 22
    c = AxiStreamFrame(f)
    check_same(cx, f, c, "a copy is equal")
    cx.check(f == c and c == f, "a copy is equal")
    cx.check(c.sim_time_start == 11 and c.sim_time_end == 22 and ref.tx_complete is ev, "times and event are kept")
    cx.check(isinstance(c.tdata, bytearray) == isinstance(f.tdata, bytearray), "a copy is equal")
    cx.check(len(c) == cfg["n"] and len(bytes(c)) == cfg["n"], "length")
    # changes of the copy do not show in the original
    if len(c.tdata):
        c.tdata[0] = (sp.data[0] + 1) & 0xff
    c.tdata.append(1)
    for s in ("tkeep", "tid", "tdest", "tuser"):
        v = getattr(c, s)
        if isinstance(v, list):
            v.append(1)
            v[0] = 99
    check_same(cx, f, ref, "copies are independent")
    cx.check(len(f.tdata) == cfg["n"], "copies are independent")
    for a, b in zip(f.tdata, sp.data):
        cx.check(a == b, "copies are independent")


@case("C15", "normalize", quick=FR_Q, thorough=FR_T)
async def normalize(cx, cfg):
    n = cfg["n"]
    sp = Spec(cx, n, cfg["kinds"], cfg["keeps"], "bytearray")
    f = sp.frame
    f.normalize()
    cx.check(len(f.tdata) == n, "normalising keeps the bytes")
    for a, b in zip(f.tdata, sp.data):
        cx.check(a == b, "normalising keeps the bytes")
    for s, vals, default in [("tkeep", sp.keep, 1)] + [(x, sp.side[x], 0) for x, w in SIDE]:
        v = getattr(f, s)
        cx.check(isinstance(v, list) and len(v) == n, "one value per byte", s)
        for a, b in zip(v, vals if vals is not None else [default] * n):
            cx.check(a == b, "the values of the bytes", s)


@case("C15", "compact", quick=FR_Q, thorough=FR_T)
async def compact(cx, cfg):
    n = cfg["n"]
    sp = Spec(cx, n, cfg["kinds"], cfg["keeps"], cx.choice("form", ("bytearray", "list")))
    f = sp.frame
    if cx.flag("normalize first"):
        f.normalize()
        for s, w in SIDE:
            if sp.side[s] is None:
                sp.side[s] = [0] * n
    f.compact()
    keep = [cx.conc(k) for k in sp.keep] if sp.keep is not None else [1] * n
    idx = [i for i in range(n) if keep[i]]
    cx.check(len(f.tdata) == len(idx), "the bytes with keep in order")
    for a, i in zip(f.tdata, idx):
        cx.check(a == sp.data[i], "the bytes with keep in order")
    cx.check(f.tkeep is None, "keep removed")
    for s, w in SIDE:
        v = getattr(f, s)
        if sp.side[s] is None or not idx:
            cx.check(v is None, "no value", s)
            continue
        exp = [sp.side[s][i] for i in idx]
        if isinstance(v, list):
            cx.check(len(v) == len(exp), "the values of the bytes", s)
            for a, b in zip(v, exp):
                cx.check(a == b, "the values of the bytes", s)
            cx.check(cx.or_(*[x != exp[0] for x in exp]), "equal values are combined into one", s)
        else:
            cx.check(v is not None, "the values of the bytes", s)
            for b in exp:
                cx.check(v == b, "the values of the bytes", s)


EQ_Q = [dict(n=2, m=2, s=("tid",), kinds=("none", "int", "list"), keeps=("none", "list")), dict(n=2, m=2, s=("tdest",), kinds=("none", "int", "list"), keeps=("none",)), dict(n=3, m=3, s=("tuser",), kinds=("none", "int", "list"), keeps=("none",)), dict(n=1, m=2, s=("tid",), kinds=("none", "int"), keeps=("none",)),
        dict(n=1, m=1, s=("tid", "tdest", "tuser"), kinds=("none", "int"), keeps=("none",))]


@case("C15", "equality", quick=EQ_Q, thorough=EQ_Q + [dict(n=4, m=4, s=("tid", "tuser"), kinds=("none", "int", "list"), keeps=("none", "list"))])
async def equality(cx, cfg):
    kinds = {s: cfg["kinds"] for s in cfg["s"]}
    form = cx.choice("form", ("bytearray", "list"))
    a = Spec(cx, cfg["n"], kinds, cfg["keeps"], form, "0")
    b = Spec(cx, cfg["m"], kinds, cfg["keeps"], form, "1")
    n = cfg["n"]
    agree = [cfg["n"] == cfg["m"]]
    for x, y in zip(a.data, b.data):
        agree.append(x == y)
    for p, q in [(a.keep, b.keep)] + [(a.side[s], b.side[s]) for s, w in SIDE]:
        if p is not None and q is not None and cfg["n"] == cfg["m"]:
            for x, y in zip(p, q):
                agree.append(x == y)
    exp = cx.and_(*agree)
    r1 = bool(a.frame == b.frame)
    r2 = bool(b.frame == a.frame)
    r3 = bool(a.frame != b.frame)
    cx.check(exp == r1, "equal exactly if everything both specify agrees")
    cx.check(exp == r2, "equality is symmetric")
    cx.check(exp == (not r3), "unequal is the opposite")
    cx.check(not (a.frame == 5) and not (a.frame == [1]), "not equal to other things")


# ------------------------------------------------------------ flow control

FSRC_Q = [dict(lens=(2, 1), ready=2, pause=4), dict(lens=(1, 2), ready=4, gaps=(0, 1, 2)), dict(lens=(2, 1, 1), ready=1, frames=1), dict(lens=(1, 1, 1, 1), ready=1, frames=2),
          dict(lens=(2, 2, 3), ready=1, nbytes=1), dict(lens=(2, 2, 1, 1), ready=1, nbytes=3), dict(lens=(2, 1, 2), ready=1, clear=4), dict(lens=(3,), ready=2, pause=3, has=("tvalid", "tdata")), dict(lens=(1, 1, 1), ready=1, nbytes=2, frames=1, clear=2),
          dict(lens=(2, 1), ready=2, pause=3, how="generator"), dict(lens=(2, 1), ready=1, pause=3, how="change"), dict(lens=(2, 1), ready=2, pause=3, how="edge", gaps=(0, 1), edge=True), dict(lens=(1, 2, 1), ready=2, frames=1, gaps=(0, 1), edge=True)]
FSRC_T = FSRC_Q + [dict(lens=(2, 1, 2), ready=3, pause=6), dict(lens=(2, 1, 3, 2), ready=3, nbytes=3, gaps=(0, 1)), dict(lens=(2, 1, 2), ready=3, clear=6, pause=2), dict(lens=(1, 1, 1, 1), ready=3, frames=2, pause=3)]


@case("C16", "source", quick=FSRC_Q, thorough=FSRC_T, max_cycles=150)
async def flow_source(cx, cfg):
    lanes, has = 1, cfg.get("has", EVERY)
    lens = cfg["lens"]
    clk = cx.clock()
    s = bus(cx, lanes, [h for h in has if h != "tdata"])
    src = AxiStreamSource(AxiStreamBus.from_prefix(cx.top, "s"), clk)
    rx = Recv(cx, clk, s, cfg["ready"])
    frames = [Frame(cx, n, lanes, k, "none") for k, n in enumerate(lens)]
    fl, bl = cfg.get("frames", 0), cfg.get("nbytes", 0)
    if fl:
        src.queue_occupancy_limit_frames = fl
    if bl:
        src.queue_occupancy_limit_bytes = bl
    sent = []           # frame numbers which are sent, in order
    cycles = {}         # when they were queued
    fired = []
    events = {}
    waited = []

    def full(nf, nb):
        return bool((fl and nf > fl) or (bl and nb > bl))

    def queued():
        """frames still in the queue"""
        return sent[len(sent) - src.count():]

    def occupancy():
        q = queued()
        nb = sum(lens[k] for k in q)
        cx.check(src.queue_occupancy_frames == src.count() and src.empty() == (src.count() == 0), "occupancy")
        cx.check(src.queue_occupancy_bytes == nb, "occupancy")
        cx.check(src.full() == full(len(q), nb), "full exactly above a limit")

    def callback(k):
        def done(f):
            fired.append((k, cx.cycle, f))
        return done

    async def on_event(k, ev):
        await ev.wait()
        fired.append((k, cx.cycle, ev.data))

    async def waiter(upto):
        await src.wait()
        waited.append((cx.cycle, upto))

    async def feed():
        for k in range(len(lens)):
            for g in range(cx.choice("gap", cfg.get("gaps", (0,)))):
                await (RisingEdge if cfg.get("edge") else FallingEdge)(clk)
            if k % 2:
                fr = frames[k].make("bytes", tx_complete=callback(k))
            else:
                events[k] = Event()
                fr = frames[k].make("bytes", tx_complete=events[k])
                cocotb.start_soon(on_event(k, events[k]))
            if cx.choice("send", ("send", "nowait")) == "send":
                await src.send(fr)
            else:
                while src.full():
                    c = src.count()
                    try:
                        src.send_nowait(fr)
                        cx.fail("a full source refuses frames")
                    except QueueFull:
                        pass
                    cx.check(src.count() == c, "a full source refuses frames")
                    await FallingEdge(clk)
                src.send_nowait(fr)
            sent.append(k)
            cycles[k] = cx.cycle
            occupancy()
            q = queued()[:-1]
            cx.check(not full(len(q), sum(lens[x] for x in q)), "a full source refuses frames")
            cx.check(not src.idle(), "idle exactly when everything was accepted")
            cocotb.start_soon(waiter(k))

    def new_transfer():
        cx.check(not (pauser and pauser.paused(cx.cycle - 1)), "nothing new presented while paused")
    pauser = None
    rx.on_new = new_transfer
    await FallingEdge(clk)
    if cfg.get("pause"):
        pauser = Pauser(cx, clk, src, cfg["pause"], cfg.get("how"))
    cx.check(src.idle() and src.empty(), "idle exactly when everything was accepted")
    f = cocotb.start_soon(feed())
    clears = cfg.get("clear", 0)
    dropped = []

    def total():
        return sum(lens[k] for k in sent)
    while not f.done() or len(rx.beats) < total():
        await FallingEdge(clk)
        if clears and sent:
            clears -= 1
            if cx.flag("clear"):
                q = queued()
                src.clear()
                for k in q:
                    dropped.append((k, cx.cycle))
                    sent.remove(k)
                cx.check(src.empty(), "clear empties the queue")
        occupancy()
        cx.check(src.idle() == (len(rx.beats) == total()), "idle exactly when everything was accepted")
        for c, k in waited:
            need = sum(lens[x] for x in sent if x <= k)
            cx.check(sum(1 for b in rx.beats if b["cycle"] <= c) >= need, "wait returns when everything was accepted")
    await clocks(clk, 3)
    cx.check(len(rx.beats) == total(), "each frame once")
    cx.check(len(waited) == len(lens), "wait returns when everything was accepted")
    i = 0
    for k in sent:
        m = lens[k]
        check_beats(cx, rx.beats[i:i + m], frames[k], lanes, has)
        cx.check(rx.presented[i] > cycles[k], "nothing presented while nothing is queued")
        mine = [x for x in fired if x[0] == k]
        cx.check(len(mine) == 1, "completion fires exactly once")
        cx.check(mine[0][1] >= rx.presented[i + m - 1] - 1, "completion not before the last transfer is presented")
        for a, b in zip(mine[0][2].tdata, frames[k].data):
            cx.check(a == b, "completion names its frame")
        i += m
    for k, c in dropped:
        cx.check(len([x for x in fired if x[0] == k]) == 1, "completion fires exactly once")


FSNK_Q = [dict(n=4, pause=4), dict(n=6, frames=1, recv=3), dict(n=6, nbytes=3, recv=3), dict(n=4, nbytes=2, frames=2, recv=2, pause=2), dict(n=4, frames=1, clear=3), dict(n=4, recv=4, mode="read"), dict(n=4, recv=4, mode="wait", model="monitor")]
FSNK_Q += [dict(n=3, pause=3, how="generator"), dict(n=3, pause=2, how="change"), dict(n=3, pause=3, how="edge"), dict(n=3, frames=1, recv=2, pause=2, how="edge")]
FSNK_Q += [dict(n=4, recv=3, keep=True), dict(n=5, nbytes=3, recv=3, keep=True)]
FSNK_T = FSNK_Q + [dict(n=6, pause=5), dict(n=7, frames=1, recv=5), dict(n=7, nbytes=3, recv=5), dict(n=6, nbytes=4, frames=2, recv=3, pause=3), dict(n=6, recv=5, mode="read")]


@case("C16", "sink", quick=FSNK_Q, thorough=FSNK_T)
async def flow_sink(cx, cfg):
    lanes, has = 2, ("tvalid", "tready", "tlast", "tkeep") if cfg.get("mode") == "read" or cfg.get("keep") else ("tvalid", "tready", "tlast")
    mon = cfg.get("model") == "monitor"
    limits = "frames" in cfg or "nbytes" in cfg
    clk = cx.clock()
    s = bus(cx, lanes, has)
    st = Stim(cx, clk, s, cfg["n"], lanes, mon, keep=cfg.get("keep", False), tail=4)
    snk = (AxiStreamMonitor if mon else AxiStreamSink)(AxiStreamBus.from_prefix(cx.top, "s"), clk)
    fl, bl = cfg.get("frames", 0), cfg.get("nbytes", 0)
    if fl:
        snk.queue_occupancy_limit_frames = fl
    if bl:
        snk.queue_occupancy_limit_bytes = bl
    taken = 0
    pend = []           # bytes read from the queue but not delivered yet
    mids = []
    waited = []

    def size(fr):
        return lanes * len(fr)

    def full():
        q = st.frames[taken:]
        return bool((fl and len(q) > fl) or (bl and sum(size(x) for x in q) > bl))

    async def waiter():
        await snk.wait()
        waited.append((cx.cycle, snk.count()))
    cocotb.start_soon(waiter())
    pauser = None
    if "how" in cfg:
        await FallingEdge(clk)
        pauser = Pauser(cx, clk, snk, cfg["pause"], cfg["how"])
    raw = cx.flag("raw") if cfg.get("recv") and not cfg.get("mode") else False
    k = 0
    while not st.done:
        await FallingEdge(clk)
        q = st.frames[taken:]
        cx.check(snk.count() == len(q) and snk.empty() == (not q), "occupancy")
        cx.check(snk.queue_occupancy_frames == len(q) and snk.queue_occupancy_bytes == sum(size(x) for x in q), "occupancy")
        if not mon:
            cx.check(snk.full() == full(), "full exactly above a limit")
        if st.cur:
            cx.check(not snk.idle(), "not idle inside a frame")
        else:
            cx.check(snk.idle(), "idle when nothing is in progress")
        f0 = full()
        if not mon and pauser is None:
            snk.pause = cx.flag("pause") if k < cfg.get("pause", 0) else False
        if cfg.get("clear") and snk.count() and cx.flag("clear"):
            snk.clear()
            taken = len(st.frames)
            cx.check(snk.empty() and snk.queue_occupancy_bytes == 0 and snk.queue_occupancy_frames == 0, "occupancy")
        if k < cfg.get("recv", 0) and q:
            if cfg.get("mode") == "read":
                c = cx.choice("read", (0, 1, 3, -1))
                if c or k % 2:
                    got = snk.read_nowait(0) if not c else snk.read_nowait(c) if cx.flag("nowait") else await snk.read(c)
                    for d, _ in unpack(cx, q, lanes, has, 8):
                        pend = pend + d
                    taken = len(st.frames)
                    exp = pend if c < 0 else pend[:c]
                    pend = [] if c < 0 else pend[c:]
                    cx.check(len(got) == len(exp), "read returns the pending data in order")
                    for a, b in zip(got, exp):
                        cx.check(a == b, "read returns the pending data in order")
            elif cx.flag("recv"):
                got = snk.recv_nowait(compact=not raw) if k % 2 else await snk.recv(compact=not raw)
                exp = unpack(cx, q[:1], lanes, () if raw else has, 8)[0][0]
                cx.check(len(got.tdata) == len(exp), "receive returns the frames in order")
                for a, b in zip(got.tdata, exp):
                    cx.check(a == b, "receive returns the frames in order")
                taken += 1
        mids.append((not mon and snk.pause, f0, full()))
        if not mon and len(mids) >= 5:
            z, a, b = mids[-4], mids[-3], mids[-2]
            if (z[0] and a[0]) or (a[2] and b[1]):
                cx.check(st.ready[-1] == 0, "ready is low while paused or full")
            if not (z[0] or a[0]) and not (a[2] or b[1]):
                cx.check(st.ready[-1] == 1, "ready is high when not paused and not full")
        k += 1
    await clocks(clk, 3)
    if not st.cur:
        cx.check(snk.idle(), "idle when nothing is in progress")
    if st.frames:
        cx.check(len(waited) == 1 and waited[0][1] > 0, "wait returns when a frame was received")
    else:
        cx.check(not waited, "wait returns when a frame was received")


SND_Q = [dict(lens=(2, 1, 1, 2), frames=1, ready=2), dict(lens=(2, 1, 3), nbytes=1, ready=2), dict(lens=(1, 1, 1, 1, 1), frames=2, ready=1)]
SND_T = SND_Q + [dict(lens=(2, 1, 1, 2, 1), frames=1, ready=4, gaps=(0, 1)), dict(lens=(2, 3, 1, 3), nbytes=3, ready=3, gaps=(0, 2))]


@case("C16", "senders", quick=SND_Q, thorough=SND_T, max_cycles=150)
async def senders(cx, cfg):
    """several tasks wait for room in one source"""
    lanes, has = 1, EVERY
    lens = cfg["lens"]
    clk = cx.clock()
    s = bus(cx, lanes, has)
    src = AxiStreamSource(AxiStreamBus.from_prefix(cx.top, "s"), clk)
    fl, bl = cfg.get("frames", 0), cfg.get("nbytes", 0)
    src.queue_occupancy_limit_frames = fl or -1
    src.queue_occupancy_limit_bytes = bl or -1
    rx = Recv(cx, clk, s, cfg["ready"])
    frames = [Frame(cx, n, lanes, k, "none") for k, n in enumerate(lens)]
    order = []
    gaps = [cx.choice("gap", cfg.get("gaps", (0,))) for n in lens]

    async def sender(k):
        for g in range(gaps[k]):
            await FallingEdge(clk)
        await (src.send if k % 2 else src.write)(frames[k].make("bytes"))
        order.append(k)
        q = order[len(order) - src.count():]
        cx.check(q and q[-1] == k, "each frame queued once")
        q = q[:-1]
        over = (fl and len(q) > fl) or (bl and sum(lens[x] for x in q) > bl)
        cx.check(not over, "limits block the senders until there is room")
    await FallingEdge(clk)
    for k in range(len(lens)):
        cocotb.start_soon(sender(k))
    while len(rx.beats) < sum(lens):
        await FallingEdge(clk)
    await clocks(clk, 3)
    cx.check(len(order) == len(lens), "send returns when there is room")
    cx.check(len(rx.beats) == sum(lens), "each frame once")
    i = 0
    for k in order:
        check_beats(cx, rx.beats[i:i + lens[k]], frames[k], lanes, has)
        i += lens[k]
    cx.check(src.idle() and src.queue_occupancy_bytes == 0 and src.queue_occupancy_frames == 0, "occupancy")


@case("C16", "timeout", quick=TMO_Q, thorough=TMO_T)
async def timeout(cx, cfg):
    clk = cx.clock()
    mon = cx.flag("monitor")
    s = bus(cx, 1, ("tvalid", "tready", "tlast"))
    for x in s.values():
        x.set(0)
    s["tlast"].set(1)
    dev = (AxiStreamMonitor if mon else AxiStreamSink)(AxiStreamBus.from_prefix(cx.top, "s"), clk)
    await clocks(clk, 2)

    def arrive(v):
        s["tvalid"].value = v
        if mon:
            s["tready"].value = v
    await timed_waits(cx, cfg, clk, dev, arrive, 1, (None, 0.1))


CON_Q = [dict(lens=(1, 2, 1), frames=1, delays=("none", "edge"), gaps=1), dict(lens=(2, 1, 1), nbytes=1, delays=("none", "half"), gaps=1), dict(lens=(1, 1, 2), delays=("none", "edge"), gaps=1, pause=2, how="edge"),
         dict(lens=(2, 1), delays=("none", "edge"), gaps=1, mode="read")]
CON_T = CON_Q + [dict(lens=(1, 2, 1, 1), frames=1, delays=("none", "edge", "half"), gaps=2), dict(lens=(2, 1, 1, 1), nbytes=2, frames=1, delays=("none", "edge", "half"), gaps=2), dict(lens=(1, 2, 2), frames=1, delays=("none", "edge"), gaps=1, pause=3, how="generator")]


@case(["C14", "C16"], "consumer", quick=CON_Q, thorough=CON_T, max_cycles=120)
async def consumer(cx, cfg):
    """a task which waits for frames acts at the clock edges; a source which holds valid"""
    lens = cfg["lens"]
    clk = cx.clock()
    s = bus(cx, 1, ("tvalid", "tready", "tlast", "tuser"))
    s["tvalid"].set(0)
    snk = AxiStreamSink(AxiStreamBus.from_prefix(cx.top, "s"), clk)
    fl, bl = cfg.get("frames", 0), cfg.get("nbytes", 0)
    if fl:
        snk.queue_occupancy_limit_frames = fl
    if bl:
        snk.queue_occupancy_limit_bytes = bl
    datas = [[cx.bits(f"data{k}", 8) for i in range(n)] for k, n in enumerate(lens)]
    users = [[cx.bits(f"user{k}", 3) for i in range(n)] for k, n in enumerate(lens)]
    got, acc = [], []
    total = sum(lens)

    async def drive():
        left = cfg["gaps"]
        for k, n in enumerate(lens):
            for i in range(n):
                while left and cx.flag("gap"):
                    left -= 1
                    s["tvalid"].value = 0
                    await RisingEdge(clk)
                s["tdata"].value, s["tuser"].value, s["tlast"].value = datas[k][i], users[k][i], int(i == n - 1)
                s["tvalid"].value = 1
                while True:
                    await RisingEdge(clk)
                    if cx.val(s["tready"].value) == 1:
                        break
                acc.append((k, i))
        s["tvalid"].value = 0

    async def consume():
        m = 0
        while m < (total if cfg.get("mode") == "read" else len(lens)):
            if cfg.get("mode") != "read" and cx.flag("wait first"):
                await snk.wait()
                cx.check(not snk.empty(), "wait returns when a frame was received")
            if cfg.get("mode") == "read":
                d = await snk.read(cx.choice("read", (1, 2, -1)))
                cx.check(len(d) > 0, "read returns the pending data in order")
                for x in d:
                    cx.check(m < total and x == datas[[k for k, n in enumerate(lens) for i in range(n)][m]][[i for n in lens for i in range(n)][m]], "read returns the pending data in order")
                    m += 1
            else:
                got.append(await snk.recv(compact=False))
                m += 1
            d = cx.choice("delay", cfg["delays"])
            if d == "edge":
                await RisingEdge(clk)
            elif d == "half":
                await FallingEdge(clk)

    await FallingEdge(clk)
    if cfg.get("pause"):
        Pauser(cx, clk, snk, cfg["pause"], cfg["how"])
    cocotb.start_soon(drive())
    await cocotb.start_soon(consume())
    await clocks(clk, 2)
    cx.check(len(acc) == total, "each frame once")
    cx.check(snk.empty() and snk.idle() and snk.queue_occupancy_bytes == 0, "occupancy")
    for k, fr in enumerate(got):
        cx.check(len(fr.tdata) == lens[k] and len(fr.tuser) == lens[k], "receive returns the frames in order")
        for i in range(lens[k]):
            cx.check(cx.and_(fr.tdata[i] == datas[k][i], fr.tuser[i] == users[k][i]), "receive returns the frames in order")
