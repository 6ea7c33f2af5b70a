"""Hex dumps."""
import mmap
from cocotbext.axi import MemoryRegion, SparseMemoryRegion
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.utils import hexdump_line, hexdump, hexdump_lines, hexdump_str
from symx.api import case

def check_line(cx, line, addr, data, row, prefix):
    """addr: concrete; data: values of the bytes shown in this row"""
    label = prefix + f"{addr:08x}" + ": "
    cx.check(len(line) == len(label) + 3 * row + 1 + len(data), "length of a row")
    cx.check(line[:len(label)] == label, "label of the row")
    rest = line[len(label):]
    for k in range(row):
        if k < len(data):
            hi, lo = data[k] >> 4, data[k] & 15
            for want, ch in ((hi, rest[3 * k]), (lo, rest[3 * k + 1])):
                cx.check(ord(ch) == cx.ite(want < 10, 48 + want, 87 + want), "value of the byte")
            cx.check(rest[3 * k + 2] == " ", "columns")
        else:
            cx.check(rest[3 * k:3 * k + 3] == "   ", "no other bytes")
    cx.check(rest[3 * row] == " ", "columns")
    for k, x in enumerate(data):
        code = ord(rest[3 * row + 1 + k])
        printable = cx.and_(x > 32, x < 127)
        cx.check(cx.implies(printable, code == x), "printable character")
        # a space may be shown as itself
        cx.check(cx.implies(cx.not_(printable), cx.or_(code == 46, cx.and_(x == 32, code == 32))), "other characters as dots")


def check_dump(cx, lines, addr, data, row, prefix):
    n = len(data)
    cx.check(len(lines) == (n + row - 1) // row, "number of rows")
    for r in range(len(lines)):
        check_line(cx, lines[r], addr + r * row, data[r * row:(r + 1) * row], row, prefix)


def split(s):
    return s.split("\n") if len(s) else []


KINDS = ("function", "memory", "memory mmap", "memory bytearray", "sparse", "region", "sparse region")
START = (0, 3, 16, 40)


def setup(cx, kind, data, at):
    """object with the data at address at"""
    n = len(data)
    if kind == "memory":
        m = Memory(2 ** 64 if at > 128 else 256)
    elif kind == "memory mmap":
        m = Memory(mem=mmap.mmap(-1, 256))
    elif kind == "memory bytearray":
        m = Memory(mem=bytearray(256))
    elif kind == "sparse":
        m = SparseMemory(2 ** 64)
    elif kind == "region":
        m = MemoryRegion(256)
    else:
        m = SparseMemoryRegion(2 ** 64)
    raw = m if kind.startswith("sparse") or kind == "region" else m.mem
    for k in range(n):
        raw[at + k] = data[k]
    return m


def out(cx, form, name, fn):
    """lines produced by one of the three variants"""
    if form == "print":
        s = cx.capture_print(fn(name))
        if len(s):
            cx.check(s[len(s) - 1] == "\n", "printed lines end")
            s = s[:len(s) - 1]
        return split(s)
    if form == "lines":
        return list(fn(name + "_lines")())
    return split(fn(name + "_str")())


SYM = [dict(kind=k) for k in KINDS]


@case("C23", "memories", quick=[dict(c, n=20, sym=3) for c in SYM], thorough=[dict(c, n=70, sym=3) for c in SYM], must=("value of the byte", "label of the row", "number of rows"))
async def memories(cx, cfg):
    """dumps of memories, regions and byte strings"""
    kind = cfg["kind"]
    form = cx.choice("form", ("lines", "str", "print"))
    n = cx.choice("length", sorted({0, 1, 2, 16, 17, cfg["n"]}))
    at = cx.choice("address", START if kind not in ("memory", "sparse", "sparse region") else START + (2 ** 40 + 5, 4093))
    pre = cx.choice("prefix", ("", "RAM "))
    total = 80
    old = [(k * 37 + 11) & 0xff for k in range(total)]
    # some bytes are symbolic: the first, the last and one at a row boundary
    for x in cx.choice("symbolic bytes", ([n - 1, 15, 0], [16, n // 2, 1]))[:cfg["sym"]]:
        if 0 <= x < n:
            old[x] = cx.bits("byte", 8)
    data = old[:n]
    if kind == "function":
        buf = bytes(40) + bytes(old)
        row = cx.choice("row size", (16, 8, 1, 5))
        off = cx.choice("offset", (0, 0x1000))
        start = 40

        def fn(name):
            f = dict(hexdump=hexdump, hexdump_lines=hexdump_lines, hexdump_str=hexdump_str)[name]
            return lambda: f(buf, start, n, row, pre, off)
        lines = out(cx, form, "hexdump", fn)
        check_dump(cx, lines, off + start, data, row, pre)
        return
    m = setup(cx, kind, old, at)
    kw = {} if pre == "" and n == 1 else {"prefix": pre}
    lines = out(cx, form, "hexdump", lambda name: (lambda: getattr(m, name)(at, n, **kw)))
    check_dump(cx, lines, at, data, 16, pre)


@case("C23", "line", quick=[dict(row=r) for r in (16, 4)], thorough=[dict(row=r) for r in (1, 2, 4, 8, 16, 32)], must=("value of the byte", "printable character"))
async def line(cx, cfg):
    """one row of symbolic bytes"""
    row = cfg["row"]
    n = cx.choice("bytes", sorted({0, 1, row - 1, row, row + 2}))
    at = cx.choice("offset", (0, 5, 0xfffffff0, 2 ** 40))
    first = cx.choice("first symbolic byte", range(0, max(n, 1), 4))
    data = [cx.bits("byte", 8) if first <= k < first + 4 else (k * 53 + 29) & 0xff for k in range(n)]
    s = hexdump_line(bytes(data), at, row) if row != 16 else hexdump_line(bytes(data), at)
    check_line(cx, s, at, data[:row], row, "")


@case("C23", "defaults", quick=[dict()], thorough=None, must=("number of rows",))
async def defaults(cx, cfg):
    """the functions without start and length show everything"""
    n = cx.choice("bytes", (1, 16, 18))
    data = [cx.bits("byte", 8) if k in (0, n - 1) else k for k in range(n)]
    which = cx.choice("arguments", ("none", "start", "too long", "offset"))
    form = cx.choice("form", ("lines", "str", "print"))
    buf = bytes(data)
    start, kw = 0, {}
    if which == "start":
        start = n // 2
        kw = {"start": start}
    elif which == "too long":
        kw = {"length": n + 5}
    elif which == "offset":
        kw = {"offset": 0x20, "prefix": "x:"}
    d = dict(hexdump=hexdump, hexdump_lines=hexdump_lines, hexdump_str=hexdump_str)
    lines = out(cx, form, "hexdump", lambda name: (lambda: d[name](buf, **kw)))
    check_dump(cx, lines, start + kw.get("offset", 0), data[start:], 16, kw.get("prefix", ""))
