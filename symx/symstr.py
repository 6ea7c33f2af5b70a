"""Strings with symbolic characters (enough for the hex dump code)."""
from . import engine as E
from .engine import SymInt, and_, ite, not_


class SymStr:
    """sequence of code points (int or SymInt)"""
    __slots__ = ("ch",)

    def __init__(self, ch):
        self.ch = ch

    def __len__(self):
        return len(self.ch)

    def __add__(self, o):
        return SymStr(self.ch + chars(o))

    def __radd__(self, o):
        return SymStr(chars(o) + self.ch)

    def __mul__(self, n):
        return SymStr(self.ch * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        o = chars(o)
        if len(o) != len(self.ch):
            return False
        return and_(*[a == b for a, b in zip(self.ch, o)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    __hash__ = None

    def __iter__(self):
        for c in self.ch:
            yield SymStr([c])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr(self.ch[k])
        return SymStr([self.ch[k]])

    def __format__(self, spec):
        return fmt(self, spec)

    def __str__(self):
        return "".join(chr(c) if not isinstance(c, SymInt) else "?" for c in self.ch)

    __repr__ = __str__

    def join(self, parts):
        return join(self, parts)

    def ljust(self, w, f=" "):
        return SymStr(self.ch + chars(f) * (w - len(self.ch)))

    def rjust(self, w, f=" "):
        return SymStr(chars(f) * (w - len(self.ch)) + self.ch)

    def rstrip(self, c=None):
        ch = list(self.ch)
        strip = [32, 9, 10, 13] if c is None else chars(c)
        while ch and any(bool(ch[-1] == s) for s in strip):
            ch.pop()
        return SymStr(ch)

    def upper(self):
        return SymStr([ite(and_(c >= 97, c <= 122), c - 32, c) for c in self.ch])

    def lower(self):
        return SymStr([ite(and_(c >= 65, c <= 90), c + 32, c) for c in self.ch])

    def split(self, sep=None):
        out, cur = [], []
        seps = [10] if sep == "\n" else [32] if sep in (None, " ") else chars(sep)
        if len(seps) != 1:
            E.steer(E.Incomplete("split"))
        for c in self.ch:
            if c == seps[0]:
                out.append(SymStr(cur))
                cur = []
            else:
                cur.append(c)
        out.append(SymStr(cur))
        return out


def chars(s):
    if isinstance(s, SymStr):
        return s.ch
    return [ord(c) for c in s]


def cat(parts):
    if not any(isinstance(p, SymStr) for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        out.extend(chars(p))
    return SymStr(out)


def join(sep, parts):
    parts = list(parts)
    out = []
    for i, p in enumerate(parts):
        if not isinstance(p, (str, SymStr)):
            raise TypeError(f"sequence item {i}: expected str instance, {type(p).__name__} found")
        if i:
            out.append(sep)
        out.append(p)
    return cat(out)


def digit(d, upper=False):
    return ite(d < 10, d + 48, d + (55 if upper else 87))


def hexchars(x, width, upper=False):
    """fixed number of hex digits of a non-negative x < 16**width"""
    return [digit((x >> (4 * (width - 1 - i))) & 0xf, upper) for i in range(width)]


def hexbytes(lst, *a):
    if not any(isinstance(v, SymInt) for v in lst):
        return bytes(lst).hex(*a)
    if len(a) > 1:
        return bytes(int(v) for v in lst).hex(*a)
    sep = chars(a[0]) if a else []
    out = []
    for i, v in enumerate(lst):
        if i:
            out.extend(sep)
        out.extend(hexchars(v, 2))
    return SymStr(out)


def fmt(x, spec):
    """format(x, spec)"""
    if isinstance(x, SymInt) and not isinstance(spec, SymStr):
        s = str(spec)
        typ = s[-1:] if s[-1:] in "xXdbo" and s[-1:] else ""
        if typ in ("x", "X"):
            body = s[:-1]
            alt = body.startswith("#")
            if alt:
                body = body[1:]
            zero = body.startswith("0")
            if body == "" or body.isdigit():
                width = int(body) if body else 0
                pre = [48, ord(typ)] if alt else []
                if x.lo < 0:
                    if x < 0:
                        return "<sym>"
                # number of digits: fork over the digit count
                n = 1
                hi = x.hi
                need = max(1, (hi.bit_length() + 3) // 4)
                dw = max(width - len(pre), 0)
                if need <= dw and zero:
                    return SymStr(pre + hexchars(x, dw, typ == "X"))
                while n < need and x >= (1 << (4 * n)):
                    n += 1
                ch = hexchars(x, n, typ == "X")
                padn = max(dw - n, 0)
                if zero:
                    return SymStr(pre + [48] * padn + ch)
                return SymStr([32] * padn + pre + ch)
        return "<sym>"
    if isinstance(x, SymStr):
        s = str(spec)
        if s == "" or s == "s":
            return x
        if s.endswith("s"):
            s = s[:-1]
        fill, align = " ", "<"
        if len(s) >= 2 and s[1] in "<>^":
            fill, align, s = s[0], s[1], s[2:]
        elif s[:1] in ("<", ">", "^"):
            align, s = s[0], s[1:]
        w = int(s) if s else 0
        n = max(w - len(x.ch), 0)
        f = [ord(fill)]
        if align == "<":
            return SymStr(x.ch + f * n)
        if align == ">":
            return SymStr(f * n + x.ch)
        return SymStr(f * (n // 2) + x.ch + f * (n - n // 2))
    return format(x, str(spec))


def fstr(*parts):
    """f-string: parts are str or (value, conversion, spec)"""
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == "r":
                v = repr(v)
            elif conv == "s":
                v = v if isinstance(v, (SymInt, SymStr)) else str(v)
            elif conv == "a":
                v = ascii(v)
            out.append(fmt(v, spec) if isinstance(v, (SymInt, SymStr)) else format(v, str(spec)))
        else:
            out.append(p)
    return cat(out)


def has_sym(x):
    if isinstance(x, (SymInt, SymStr)):
        return True
    if isinstance(x, tuple):
        return any(has_sym(v) for v in x)
    return False


def percent(f, args):
    """str % args (only simple formats with symbolic arguments)"""
    if not has_sym(args) and not isinstance(f, SymStr):
        return f % args
    import re
    if not isinstance(args, tuple):
        args = (args,)
    out, i, k = [], 0, 0
    for m in re.finditer(r"%(#?0?\d*)([a-zA-Z%])", f):
        out.append(f[i:m.start()])
        i = m.end()
        if m.group(2) == "%":
            out.append("%")
            continue
        v = args[k]
        k += 1
        t = m.group(2)
        if isinstance(v, (SymInt, SymStr)):
            out.append(fmt(v, m.group(1) + (t if t in "xX" else "")))
        else:
            out.append(("%" + m.group(1) + t) % (v,))
    out.append(f[i:])
    return cat(out)
