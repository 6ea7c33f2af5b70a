"""Stand-ins for builtins, usable on symbolic integers.

They are visible only to the transformed modules (the code under test and the
harnesses) through a private ``__builtins__`` dictionary.  On fully concrete
arguments every stand-in behaves like the builtin.
"""
import builtins
import collections
import enum
import operator
import sys
import types
import z3
from . import engine as E
from .engine import SymInt, SymBool, truth, not_, and_, or_, ite, steer, Incomplete

_int, _bool, _bytes, _bytearray, _range, _len, _type = int, bool, bytes, bytearray, range, len, type
_min, _max, _dict, _isinstance, _print, _abs = min, max, dict, isinstance, print, abs
MAXSIZE = sys.maxsize


# ------------------------------------------------------------------ int/bool

class IntMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (_int, SymInt))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, (_int, SymInt))

    def __call__(cls, *args, **kw):
        if not args and not kw:
            return 0
        if len(args) == 1 and not kw:
            x = args[0]
            if _isinstance(x, SymInt):
                return x.as_int()
            f = getattr(x, "_sx_int", None)
            if f is not None:
                x = f()
                return x.as_int() if _isinstance(x, SymInt) else _int(x)
            if _isinstance(x, SymBytes):
                return _int(_bytes(x))
        return _int(*args, **kw)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)

    def __or__(cls, o):
        return _int | o

    def __ror__(cls, o):
        return o | _int


def _elems(x):
    """list of the byte values of a bytes-like/iterable"""
    if _isinstance(x, SymBytes):
        return x.tolist()
    if _isinstance(x, (_bytes, _bytearray, memoryview)):
        return list(_bytes(x))
    return [check_byte(v) for v in x]


def check_byte(v, bytearr=False):
    if _isinstance(v, SymInt):
        if v.lo < 0 or v.hi > 255:
            if not and_(v >= 0, v <= 255):
                raise ValueError("byte must be in range(0, 256)" if bytearr else "bytes must be in range(0, 256)")
            if v.lo < 0 or v.hi > 255:
                return E.refit(E.fit(v, 8), 0, 255)
        return v.as_int()
    if not _isinstance(v, _int):
        v = operator.index(v)
    if not 0 <= v <= 255:
        raise ValueError("byte must be in range(0, 256)" if bytearr else "bytes must be in range(0, 256)")
    return _int(v)


def from_bytes(data, byteorder="big", *, signed=False):
    b = _elems(data)
    if byteorder not in ("big", "little"):
        raise ValueError("byteorder must be either 'little' or 'big'")
    if all(not _isinstance(v, SymInt) for v in b):
        return _int.from_bytes(_bytes(b), byteorder, signed=signed)
    if byteorder == "little":
        b = b[::-1]
    parts = [E.fit(v, 8) for v in b]
    e = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    n = 8 * len(b)
    if signed:
        return SymInt(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return SymInt(e, 0, (1 << n) - 1)


class sx_int(metaclass=IntMeta):
    """stands in for int"""
    from_bytes = staticmethod(from_bytes)

    @staticmethod
    def to_bytes(x, *a, **k):
        return x.to_bytes(*a, **k)

    @staticmethod
    def bit_length(x):
        return x.bit_length()

    def __class_getitem__(cls, i):
        return _int


sx_int.__name__ = sx_int.__qualname__ = "int"


class BoolMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (_bool, SymBool))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, (_bool, SymBool))

    def __call__(cls, *args):
        return truth(args[0]) if args else False

    def __eq__(cls, o):
        return o is cls or o is _bool

    def __hash__(cls):
        return hash(_bool)

    def __or__(cls, o):
        return _bool | o

    def __ror__(cls, o):
        return o | _bool


class sx_bool(metaclass=BoolMeta):
    pass


sx_bool.__name__ = sx_bool.__qualname__ = "bool"


# --------------------------------------------------------------------- bytes

MEM_THRESHOLD = 256


class Store:
    """backing store of a big buffer: fill + concrete content + write log

    base maps concrete index -> value; log holds (index, value) newest last,
    where index may be symbolic.  Reads at symbolic indices build ITE chains.
    """
    __slots__ = ("n", "fill", "base", "log")

    def __init__(self, n, fill=0, base=None, log=None):
        self.n = n
        self.fill = fill
        self.base = base if base is not None else {}
        self.log = log if log is not None else []

    def copy(self):
        return Store(self.n, self.fill, dict(self.base), list(self.log))

    def read(self, i):
        if not _isinstance(i, SymInt):
            v = self.base.get(i, self.fill)
        else:
            v = self.fill
            for k, x in self.base.items():
                v = ite(i == k, x, v)
        for k, x in self.log:
            c = (i == k)
            if c is True:
                v = x
            elif c is not False:
                v = ite(c, x, v)
        return v

    def write(self, i, v):
        if not _isinstance(i, SymInt) and not self.log:
            self.base[i] = v
        else:
            self.log.append((i, v))


class BytesMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, _bytes) or (_isinstance(o, SymBytes) and not _isinstance(o, SymBytearray))

    def __subclasscheck__(cls, c):
        return c is cls or (_isinstance(c, type) and (issubclass(c, _bytes) or
                            (SymBytes in c.__mro__ and SymBytearray not in c.__mro__)))

    def __call__(cls, *args, **kw):
        return make_bytes(SymBytes, _bytes, args, kw)

    def __eq__(cls, o):
        return o is cls or o is _bytes or o is SymBytes

    def __hash__(cls):
        return hash(_bytes)

    def __or__(cls, o):
        return _bytes | o

    def __ror__(cls, o):
        return o | _bytes


class BytearrayMeta(BytesMeta):
    def __instancecheck__(cls, o):
        return _isinstance(o, (_bytearray, SymBytearray))

    def __subclasscheck__(cls, c):
        return c is cls or (_isinstance(c, type) and (issubclass(c, _bytearray) or SymBytearray in c.__mro__))

    def __call__(cls, *args, **kw):
        return make_bytes(SymBytearray, _bytearray, args, kw)

    def __eq__(cls, o):
        return o is cls or o is _bytearray or o is SymBytearray

    def __hash__(cls):
        return hash(_bytearray)

    def __or__(cls, o):
        return _bytearray | o

    def __ror__(cls, o):
        return o | _bytearray


def make_bytes(cls, native, args, kw):
    if not args:
        return cls([])
    x = args[0]
    if _isinstance(x, str) or kw or len(args) > 1:
        return cls(list(native(*args, **kw)))
    if _isinstance(x, SymInt):
        x = x.__index__()
    if _isinstance(x, _int):
        if x < 0:
            raise ValueError("negative count")
        if x >= MEM_THRESHOLD:
            return cls(Store(x))
        return cls([0] * x)
    if _isinstance(x, SymBytes):
        return cls(x.copy_data())
    f = getattr(_type(x), "__bytes__", None)
    if f is not None and not _isinstance(x, (_bytes, _bytearray)):
        r = f(x)
        if not _isinstance(r, (_bytes, SymBytes)):
            raise TypeError(f"__bytes__ returned non-bytes (type {_type(r).__name__})")
        if _isinstance(r, SymBytearray):
            raise TypeError("__bytes__ returned non-bytes (type bytearray)")
        return cls(r.copy_data() if _isinstance(r, SymBytes) else list(r))
    if x is None or _isinstance(x, float):
        raise TypeError(f"cannot convert '{_type(x).__name__}' object to bytes")
    return cls(_elems(x))


def idx(i):
    return i.__index__() if _isinstance(i, SymInt) else operator.index(i)


def slice_indices(key, n):
    """slice.indices for symbolic values; the step is concretised"""
    if not any(_isinstance(v, SymInt) for v in (key.start, key.stop, key.step, n)):
        return key.indices(n)
    step = 1 if key.step is None else idx(key.step)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    lower, upper = (0, n) if step > 0 else (-1, n - 1)

    def clip(v, default):
        if v is None:
            return default
        if not _isinstance(v, SymInt):
            v = operator.index(v)
        neg = truth(v < 0)
        if neg is not False:
            v = ite(neg, v + n, v)
        if not _isinstance(v, SymInt) or v.lo < lower:
            v = sx_max(v, lower)
        return sx_min(v, upper)

    return clip(key.start, lower if step > 0 else upper), clip(key.stop, upper if step > 0 else lower), step


def slice_parts(key, n):
    """(start, length) of a step-1 slice; start may be symbolic, length is concrete"""
    if key.step is not None and not (not _isinstance(key.step, SymInt) and key.step == 1):
        return None

    def norm(v, default):
        if v is None:
            return default
        if not _isinstance(v, SymInt):
            v = operator.index(v)
            if v < 0:
                v = _max(v + n, 0)
            return _min(v, n)
        if v.lo < 0:
            v = sx_max(ite(v < 0, v + n, v), 0)
        if _isinstance(v, SymInt) and v.hi > n or not _isinstance(v, SymInt) and v > n:
            v = sx_min(v, n)
        return v

    start = norm(key.start, 0)
    stop = norm(key.stop, n)
    length = stop - start
    if _isinstance(length, SymInt):
        length = sx_max(length, 0)
    if _isinstance(length, SymInt):
        length = length.__index__()
    return start, _max(length, 0)


class SymBytes:
    __slots__ = ("d",)
    mutable = False

    def __init__(self, d):
        self.d = d      # list of byte values, or Store

    # -- access
    def copy_data(self):
        return self.d.copy()

    def tolist(self):
        if _isinstance(self.d, Store):
            return [self.d.read(i) for i in _range(self.d.n)]
        return list(self.d)

    def __len__(self):
        return self.d.n if _isinstance(self.d, Store) else len(self.d)

    def __iter__(self):
        if _isinstance(self.d, Store):
            for i in _range(self.d.n):
                yield self.d.read(i)
            return
        i = 0
        while i < len(self.d):
            yield self.d[i]
            i += 1

    def __reversed__(self):
        return iter(self.tolist()[::-1])

    def _norm_index(self, i):
        n = len(self)
        if _isinstance(i, SymInt):
            ok = and_(i >= -n, i < n)
            if not ok:
                raise IndexError("index out of range")
            if i.lo < 0:
                i = ite(i < 0, i + n, i)
            return i
        i = operator.index(i)
        if i < -n or i >= n:
            raise IndexError("index out of range")
        return i + n if i < 0 else i

    def __getitem__(self, k):
        if _isinstance(k, slice):
            n = len(self)
            p = slice_parts(k, n)
            if p is None:
                lst = self.tolist()[slice(*(None if v is None else idx(v) for v in (k.start, k.stop, k.step)))]
                return self._new(lst)
            start, length = p
            if _isinstance(self.d, Store):
                return self._new([self.d.read(start + j) for j in _range(length)])
            if _isinstance(start, SymInt):
                if length == 0:
                    return self._new([])
                return self._new([self._sel(start + j) for j in _range(length)])
            return self._new(self.d[start:start + length])
        i = self._norm_index(k)
        if _isinstance(self.d, Store):
            return self.d.read(i)
        if _isinstance(i, SymInt):
            return self._sel(i)
        return self.d[i]

    def _sel(self, i):
        if not _isinstance(i, SymInt):
            return self.d[i]
        v = 0
        for j, x in enumerate(self.d):
            if i.lo <= j <= i.hi:
                v = ite(i == j, x, v)
        return v

    def _new(self, lst):
        return _type(self)(lst)

    # -- operators
    def __add__(self, o):
        if not _isinstance(o, (SymBytes, _bytes, _bytearray, memoryview)):
            raise TypeError(f"can't concat {_type(o).__name__} to {self._pyname}")
        return self._new(self.tolist() + _elems(o))

    def __radd__(self, o):
        if not _isinstance(o, (_bytes, _bytearray)):
            return NotImplemented
        return (SymBytes if _isinstance(o, _bytes) else SymBytearray)(_elems(o) + self.tolist())

    def __mul__(self, k):
        k = idx(k)
        if k * len(self) >= MEM_THRESHOLD and not _isinstance(self.d, Store) and len(set(map(id, self.d))) == 1:
            return self._new(Store(k * len(self), self.d[0]))
        return self._new(self.tolist() * _max(k, 0))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not _isinstance(o, (SymBytes, _bytes, _bytearray, memoryview)):
            return NotImplemented
        if len(self) != len(o):
            return False
        return and_(*[a == b for a, b in zip(self, o)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _cmp(self, o):
        for a, b in zip(self, o):
            if a != b:
                return -1 if a < b else 1
        return (len(self) > len(o)) - (len(self) < len(o))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __contains__(self, x):
        if _isinstance(x, (_int, SymInt)):
            return bool(or_(*[a == x for a in self]))
        x = _elems(x)
        n = len(x)
        lst = self.tolist()
        return any(bool(and_(*[a == b for a, b in zip(lst[i:i + n], x)])) for i in _range(len(lst) - n + 1))

    def __bool__(self):
        return len(self) > 0

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'bytearray'")
        return hash(_bytes(idx(v) for v in self.tolist()))

    def __bytes__(self):
        return _bytes(idx(v) for v in self.tolist())

    def __buffer__(self, flags):
        return memoryview(self.__bytes__())

    _pyname = "bytes"

    def __repr__(self):
        lst = self.tolist() if len(self) <= 64 else []
        if any(_isinstance(v, SymInt) for v in lst) or len(self) > 64:
            return f"<{self._pyname}[{len(self)}]>"
        return repr(_bytes(lst) if not self.mutable else _bytearray(lst))

    def __deepcopy__(self, memo):
        return self._new(self.copy_data())

    def __copy__(self):
        return self._new(self.copy_data())

    # -- methods
    def hex(self, *a):
        from .symstr import hexbytes
        return hexbytes(self.tolist(), *a)

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not first:
                out.extend(self.tolist())
            first = False
            out.extend(_elems(p))
        return self._new(out)

    def decode(self, *a, **k):
        return self.__bytes__().decode(*a, **k)

    def tobytes(self):
        return SymBytes(self.copy_data())

    def ljust(self, w, fill=b" "):
        lst = self.tolist()
        return self._new(lst + [_elems(fill)[0]] * (idx(w) - len(lst)))

    def rjust(self, w, fill=b" "):
        lst = self.tolist()
        return self._new([_elems(fill)[0]] * (idx(w) - len(lst)) + lst)

    def startswith(self, p):
        p = _elems(p)
        lst = self.tolist()
        return len(p) <= len(lst) and and_(*[a == b for a, b in zip(lst, p)])

    def endswith(self, p):
        p = _elems(p)
        lst = self.tolist()
        return len(p) <= len(lst) and and_(*[a == b for a, b in zip(lst[len(lst) - len(p):], p)])

    def count(self, x):
        x = _elems(x)[0] if not _isinstance(x, (_int, SymInt)) else x
        return sum(1 for v in self.tolist() if v == x)

    def index(self, x, *a):
        x = _elems(x)[0] if not _isinstance(x, (_int, SymInt)) else x
        return self.tolist().index(x, *a)

    def find(self, x, *a):
        try:
            return self.index(x, *a)
        except ValueError:
            return -1

    def copy(self):
        return self._new(self.copy_data())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(_bytes, name, None)
        if f is None:
            raise AttributeError(f"'{self._pyname}' object has no attribute '{name}'")
        return lambda *a, **k: getattr(self.__bytes__(), name)(*a, **k)


class SymBytearray(SymBytes):
    __slots__ = ()
    mutable = True
    _pyname = "bytearray"
    __hash__ = None

    def _mat(self):
        if _isinstance(self.d, Store):
            self.d = self.tolist()
        return self.d

    def append(self, v):
        self._mat().append(check_byte(v, True))

    def extend(self, x):
        x = _elems(x)
        self._mat().extend(x)

    def __iadd__(self, x):
        if not _isinstance(x, (SymBytes, _bytes, _bytearray, memoryview)):
            raise TypeError(f"can't concat {_type(x).__name__} to bytearray")
        self._mat().extend(_elems(x))
        return self

    def insert(self, i, v):
        self._mat().insert(idx(i), check_byte(v, True))

    def pop(self, i=-1):
        return self._mat().pop(idx(i))

    def clear(self):
        self.d = []

    def reverse(self):
        self._mat().reverse()

    def remove(self, v):
        self._mat().remove(v)

    def __delitem__(self, k):
        d = self._mat()
        if _isinstance(k, slice):
            k = slice(*(None if v is None else idx(v) for v in (k.start, k.stop, k.step)))
        else:
            k = idx(k)
        del d[k]

    def __setitem__(self, k, v):
        if _isinstance(k, slice):
            v = _elems(v) if not _isinstance(v, _int) else [0] * v
            p = slice_parts(k, len(self))
            if p is None:
                self._mat()[slice(*(None if x is None else idx(x) for x in (k.start, k.stop, k.step)))] = v
                return
            start, length = p
            if length != len(v):
                start = idx(start)
                self._mat()[start:start + length] = v
                return
            for j, x in enumerate(v):
                self._put(start + j, x)
            return
        i = self._norm_index(k)
        self._put(i, check_byte(v, True))

    def _put(self, i, v):
        if _isinstance(self.d, Store):
            self.d.write(i, v)
        elif _isinstance(i, SymInt):
            for j in _range(len(self.d)):
                if i.lo <= j <= i.hi:
                    self.d[j] = ite(i == j, v, self.d[j])
        else:
            self.d[i] = v


class sx_bytes(metaclass=BytesMeta):
    @staticmethod
    def fromhex(s):
        return SymBytes(list(_bytes.fromhex(s)))

    @staticmethod
    def join(sep, parts):
        return SymBytes(_elems(sep)).join(parts)


class sx_bytearray(metaclass=BytearrayMeta):
    @staticmethod
    def fromhex(s):
        return SymBytearray(list(_bytes.fromhex(s)))


sx_bytes.__name__ = sx_bytes.__qualname__ = "bytes"
sx_bytearray.__name__ = sx_bytearray.__qualname__ = "bytearray"


def bytes_const(b):
    return SymBytes(list(b))


def sx_memoryview(x):
    if _isinstance(x, SymBytes):
        return x
    return memoryview(x)


class FakeMmap(SymBytearray):
    """anonymous mmap of a fixed size"""
    __slots__ = ()
    _pyname = "mmap.mmap"

    def __init__(self, *args, **kw):
        if args and _isinstance(args[0], (Store, list)):
            self.d = args[0]
            return
        n = idx(args[1] if len(args) > 1 else kw["length"])
        if n <= 0:
            raise ValueError("cannot mmap an empty file") if n == 0 else OverflowError("memory mapped length must be positive")
        self.d = Store(n)

    def _new(self, lst):
        return SymBytes(lst)

    def __setitem__(self, k, v):
        if _isinstance(k, slice):
            if not _isinstance(v, (SymBytes, _bytes, _bytearray, memoryview)):
                raise TypeError(f"a bytes-like object is required, not '{_type(v).__name__}'")
            v = _elems(v)
            p = slice_parts(k, len(self))
            if p is None:
                steer(Incomplete("mmap slice step"))
            start, length = p
            if length != len(v):
                raise IndexError("mmap slice assignment is wrong size")
            for j, x in enumerate(v):
                self._put(start + j, x)
            return
        n = len(self)
        i = k
        if _isinstance(i, SymInt):
            if not and_(i >= -n, i < n):
                raise IndexError("mmap index out of range")
            i = ite(i < 0, i + n, i)
        else:
            i = operator.index(k)
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise IndexError("mmap index out of range")
        if _isinstance(v, SymInt):
            if not and_(v >= 0, v <= 255):
                raise ValueError("mmap item value must be in range(0, 256)")
        elif not _isinstance(v, _int):
            raise TypeError("mmap assignment must be an integer")
        elif not 0 <= v <= 255:
            raise ValueError("mmap item value must be in range(0, 256)")
        self._put(i, v)

    def close(self):
        pass

    def flush(self, *a):
        pass

    def size(self):
        return len(self)


# ------------------------------------------------------------ range, min, max

class RangeMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (_range, SymRange))

    def __call__(cls, *args):
        if not any(_isinstance(a, SymInt) for a in args):
            return _range(*args)
        if len(args) == 1:
            return SymRange(0, args[0], 1)
        return SymRange(*args)

    def __eq__(cls, o):
        return o is cls or o is _range

    def __hash__(cls):
        return hash(_range)


class SymRange:
    """a range whose start or stop is symbolic: a start with few values is
    concretised, otherwise it stays symbolic; the length is decided by forking"""

    def __init__(self, start, stop, step=1):
        step = idx(step)
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        for v in (start, stop):
            if not _isinstance(v, SymInt):
                operator.index(v)
        self.start, self.stop, self.step = start, stop, step

    def _first(self):
        s = self.start
        if _isinstance(s, SymInt):
            lo, hi = E.bounds(s)
            if hi - lo < 64:
                n = self.stop - s
                if _isinstance(n, SymInt):
                    lo, hi = E.bounds(n)
                    if lo == hi:
                        return s
                    return s.__index__()
        return s

    def __iter__(self):
        i = self._first()
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i += self.step

    def _len(self):
        """the length, possibly symbolic"""
        d = self.stop - self.start if self.step > 0 else self.start - self.stop
        n = d if _abs(self.step) == 1 else (d + _abs(self.step) - 1) // _abs(self.step)
        return sx_max(n, 0)

    def __len__(self):
        n = self._len()
        return n.__index__() if _isinstance(n, SymInt) else n

    def __bool__(self):
        return bool(self.start < self.stop if self.step > 0 else self.start > self.stop)

    def __getitem__(self, k):
        if _isinstance(k, slice):
            a, b, st = slice_indices(k, len(self))
            return sx_range(self.start + a * self.step, self.start + b * self.step, self.step * st)
        if not _isinstance(k, SymInt):
            k = operator.index(k)
        n = self._len()
        if k < 0:
            k = k + n
        if not and_(k >= 0, k < n):
            raise IndexError("range object index out of range")
        return self.start + k * self.step

    def __reversed__(self):
        n = len(self)
        first = self._first()
        for k in _range(n - 1, -1, -1):
            yield first + k * self.step

    def __contains__(self, x):
        return bool(self._sx_contains(x))

    def _sx_contains(self, x):
        if not _isinstance(x, (SymInt, _int)):
            return any(bool(x == v) for v in self)
        if self.step > 0:
            r = and_(x >= self.start, x < self.stop)
        else:
            r = and_(x <= self.start, x > self.stop)
        if _abs(self.step) != 1:
            r = and_(r, (x - self.start) % self.step == 0)
        return r

    def index(self, x):
        if not self._sx_contains(x):
            raise ValueError("sequence.index(x): x not in sequence")
        return (x - self.start) // self.step

    def count(self, x):
        return ite(self._sx_contains(x), 1, 0)

    def __eq__(self, o):
        if not _isinstance(o, (SymRange, _range)):
            return NotImplemented
        n = len(self)
        if n != len(o):
            return False
        return n == 0 or bool(and_(self.start == o.start, or_(n == 1, self.step == o.step)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(_range(idx(self.start), idx(self.stop), self.step))

    def __repr__(self):
        return "range(...)"


class sx_range(metaclass=RangeMeta):
    pass


sx_range.__name__ = sx_range.__qualname__ = "range"


def _minmax(native, better, args, kw):
    if kw:
        return native(*args, **kw)
    items = list(args[0]) if len(args) == 1 else list(args)
    if not any(_isinstance(a, SymInt) for a in items):
        return native(*items) if len(items) > 1 else native(items)
    r = items[0]
    for x in items[1:]:
        bl, bh = zip(E.bounds(x), E.bounds(r)) if _isinstance(x, _int | SymInt) and _isinstance(r, _int | SymInt) else ((), ())
        r = ite(better(x, r), x, r)
        if bl:
            r = E.clamp(r, native(bl), native(bh))
    return r


def sx_min(*args, **kw):
    return _minmax(_min, operator.lt, args, kw)


def sx_max(*args, **kw):
    return _minmax(_max, operator.gt, args, kw)


def sx_len(x):
    f = getattr(_type(x), "__len__", None)
    if f is None:
        return _len(x)
    if _isinstance(x, (list, tuple, str, _dict, set, _bytes, _bytearray)):
        return _len(x)
    r = f(x)
    if _isinstance(r, SymInt):
        if r < 0:
            raise ValueError("__len__() should return >= 0")
        if r > MAXSIZE:
            raise OverflowError("cannot fit 'int' into an index-sized integer")
        return r
    r = operator.index(r)
    if r < 0:
        raise ValueError("__len__() should return >= 0")
    if r > MAXSIZE:
        raise OverflowError("cannot fit 'int' into an index-sized integer")
    return r


def sx_enumerate(iterable, start=0):
    if not _isinstance(start, SymInt):
        return enumerate(iterable, start)
    return _enumerate_from(iterable, start)


def _enumerate_from(it, k):
    for x in it:
        yield k, x
        k = k + 1


def sx_abs(x):
    return abs(x)


def sx_divmod(a, b):
    if _isinstance(a, SymInt) or _isinstance(b, SymInt):
        return (a // b, a % b)
    return divmod(a, b)


def sx_pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(a, b, m)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_any(it):
    acc = False
    for x in it:
        acc = or_(acc, x)
        if acc is True:
            return True
    return acc


def sx_all(it):
    acc = True
    for x in it:
        acc = and_(acc, x)
        if acc is False:
            return False
    return acc


_MAP = {}


class TypeMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, _type)

    def __call__(cls, *args, **kw):
        if len(args) == 1 and not kw:
            x = args[0]
            if _isinstance(x, SymBool):
                return sx_bool
            if _type(x) is E.SymEnum:
                return x.cls
            if _isinstance(x, SymInt):
                return sx_int
            if _isinstance(x, FakeMmap):
                return FakeMmap
            if _isinstance(x, SymBytearray):
                return sx_bytearray
            if _isinstance(x, SymBytes):
                return sx_bytes
            t = _type(x)
            return _MAP.get(t, t)
        return _type(*args, **kw)

    def __eq__(cls, o):
        return o is cls or o is _type

    def __hash__(cls):
        return hash(_type)


class sx_type(metaclass=TypeMeta):
    pass


def sx_chr(x):
    if _isinstance(x, SymInt):
        from .symstr import SymStr
        return SymStr([x])
    return chr(x)


def sx_ord(x):
    from .symstr import SymStr
    if _isinstance(x, SymStr):
        return x.ch[0]
    if _isinstance(x, SymBytes):
        return x[0]
    return ord(x)


def sx_format(x, spec=""):
    from .symstr import fmt
    return fmt(x, spec)


def sx_str(*args, **kw):
    if len(args) == 1:
        from .symstr import SymStr, fmt
        if _isinstance(args[0], (SymStr, SymInt)):
            return fmt(args[0], "")
    return str(*args, **kw)


def sx_print(*args, sep=" ", end="\n", file=None, flush=False):
    hook = PRINT_HOOK[0]
    if hook is not None and file is None:
        from .symstr import SymStr, fmt, cat
        parts = []
        for i, a in enumerate(args):
            if i:
                parts.append(sep if sep is not None else " ")
            parts.append(fmt(a, "") if _isinstance(a, (SymInt, SymStr)) else str(a))
        parts.append(end if end is not None else "\n")
        hook(cat(parts))
        return
    if CAPTURE[0]:
        return
    _print(*args, sep=sep, end=end, file=file, flush=flush)


PRINT_HOOK = [None]
CAPTURE = [True]


# ---------------------------------------------------------------------- dict

class SymDict(_dict):
    """a dict which may be looked up with symbolic keys (forks on equality)

    Symbolic keys are concretised only against the keys present: the lookup
    forks on ``key == k`` for each present key.  Keys known to be distinct on
    this path may be stored symbolically.
    """

    def __init__(self, *a, **k):
        super().__init__()
        self._sym = []      # [key, value] with symbolic keys, in insertion order
        self.update(*a, **k)

    def _find(self, key):
        """('c', k) concrete entry, ('s', i) symbolic entry or None"""
        ks = symkey(key)
        if ks:
            for k in _dict.keys(self):
                if keyeq(key, k):
                    return ("c", k)
        else:
            if _dict.__contains__(self, key):
                return ("c", key)
        for i, (k, _) in enumerate(self._sym):
            if k is key or keyeq(key, k):
                return ("s", i)
        return None

    def __getitem__(self, key):
        f = self._find(key)
        if f is None:
            m = getattr(_type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key if not _isinstance(key, SymInt) else repr(key))
        return _dict.__getitem__(self, f[1]) if f[0] == "c" else self._sym[f[1]][1]

    def __setitem__(self, key, v):
        f = self._find(key)
        if f is None:
            if symkey(key):
                self._sym.append([key, v])
            else:
                _dict.__setitem__(self, key, v)
        elif f[0] == "c":
            _dict.__setitem__(self, f[1], v)
        else:
            self._sym[f[1]][1] = v

    def __delitem__(self, key):
        f = self._find(key)
        if f is None:
            raise KeyError(repr(key))
        if f[0] == "c":
            _dict.__delitem__(self, f[1])
        else:
            del self._sym[f[1]]

    def __contains__(self, key):
        return self._find(key) is not None

    def get(self, key, default=None):
        f = self._find(key)
        if f is None:
            return default
        return _dict.__getitem__(self, f[1]) if f[0] == "c" else self._sym[f[1]][1]

    _none = object()

    def pop(self, key, default=_none):
        f = self._find(key)
        if f is None:
            if default is SymDict._none:
                raise KeyError(repr(key))
            return default
        if f[0] == "c":
            return _dict.pop(self, f[1])
        return self._sym.pop(f[1])[1]

    def popitem(self):
        if self._sym:
            return tuple(self._sym.pop())
        return _dict.popitem(self)

    def setdefault(self, key, default=None):
        f = self._find(key)
        if f is None:
            self[key] = default
            return default
        return _dict.__getitem__(self, f[1]) if f[0] == "c" else self._sym[f[1]][1]

    def update(self, *a, **k):
        if a:
            src = a[0]
            if hasattr(src, "keys"):
                for x in src.keys():
                    self[x] = src[x]
            else:
                for x, y in src:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def keys(self):
        return list(_dict.keys(self)) + [k for k, _ in self._sym]

    def __iter__(self):
        return iter(self.keys())

    def __reversed__(self):
        return iter(self.keys()[::-1])

    def values(self):
        return list(_dict.values(self)) + [v for _, v in self._sym]

    def items(self):
        return list(_dict.items(self)) + [(k, v) for k, v in self._sym]

    def __len__(self):
        return _dict.__len__(self) + len(self._sym)

    def __bool__(self):
        return len(self) > 0

    def clear(self):
        _dict.clear(self)
        self._sym = []

    def copy(self):
        r = _type(self)()
        r.update(self)
        return r

    __copy__ = copy

    def __eq__(self, o):
        if not _isinstance(o, _dict) or len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or o[k] != v:
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{...}"


def symkey(key):
    if _isinstance(key, SymInt):
        return True
    if _isinstance(key, tuple):
        return any(symkey(k) for k in key)
    return False


def keyeq(a, b):
    if _isinstance(a, tuple) or _isinstance(b, tuple):
        if not (_isinstance(a, tuple) and _isinstance(b, tuple) and len(a) == len(b)):
            return False
        return all(keyeq(x, y) for x, y in zip(a, b))
    r = (a == b)
    return bool(r) if r is not NotImplemented else False


class SymCounter(SymDict):
    def __init__(self, it=None, **k):
        super().__init__()
        self.update(it, **k)

    @staticmethod
    def _counts(it, k):
        if it is not None:
            if hasattr(it, "keys"):
                for x in it.keys():
                    yield x, it[x]
            else:
                for x in it:
                    yield x, 1
        for x, y in k.items():
            yield x, y

    def update(self, it=None, /, **k):
        for x, n in self._counts(it, k):
            self[x] = self[x] + n

    def subtract(self, it=None, /, **k):
        for x, n in self._counts(it, k):
            self[x] = self[x] - n

    def __missing__(self, key):
        return 0

    def elements(self):
        for k, v in self.items():
            for _ in sx_range(v):
                yield k

    def total(self):
        return sx_sum(self.values())

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda e: e[1], reverse=True)
        return r if n is None else r[:n]

    def _merge(self, o, f):
        if not _isinstance(o, (SymCounter, collections.Counter)):
            return NotImplemented
        r = SymCounter()
        for k in self.keys() + [k for k in o.keys() if k not in self]:
            n = f(self[k], o[k])
            if n > 0:
                r[k] = n
        return r

    def __add__(self, o):
        return self._merge(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._merge(o, lambda a, b: a - b)

    def __or__(self, o):
        return self._merge(o, lambda a, b: sx_max(a, b))

    def __and__(self, o):
        return self._merge(o, lambda a, b: sx_min(a, b))

    def __pos__(self):
        return self + SymCounter()

    def __neg__(self):
        return SymCounter() - self

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        items = r.items()
        self.clear()
        for k, v in items:
            self[k] = v
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __ior__(self, o):
        return self._inplace(self | o)

    def __iand__(self, o):
        return self._inplace(self & o)

    def __delitem__(self, key):
        if key in self:
            SymDict.__delitem__(self, key)


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(repr(key))
        v = self.default_factory()
        self[key] = v
        return v

    def copy(self):
        r = _type(self)(self.default_factory)
        r.update(self)
        return r


class SymOrderedDict(SymDict):
    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            items = self.items()
            self.clear()
            self[key] = v
            self.update(items)

    def popitem(self, last=True):
        items = self.items()
        if not items:
            raise KeyError("dictionary is empty")
        k, v = items[-1 if last else 0]
        del self[k]
        return k, v


class DictMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, _dict)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, _dict)

    def __call__(cls, *a, **k):
        return SymDict(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is _dict

    def __hash__(cls):
        return hash(_dict)


class sx_dict(metaclass=DictMeta):
    @staticmethod
    def fromkeys(keys, v=None):
        d = SymDict()
        for k in keys:
            d[k] = v
        return d

    def __class_getitem__(cls, i):
        return _dict[i]


class SymSet:
    """list-backed set, forks on equality for symbolic members"""

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = None

    def add(self, x):
        self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self)

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    __ror__ = union = __or__

    def union(self, *os):
        r = self.copy()
        r.update(*os)
        return r

    def __and__(self, o):
        return SymSet(x for x in self if x in o)

    def intersection(self, o):
        return self & (o if hasattr(o, "__contains__") else list(o))

    def __sub__(self, o):
        return SymSet(x for x in self if x not in o)

    def difference(self, o):
        return self - (o if hasattr(o, "__contains__") else list(o))

    def __eq__(self, o):
        return hasattr(o, "__len__") and len(self) == len(o) and all(x in o for x in self)

    def issubset(self, o):
        return all(x in o for x in self)

    __le__ = issubset

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __hash__ = None


class SetMeta(type):
    def __instancecheck__(cls, o):
        return _isinstance(o, (set, SymSet))

    def __call__(cls, *a):
        return SymSet(*a)

    def __eq__(cls, o):
        return o is cls or o is set

    def __hash__(cls):
        return hash(set)


class sx_set(metaclass=SetMeta):
    def __class_getitem__(cls, i):
        return set[i]


_MAP.update({_int: sx_int, _bool: sx_bool, _bytes: sx_bytes, _bytearray: sx_bytearray, _dict: sx_dict, _range: sx_range})


def sx_hasattr(o, n):
    return hasattr(o, n)


def _realtype(t):
    if _isinstance(t, tuple):
        return tuple(_realtype(x) for x in t)
    return t


_ABCS = None


def sx_isinstance(o, t):
    r = _isinstance(o, t)
    if r:
        return True
    if _isinstance(o, SymInt):
        global _ABCS
        if _ABCS is None:
            import numbers
            import typing
            _ABCS = (numbers.Integral, numbers.Rational, numbers.Real, numbers.Number, typing.SupportsInt)
        ts = t if _isinstance(t, tuple) else (t,)
        for x in ts:
            if _type(o) is E.SymEnum and _isinstance(x, _type) and issubclass(o.cls, x):
                return True
            if x in _ABCS or x is _int or (x is _bool and _isinstance(o, SymBool)):
                return True
            if _isinstance(x, types.UnionType) and any(sx_isinstance(o, y) for y in x.__args__):
                return True
    if _isinstance(o, SymBytes):
        ts = t if _isinstance(t, tuple) else (t,)
        import collections.abc as ca
        for x in ts:
            if x in (ca.Sequence, ca.ByteString, ca.Collection, ca.Buffer):
                return True
            if x is _bytes and not _isinstance(o, SymBytearray) or x is _bytearray and _isinstance(o, SymBytearray):
                return True
    return False


# -------------------------------------------------------------------- enums

class SxEnumMeta(enum.EnumMeta):
    """enum classes whose call accepts symbolic values (kept symbolic)"""

    def __call__(cls, value, *args, **kw):
        if not args and not kw and not _isinstance(value, enum.Enum):
            f = getattr(value, "_sx_int", None)
            if f is not None and not _isinstance(value, SymInt):
                # BinaryValue is not hashable to a member value: cocotb value objects are looked up by int
                value = f()
            if _isinstance(value, SymInt):
                if issubclass(cls, enum.Flag):
                    return value.as_int()
                ms = sorted(set(m.value for m in cls))
                if ms == list(_range(ms[0], ms[-1] + 1)):
                    ok = and_(value >= ms[0], value <= ms[-1])
                else:
                    ok = or_(*[value == m for m in ms])
                if ok:
                    v = value.as_int()
                    if v.lo < ms[0] or v.hi > ms[-1]:
                        v = E.refit(E.fit(v, E.rep_width(ms[0], ms[-1])), ms[0], ms[-1])
                    if not _isinstance(v, SymInt):
                        return super().__call__(v)
                    return E.SymEnum(v.e, v.lo, v.hi, cls)
                raise ValueError(f"<sym> is not a valid {cls.__qualname__}")
        return super().__call__(value, *args, **kw)

    def __contains__(cls, value):
        if _isinstance(value, SymInt):
            return bool(or_(*[value == m.value for m in cls]))
        return super().__contains__(value)

    def __getitem__(cls, name):
        return super().__getitem__(name)


class SxIntEnum(_int, enum.ReprEnum, metaclass=SxEnumMeta):
    pass


class SxIntFlag(_int, enum.ReprEnum, enum.Flag, boundary=enum.FlagBoundary.KEEP, metaclass=SxEnumMeta):
    pass


class SxEnum(enum.Enum, metaclass=SxEnumMeta):
    pass
