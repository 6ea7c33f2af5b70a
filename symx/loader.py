"""Loads the code under test (and the harnesses) for symbolic execution.

The source is read from the repository's working tree on every run, its AST is
rewritten so that constructs which CPython evaluates without consulting the
operands (``not``, ``and``/``or``, conditional expressions, f-strings, literal
containers) go through helpers, and the module is executed with a private
``__builtins__`` dictionary.  The rewriting never changes the result on
concrete values.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import engine as E
from . import shims as S
from . import symstr as ST
from .engine import SymInt, SymBool, truth, not_, and_, or_, ite

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUNCS = set()       # functions of the repository entered during this process
MERGE = True        # if-conversion on/off (off: plain forking, for cross checking)


# ------------------------------------------------------------------ helpers

class SX:
    """namespace visible to the transformed code as __sx"""
    fstr = staticmethod(ST.fstr)
    not_ = staticmethod(not_)
    is_ = staticmethod(E.is_)
    bytes_const = staticmethod(S.bytes_const)

    @staticmethod
    def fn(name):
        FUNCS.add(name)

    @staticmethod
    def dict(items):
        d = S.SymDict()
        for k, v in items:
            d[k] = v
        return d

    @staticmethod
    def set(items):
        return S.SymSet(items)

    @staticmethod
    def and2(a, fb):
        """a and b, b free of side effects"""
        if isinstance(a, SymBool) and MERGE:
            try:
                b = fb()
            except Exception:
                return fb() if a else a
            if isinstance(b, (bool, SymBool)):
                return and_(a, b)
            return b if a else a
        return fb() if a else a

    @staticmethod
    def or2(a, fb):
        if isinstance(a, SymBool) and MERGE:
            try:
                b = fb()
            except Exception:
                return a if a else fb()
            if isinstance(b, (bool, SymBool)):
                return or_(a, b)
            return a if a else b
        return a if a else fb()

    @staticmethod
    def cond(c, fa, fb):
        """a if c else b, both free of side effects"""
        if isinstance(c, SymInt) and MERGE:
            c = truth(c)
        if isinstance(c, SymBool) and MERGE:
            hit = E.CUR.known.get(c.b.get_id())
            if hit is not None:
                return fa() if hit[1] else fb()
            try:
                a = fa()
                b = fb()
            except Exception:
                return fa() if c else fb()
            if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
                return ite(c, a, b)
            if a is b:
                return a
            return a if c else b
        return fa() if c else fb()

    @staticmethod
    def in_(x, c):
        """x in c"""
        if isinstance(c, (list, tuple)):
            if isinstance(x, SymInt) or any(isinstance(v, SymInt) for v in c):
                if all(isinstance(v, (int, SymInt)) for v in c) and isinstance(x, (int, SymInt)):
                    return or_(*[v == x for v in c])
            return x in c
        if isinstance(c, (range, S.SymRange)) and (isinstance(x, SymInt) or isinstance(c, S.SymRange)):
            if isinstance(c, range):
                if not c:
                    return False
                lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
                if abs(c.step) == 1:
                    return and_(x >= lo, x <= hi)
                return and_(x >= lo, x <= hi, (x - c[0]) % abs(c.step) == 0)
            return c._sx_contains(x)
        if isinstance(c, (set, frozenset)) and isinstance(x, SymInt):
            return or_(*[v == x for v in c if isinstance(v, int)])
        if isinstance(c, (types.MappingProxyType, dict)) and not isinstance(c, S.SymDict) and isinstance(x, SymInt):
            return or_(*[v == x for v in c if isinstance(v, int)])
        if isinstance(c, str) and isinstance(x, ST.SymStr):
            return or_(*[ST.SymStr(x.ch) == c[i:i + len(x.ch)] for i in range(len(c) - len(x.ch) + 1)])
        return x in c

    @staticmethod
    def mod(a, b):
        if isinstance(a, (str, ST.SymStr)):
            return ST.percent(a, b)
        return a % b

    @staticmethod
    def getitem(c, k):
        """c[k] where k may be symbolic and c a concrete list/tuple/dict"""
        if isinstance(k, SymInt) and isinstance(c, (list, tuple)):
            return c[k]
        if isinstance(k, SymInt) and isinstance(c, dict) and not isinstance(c, S.SymDict):
            for q in c:
                if isinstance(q, int) and q == k:
                    return c[q]
            raise KeyError("<sym>")
        return c[k]

    @staticmethod
    def call_method(obj, name, args, kw):
        """methods of real str/bytes objects with symbolic arguments"""
        if isinstance(obj, str):
            if name == "join":
                return ST.join(obj, *args)
            if name == "format" and ST.has_sym(args):
                return str_format(obj, args, kw)
        if isinstance(obj, slice) and name == "indices" and len(args) == 1:
            return S.slice_indices(obj, args[0])
        return getattr(obj, name)(*args, **kw)


def str_format(s, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            v = kw[field]
        out.append(ST.fmt(v, spec or ""))
    return ST.cat(out)


# --------------------------------------------------------------- transformer

PURE_CALLS = {"len", "int", "bool", "min", "max", "isinstance", "hasattr", "abs", "truth"}


def pure(n):
    """syntactically free of side effects (may raise)"""
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Attribute):
        return pure(n.value)
    if isinstance(n, (ast.Compare,)):
        return pure(n.left) and all(pure(c) for c in n.comparators)
    if isinstance(n, ast.BoolOp):
        return all(pure(v) for v in n.values)
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, (ast.Div, ast.Pow)):
            return False
        return pure(n.left) and pure(n.right)
    if isinstance(n, ast.IfExp):
        return pure(n.test) and pure(n.body) and pure(n.orelse)
    if isinstance(n, ast.Call):
        return (isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS and not n.keywords
                and all(pure(a) for a in n.args))
    if isinstance(n, ast.Subscript):
        return False
    return False


def sx(name):
    return ast.Attribute(value=ast.Name(id="_sx_", ctx=ast.Load()), attr=name, ctx=ast.Load())


def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def has_walrus_or_await(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n))


class Xform(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.modname = modname
        self.track = track
        self.stack = []
        self.cls = 0

    # -- functions
    def _func(self, n):
        self.stack.append(n.name)
        n = self.generic_visit(n)
        if self.track:
            call = ast.Expr(ast.Call(func=sx("fn"), args=[ast.Constant(self.modname + "." + ".".join(self.stack))], keywords=[]))
            pos = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)) else 0
            n.body.insert(pos, call)
        self.stack.pop()
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n = self.generic_visit(n)
        self.stack.pop()
        return n

    # -- expressions
    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.Call(func=sx("not_"), args=[n.operand], keywords=[])
        return n

    def visit_BoolOp(self, n):
        ok = all(pure(v) and not has_walrus_or_await(v) for v in n.values[1:])
        n = self.generic_visit(n)
        if not ok or self.in_class_body():
            return n
        r = n.values[0]
        fn = "and2" if isinstance(n.op, ast.And) else "or2"
        for v in n.values[1:]:
            r = ast.Call(func=sx(fn), args=[r, lam(v)], keywords=[])
        return r

    def in_class_body(self):
        return False

    def visit_Compare(self, n):
        chain = len(n.ops) > 1
        ispure = pure(n)
        n = self.generic_visit(n)
        if not chain:
            if isinstance(n.ops[0], (ast.In, ast.NotIn)):
                c = ast.Call(func=sx("in_"), args=[n.left, n.comparators[0]], keywords=[])
                if isinstance(n.ops[0], ast.NotIn):
                    c = ast.Call(func=sx("not_"), args=[c], keywords=[])
                return c
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and not any(
                    isinstance(x, ast.Constant) and x.value is None for x in (n.left, n.comparators[0])):
                c = ast.Call(func=sx("is_"), args=[n.left, n.comparators[0]], keywords=[])
                if isinstance(n.ops[0], ast.IsNot):
                    c = ast.Call(func=sx("not_"), args=[c], keywords=[])
                return c
            return n
        if not ispure:
            return n
        import copy
        parts = []
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            if isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
                return n
            parts.append(ast.Compare(left=copy.deepcopy(left), ops=[op], comparators=[copy.deepcopy(right)]))
            left = right
        r = parts[0]
        for p in parts[1:]:
            r = ast.Call(func=sx("and2"), args=[r, lam(p)], keywords=[])
        return r

    def visit_IfExp(self, n):
        ok = pure(n.body) and pure(n.orelse) and not has_walrus_or_await(n)
        n = self.generic_visit(n)
        if not ok:
            return n
        return ast.Call(func=sx("cond"), args=[n.test, lam(n.body), lam(n.orelse)], keywords=[])

    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.Call(func=sx("bytes_const"), args=[n], keywords=[])
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec], ctx=ast.Load()))
        return ast.Call(func=sx("fstr"), args=parts, keywords=[])

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if any(k is None for k in n.keys):
            return ast.Call(func=ast.Name(id="dict", ctx=ast.Load()), args=[n], keywords=[])
        items = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)]
        return ast.Call(func=sx("dict"), args=[ast.List(elts=items, ctx=ast.Load())], keywords=[])

    def visit_DictComp(self, n):
        n = self.generic_visit(n)
        gen = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        return ast.Call(func=sx("dict"), args=[gen], keywords=[])

    def visit_Set(self, n):
        n = self.generic_visit(n)
        return ast.Call(func=sx("set"), args=[ast.List(elts=n.elts, ctx=ast.Load())], keywords=[])

    def visit_SetComp(self, n):
        n = self.generic_visit(n)
        return ast.Call(func=sx("set"), args=[ast.ListComp(elt=n.elt, generators=n.generators)], keywords=[])

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.Call(func=sx("mod"), args=[n.left, n.right], keywords=[])
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "format", "indices") and not n.keywords \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            return ast.Call(func=sx("call_method"), args=[
                n.func.value, ast.Constant(n.func.attr),
                ast.Tuple(elts=n.args, ctx=ast.Load()), ast.Dict(keys=[], values=[])], keywords=[])
        return n

    # -- if conversion of simple assignments
    def visit_If(self, n):
        def simple(body):
            out = []
            for s in body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value):
                    out.append((s.targets[0].id, s.value))
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and pure(s.value) \
                        and not isinstance(s.op, (ast.Div, ast.Pow, ast.Mod, ast.FloorDiv)):
                    out.append((s.target.id, ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value)))
                else:
                    return None
            return out

        b = simple(n.body)
        ok = b is not None and len(b) == 1 and self.stack and not has_walrus_or_await(n)
        o = simple(n.orelse) if n.orelse else []
        if ok and (o == [] or (o is not None and len(o) == 1 and o[0][0] == b[0][0])):
            name = b[0][0]
            import copy
            body = self.visit(copy.deepcopy(b[0][1]))
            other = self.visit(copy.deepcopy(o[0][1])) if o else ast.Name(id=name, ctx=ast.Load())
            test = self.visit(n.test)
            tmp = "_sxc_"
            plain_body = [self.visit(s) for s in n.body]
            plain_else = [self.visit(s) for s in n.orelse]
            return [
                ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=test),
                ast.If(
                    test=ast.Call(func=sx("mergeable"), args=[ast.Name(id=tmp, ctx=ast.Load())], keywords=[]),
                    body=[ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())],
                                     value=ast.Call(func=sx("cond"), args=[ast.Name(id=tmp, ctx=ast.Load()), lam(body), lam(other)], keywords=[]))],
                    orelse=[ast.If(test=ast.Name(id=tmp, ctx=ast.Load()), body=plain_body, orelse=plain_else)])]
        return self.generic_visit(n)


def mergeable(c):
    return MERGE and isinstance(c, SymInt) and E.CUR is not None and not (
        isinstance(c, SymBool) and c.b.get_id() in E.CUR.known)


SX.mergeable = staticmethod(mergeable)


# -------------------------------------------------------------- fake modules

class StubLog:
    level = 100
    name = "stub"
    propagate = False
    handlers = []
    disabled = True

    def isEnabledFor(self, lvl):
        return False

    def getEffectiveLevel(self):
        return 100

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None

    def getChild(self, n):
        return self


_stub = StubLog()


def _mod(name, real, **over):
    m = types.ModuleType(name)
    if real is not None:
        m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
    m.__dict__.update(over)
    return m


def build_fakes():
    import collections
    import logging
    import enum
    import mmap
    import struct
    fakes = {}
    fakes["logging"] = _mod("logging", logging, getLogger=lambda *a: _stub)
    fakes["collections"] = _mod("collections", collections, Counter=S.SymCounter, defaultdict=S.SymDefaultDict,
                                OrderedDict=S.SymOrderedDict)
    fakes["enum"] = _mod("enum", enum, IntEnum=S.SxIntEnum, IntFlag=S.SxIntFlag, Enum=S.SxEnum)
    fakes["mmap"] = _mod("mmap", mmap, mmap=S.FakeMmap)
    fakes["struct"] = _mod("struct", struct, pack=sx_pack, unpack=sx_unpack, unpack_from=sx_unpack_from, Struct=SxStruct)
    return fakes


_FMT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
        "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def _parse_fmt(f):
    order = "little"
    if f[:1] in "<>=!@":
        order = "big" if f[0] in ">!" else "little"
        f = f[1:]
    out, n = [], ""
    for c in f:
        if c.isdigit():
            n += c
            continue
        k = int(n) if n else 1
        n = ""
        if c in "sx":
            out.append((c, k, False))
        elif c in _FMT:
            out.extend([("i",) + _FMT[c]] * k)
        else:
            E.steer(E.Incomplete("struct format " + f))
    return order, out


def sx_pack(f, *args):
    import struct
    if not any(isinstance(a, (SymInt, S.SymBytes)) for a in args):
        return struct.pack(f, *args)
    order, items = _parse_fmt(f)
    out, k = [], 0
    for c, n, sg in items:
        if c == "x":
            out.extend([0] * n)
            continue
        v = args[k]
        k += 1
        if c == "s":
            v = S._elems(v)[:n]
            out.extend(v + [0] * (n - len(v)))
        else:
            try:
                out.extend(v.to_bytes(n, order, signed=sg))
            except OverflowError:
                raise struct.error("argument out of range")
    return S.SymBytes(out)


def sx_unpack(f, data):
    import struct
    if not isinstance(data, S.SymBytes):
        return struct.unpack(f, data)
    order, items = _parse_fmt(f)
    if sum(n for _, n, _ in items) != len(data):
        raise struct.error("unpack requires a buffer of %d bytes" % sum(n for _, n, _ in items))
    lst, o, out = data.tolist(), 0, []
    for c, n, sg in items:
        if c == "s":
            out.append(S.SymBytes(lst[o:o + n]))
        elif c == "i":
            out.append(S.from_bytes(lst[o:o + n], order, signed=sg))
        o += n
    return tuple(out)


def sx_unpack_from(f, data, offset=0):
    order, items = _parse_fmt(f)
    return sx_unpack(f, data[offset:offset + sum(n for _, n, _ in items)])


class SxStruct:
    def __init__(self, f):
        import struct
        self.format, self.size = f, struct.calcsize(f)

    def pack(self, *args):
        return sx_pack(self.format, *args)

    def unpack(self, data):
        return sx_unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return sx_unpack_from(self.format, data, offset)


FAKES = {}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in FAKES:
        return FAKES[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    b = dict(builtins.__dict__)
    b.update({
        "int": S.sx_int, "bool": S.sx_bool, "bytes": S.sx_bytes, "bytearray": S.sx_bytearray, "range": S.sx_range,
        "min": S.sx_min, "max": S.sx_max, "len": S.sx_len, "type": S.sx_type, "chr": S.sx_chr, "ord": S.sx_ord,
        "divmod": S.sx_divmod, "pow": S.sx_pow, "sum": S.sx_sum, "print": S.sx_print, "dict": S.sx_dict,
        "set": S.sx_set, "isinstance": S.sx_isinstance, "format": S.sx_format, "str": SxStr,
        "memoryview": S.sx_memoryview, "enumerate": S.sx_enumerate, "__import__": sx_import, "_sx_": SX,
    })
    return b


class StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (str, ST.SymStr))

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, str)

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], (ST.SymStr, SymInt)):
            return ST.fmt(a[0], "")
        return str(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)

    def __or__(cls, o):
        return str | o

    def __ror__(cls, o):
        return o | str

    def __getattr__(cls, n):
        return getattr(str, n)


class SxStr(metaclass=StrMeta):
    pass


SxStr.__name__ = SxStr.__qualname__ = "str"
S._MAP[str] = SxStr

_BUILTINS = None


def transform(src, filename, modname, track):
    tree = ast.parse(src, filename)
    tree = Xform(modname, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class SxLoader(importlib.abc.Loader):
    def __init__(self, path, pkg, track):
        self.path, self.pkg, self.track = path, pkg, track

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        global _BUILTINS
        if _BUILTINS is None:
            FAKES.update(build_fakes())
            _BUILTINS = make_builtins()
        with open(self.path) as f:
            src = f.read()
        code = transform(src, self.path, module.__name__, self.track)
        module.__dict__["__builtins__"] = _BUILTINS
        module.__dict__["_sx_"] = SX
        exec(code, module.__dict__)


class SxFinder(importlib.abc.MetaPathFinder):
    """cocotbext.axi from the repository and harness.* from /verif, transformed"""

    def find_spec(self, name, path, target=None):
        if name == "cocotbext":
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [os.path.join(REPO, "cocotbext")]
            return spec
        if name.startswith("cocotbext.") or name.startswith("harness."):
            root = REPO if name.startswith("cocotbext.") else VERIF
            base = os.path.join(root, *name.split("."))
            if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
                p = os.path.join(base, "__init__.py")
                spec = importlib.util.spec_from_file_location(
                    name, p, loader=SxLoader(p, True, root == REPO), submodule_search_locations=[base])
                return spec
            if os.path.exists(base + ".py"):
                p = base + ".py"
                return importlib.util.spec_from_file_location(name, p, loader=SxLoader(p, False, root == REPO))
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, SxFinder())
