"""Abstract values of the interpreter."""
from fractions import Fraction

import numpy as np

from . import terms as tt
from .terms import T


class Missing:
    def __repr__(self):
        return "<missing>"


MISSING = Missing()
_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Cells(dict):
    """mutable store; every write goes through Interp.setcell"""
    __slots__ = ("owner", "uid", "ctx", "kind")

    def __init__(self, owner, kind, ctx=()):
        super().__init__()
        self.owner, self.kind, self.uid, self.ctx = owner, kind, uid(), ctx

    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o


class Obj:
    def __init__(self, cls, ctx=()):
        self.cls, self.uid, self.ctx = cls, uid(), ctx
        self.attrs = Cells(self, "obj", ctx)
        self.mirror = None      # (template object, index symbol, index term)

    def __repr__(self):
        return f"<{self.cls.name}#{self.uid}>"


class Cls:
    def __init__(self, name, module):
        self.name, self.module = name, module
        self.bases, self.ns = [], {}
        self.enum = self.strenum = False
        self.nt = False
        self.members = {}       # enum: name -> member
        self.dc = None          # dataclass: dict(fields=[(name, default|MISSING, factory, init)], frozen, eq)
        self.node = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
            elif b not in out:
                out.append(b)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name], c
        return MISSING, None

    def __repr__(self):
        return f"<class {self.name}>"


class NT(tuple):
    """an instance of a named tuple"""
    cls = None


def named(cls, items):
    v = NT(items)
    v.cls = cls
    return v


def like(v, items):
    """items as a tuple of v's kind"""
    return named(v.cls, items) if isinstance(v, NT) else tuple(items)


class Func:
    def __init__(self, node, frame, name, cls=None):
        self.node, self.frame, self.name, self.cls = node, frame, name, cls
        self.kind = None        # static / class / property / setter
        self.defaults, self.kwdefaults = [], {}
        self.cached = None
        self.ctxman = False
        self.fset = None
        self.uid = uid()

    def __repr__(self):
        return f"<function {self.name}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class Lib:
    """a name of a library: numpy.dot"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<lib {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class LibObj:
    """instance of a library type; d: data"""
    def __init__(self, kind, ctx=(), **d):
        self.kind, self.uid, self.ctx = kind, uid(), ctx
        self.d = Cells(self, "libobj", ctx)
        for k, v in d.items():
            dict.__setitem__(self.d, k, v)

    def __repr__(self):
        return f"<{self.kind}>"


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ModuleV:
    def __init__(self, name, frame, path):
        self.name, self.frame, self.path = name, frame, path


class Frame:
    def __init__(self, parent, module, fname, ctx=()):
        self.parent, self.module, self.fname = parent, module, fname
        self.vars = Cells(self, "frame", ctx)
        self.ctl = Cells(self, "ctl", ctx)
        for k in ("ret", "brk", "cont"):
            dict.__setitem__(self.ctl, k, tt.FALSE)
        dict.__setitem__(self.ctl, "retval", MISSING)
        self.globals_, self.nonlocals = set(), set()
        self.func = None
        self.self_ = None


class Guard:
    """list entry present only if c"""
    def __init__(self, c, v):
        self.c, self.v = c, v


class Splice:
    """list entries contributed by every element of a family, in order"""
    def __init__(self, i, items, cond=None):
        self.i, self.items, self.cond = i, items, cond


class LList:
    def __init__(self, items, ctx=(), kind="list"):
        self.cells = Cells(self, "list", ctx)
        dict.__setitem__(self.cells, "items", list(items))
        self.kind = kind        # list, set, gen, masked, deque
        self.uid, self.ctx = uid(), ctx

    @property
    def items(self):
        return self.cells["items"]

    def plain(self):
        return not any(isinstance(x, (Guard, Splice)) for x in self.items)

    def __repr__(self):
        return f"<list {self.items}>"


class LDict:
    def __init__(self, ctx=()):
        self.cells = Cells(self, "dict", ctx)
        self.tail = LList([], ctx)      # entries (key, value) with keys that are not literal
        self.keys_ = {}         # hashable -> original key
        self.uid, self.ctx = uid(), ctx
        self.default = None


class PhiV:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"<{tt.show(self.c, 2)} ? {self.a!r} : {self.b!r}>"


class Arr:
    """array: numpy object array of terms; a family axis has length 1"""
    def __init__(self, a, fam=None, dt="f8"):
        self.a = a
        self.fam = tuple(fam) if fam is not None else (None,) * a.ndim
        self.dt = dt

    @property
    def ndim(self):
        return self.a.ndim

    def famaxes(self):
        return [k for k, f in enumerate(self.fam) if f is not None]

    def same(self, o):
        x, y = self.a.__array_interface__, o.a.__array_interface__
        return x["data"] == y["data"] and x["shape"] == y["shape"] and self.a.strides == o.a.strides

    def __repr__(self):
        return f"<arr {self.a.shape} {self.dt}>"


def root(a):
    while a.base is not None:
        a = a.base
    return a


def oarr(x, shape=None):
    """object array from nested python lists of scalars"""
    a = np.empty(np.shape(x) if shape is None else shape, dtype=object)
    if a.ndim == 0:
        a[()] = x
        return a
    flat = list(_flat(x, a.ndim))
    a.reshape(-1)[:] = flat if flat else []
    return a


def _flat(x, d):
    if d == 0:
        yield x
    else:
        for y in x:
            yield from _flat(y, d - 1)


def is_scalar(v):
    return isinstance(v, (T, int, float, Fraction)) or v is True or v is False


def is_const_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) or \
        isinstance(v, T) and v.op == "c" and isinstance(v.args[1], (int, Fraction))


def as_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float) and v.is_integer():
        return int(v)
    if isinstance(v, T) and v.op == "c" and isinstance(v.args[1], int):
        return int(v.args[1])
    return None
