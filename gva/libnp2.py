"""numpy / math / scipy.spatial function table."""
from fractions import Fraction

import math

import numpy as np

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import (MISSING, Arr, Frame, Func, Guard, LDict, Lib, LibObj, LList, Method, Obj, PhiV, Splice, as_int, root,
                     is_scalar, oarr)


def _prod(ts):
    r = 1
    for t in ts:
        r = tt.mul(r, t)
    return r


def _fold(f):
    def g(ts):
        r = ts[0]
        for t in ts[1:]:
            r = f(r, t)
        return r
    return g


def U(name):
    return lambda t: tt.fn(name, t)


def dabs(t):
    return tt.absv(t)


class NP2:
    def init_np2(self):
        I = self.I
        T_ = self.TABLE = {}
        C = self.CONSTS = {}
        nan = tt.const(("special", "nan"))
        inf = tt.const(("special", "inf"))
        for m in ("numpy", "math"):
            C[m + ".pi"] = tt.PI
            C[m + ".nan"] = nan
            C[m + ".inf"] = inf
            C[m + ".e"] = tt.sym("e", tt.NUM, True)
        C["numpy.newaxis"] = None
        C["sys.float_info"] = LibObj("finfo")
        C["scipy.constants.pi"] = tt.PI
        C["scipy.constants.G"] = Fraction("6.6743e-11")
        un = {"sqrt": tt.sqrt, "log": tt.log, "acos": tt.acos, "arccos": tt.acos, "asin": tt.asin,
              "arcsin": tt.asin, "fabs": tt.absv, "abs": tt.absv, "absolute": tt.absv, "sign": tt.sign,
              "square": lambda t: tt.mul(t, t), "negative": tt.neg, "positive": lambda t: t,
              "reciprocal": lambda t: tt.div(1, t),
              "degrees": lambda t: tt.div(tt.mul(t, 180), tt.PI), "rad2deg": lambda t: tt.div(tt.mul(t, 180), tt.PI),
              "radians": lambda t: tt.div(tt.mul(t, tt.PI), 180), "deg2rad": lambda t: tt.div(tt.mul(t, tt.PI), 180),
              "log1p": lambda t: tt.log(tt.add(1, t)), "log2": lambda t: tt.div(tt.log(t), tt.fn("ln2")),
              "log10": lambda t: tt.div(tt.log(t), tt.fn("ln10")),
              "expm1": lambda t: tt.sub(tt.fn("exp", t), 1),
              "logical_not": lambda t: tt.notc(tt.truthy(t)), "invert": tt.notc,
              "isnan": self.isnan, "isinf": self.isinf, "isfinite": lambda t: tt.notc(tt.orc(self.isnan(t), self.isinf(t))),
              "real": lambda t: t,
              "conj": lambda t: t, "arctan": U("atan"), "atan": U("atan"), "arcsinh": U("asinh"),
              "arctanh": U("atanh")}
        for n in ("sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "floor",
                  "ceil", "trunc", "rint", "cbrt"):
            un.setdefault(n, U(n))
        for n, f in un.items():
            for m in ("numpy", "math"):
                T_[f"{m}.{n}"] = (lambda f, n: lambda v, *a, **k: self.unfn(f, n, v, *a, **k))(f, n)
        for n in ("isnan", "isinf", "isfinite", "logical_not"):
            T_["numpy." + n] = (lambda f: lambda v: self.boolmap(f, v))(un[n])
        bi = {"maximum": tt.maxv, "minimum": tt.minv, "fmax": tt.maxv, "fmin": tt.minv, "add": tt.add,
              "subtract": tt.sub, "multiply": tt.mul, "divide": tt.div, "true_divide": tt.div, "power": tt.power,
              "hypot": lambda a, b: tt.sqrt(tt.add(tt.mul(a, a), tt.mul(b, b))),
              "arctan2": lambda a, b: tt.fn("atan2", a, b), "atan2": lambda a, b: tt.fn("atan2", a, b),
              "copysign": lambda a, b: tt.mul(tt.absv(a), tt.phi(tt.lt(b, 0), -1, 1)),
              "fmod": lambda a, b: tt.fn("mod", a, b), "mod": lambda a, b: tt.fn("mod", a, b),
              "remainder": lambda a, b: tt.fn("mod", a, b), "pow": tt.power,
              "greater": tt.gt, "less": tt.lt, "greater_equal": tt.ge, "less_equal": tt.le, "equal": tt.eq,
              "not_equal": lambda a, b: tt.notc(tt.eq(a, b)),
              "logical_and": lambda a, b: tt.andc(tt.truthy(a), tt.truthy(b)),
              "logical_or": lambda a, b: tt.orc(tt.truthy(a), tt.truthy(b))}
        for n, f in bi.items():
            for m in ("numpy", "math"):
                T_[f"{m}.{n}"] = (lambda f, n: lambda a, b, out=None, **k: self.binfn(f, n, a, b, out))(f, n)
        T_["numpy.nan_to_num"] = lambda v, copy=True, nan=0, posinf=None, neginf=None: self.nan_to_num(v, nan)
        T_["math.dist"] = lambda a, b: self.np_norm(I.binop("Sub", self.asarr(a), self.asarr(b)))
        T_["math.hypot"] = lambda *a: I.cstval(tt.sqrt(self.sumsq(a)))
        T_["math.fsum"] = T_["math.sumprod"] = lambda v, *a: self.b_sum(v) if not a else self.np_dot(v, a[0])
        T_["math.prod"] = T_["numpy.prod"] = lambda v, axis=None: self.reduce(
            self.asarr(v), axis, _prod, 1, lambda i, t: I.opq("product over a collection", t))
        T_["math.isclose"] = T_["numpy.isclose"] = self.isclose
        T_["math.log"] = lambda v, b=None: self.map(tt.log, v, "log") if b is None else \
            I.binop("Div", self.map(tt.log, v, "log"), self.map(tt.log, b, "log"))
        T_["numpy.allclose"] = lambda a, b, **k: self.allof(self.isclose(a, b))
        T_["numpy.array_equal"] = self.array_equal
        T_["numpy.array_equiv"] = self.array_equal
        T_["numpy.float64"] = T_["numpy.double"] = T_["numpy.float_"] = self.b_float
        T_["numpy.float32"] = lambda v: self.map(U("float32"), v, "float32")
        T_["numpy.float16"] = lambda v: self.map(U("float16"), v, "float16")
        T_["numpy.int64"] = T_["numpy.int32"] = T_["numpy.intp"] = self.b_int
        T_["numpy.bool_"] = self.b_bool
        for n in ("array", "asarray"):
            T_["numpy." + n] = getattr(self, "np_" + n)
        T_["numpy.asanyarray"] = T_["numpy.ascontiguousarray"] = T_["numpy.asfarray"] = self.np_asarray
        T_["numpy.asfortranarray"] = T_["numpy.asarray_chkfinite"] = self.np_asarray
        T_["numpy.copy"] = lambda v: self.np_array(v)
        T_["numpy.zeros"] = lambda shape, dtype=None, order=None: self.filled(shape, 0, dtype)
        T_["numpy.ones"] = lambda shape, dtype=None, order=None: self.filled(shape, 1, dtype)
        T_["numpy.empty"] = lambda shape, dtype=None, order=None: self.emptyarr(shape, dtype)
        T_["numpy.full"] = self.np_full
        for n, v in (("zeros_like", 0), ("ones_like", 1)):
            T_["numpy." + n] = (lambda v: lambda x, dtype=None, **k: self.like(x, v, dtype))(v)
        T_["numpy.empty_like"] = lambda x, dtype=None, **k: self.like(x, None, dtype)
        T_["numpy.full_like"] = lambda x, v, dtype=None: self.like(x, v, dtype)
        T_["numpy.eye"] = T_["numpy.identity"] = lambda n, *a, **k: self.eye(n)
        T_["numpy.diag"] = self.np_diag
        T_["numpy.diagonal"] = self.np_diag
        T_["numpy.trace"] = lambda v: self.np_sum(self.np_diag(v))
        T_["numpy.dot"] = T_["numpy.inner"] = T_["numpy.vdot"] = self.dotfn
        T_["numpy.matmul"] = lambda a, b, out=None: self.np_dot(a, b)
        T_["numpy.cross"] = T_["numpy.linalg.cross"] = self.np_cross
        T_["numpy.outer"] = self.np_outer
        T_["numpy.einsum"] = self.einsum
        T_["numpy.tensordot"] = lambda a, b, axes=2: self.np_dot(a, b) if as_int(axes) == 1 else I.opq("tensordot", a, b)
        T_["numpy.linalg.norm"] = self.np_norm
        T_["scipy.linalg.norm"] = self.np_norm
        T_["numpy.linalg.det"] = self.det
        T_["numpy.sum"] = self.np_sum
        T_["numpy.nansum"] = lambda v, *a, **k: self.np_sum(self.nan_to_num(v), *a, **k)
        T_["numpy.mean"] = T_["numpy.average"] = self.np_mean
        T_["numpy.cumsum"] = lambda v, **k: self.cumsum(v)
        T_["numpy.diff"] = self.np_diff
        for n, f in (("max", tt.maxv), ("min", tt.minv), ("amax", tt.maxv), ("amin", tt.minv)):
            T_["numpy." + n] = (lambda f, n: lambda v, axis=None, **k: self.reduce(
                self.asarr(v), axis, _fold(f), 0, self.bound(n[-3:], axis)))(f, n)
        T_["numpy.median"] = lambda v, axis=None, **k: self.reduce(self.asarr(v), axis, lambda ts: ts[0] if len(ts) == 1 else I.opq(
            "median"), 0, self.bound("median", axis))
        T_["numpy.any"] = lambda v, axis=None: self.boolred(v, axis, True)
        T_["numpy.all"] = lambda v, axis=None: self.boolred(v, axis, False)
        T_["numpy.where"] = self.np_where
        T_["numpy.select"] = self.np_select
        T_["numpy.clip"] = lambda v, a_min=None, a_max=None, **k: self.clip(v, k.get("min", a_min), k.get("max", a_max))
        T_["numpy.unique"] = self.np_unique
        T_["numpy.sort"] = self.np_sort
        T_["numpy.round"] = T_["numpy.around"] = lambda v, decimals=0: self.b_round(v, decimals)
        T_["numpy.insert"] = self.np_insert
        T_["numpy.append"] = self.np_append
        T_["numpy.delete"] = self.np_delete
        T_["numpy.concatenate"] = lambda seq, axis=0: self.concat(seq, axis)
        T_["numpy.stack"] = lambda seq, axis=0: self.stack(seq, axis)
        T_["numpy.vstack"] = T_["numpy.row_stack"] = self.vstack
        T_["numpy.hstack"] = self.hstack
        T_["numpy.column_stack"] = self.column_stack
        T_["numpy.dstack"] = lambda seq: I.opq("dstack", seq)
        T_["numpy.transpose"] = lambda v, axes=None: self.transpose(self.asarr(v), I.tolist(axes) if axes is not None
                                                                    else None)
        T_["numpy.swapaxes"] = lambda v, a, b: self.swapaxes(self.asarr(v), a, b)
        T_["numpy.moveaxis"] = lambda v, a, b: self.moveaxis(self.asarr(v), a, b)
        T_["numpy.reshape"] = lambda v, s=None, order="C", *, shape=None, copy=None: self.reshaped(
            v, [s if shape is None else shape], order)
        T_["numpy.ravel"] = lambda v, order="C": self.ordered(self.asarr(v), order, self.flat)
        T_["numpy.squeeze"] = lambda v, axis=None: self.squeeze(self.asarr(v))
        T_["numpy.expand_dims"] = lambda v, axis: self.expand(self.asarr(v), axis)
        T_["numpy.atleast_2d"] = lambda v: self.atleast(self.asarr(v), 2)
        T_["numpy.atleast_1d"] = lambda v: self.atleast(self.asarr(v), 1)
        T_["numpy.roll"] = self.np_roll
        T_["numpy.flip"] = lambda v, axis=None: self.flip(self.asarr(v), axis)
        T_["numpy.flipud"] = lambda v: self.flip(self.asarr(v), 0)
        T_["numpy.fliplr"] = lambda v: self.flip(self.asarr(v), 1)
        T_["numpy.tile"] = self.np_tile
        T_["numpy.repeat"] = lambda v, n, axis=None: I.opq("repeat", v)
        T_["numpy.broadcast_to"] = lambda v, s: self.filled(s, v)
        T_["numpy.arange"] = self.np_arange
        T_["numpy.finfo"] = lambda t=None: LibObj("finfo", of=self.dtype(t) if t is not None else None)
        T_["numpy.apply_along_axis"] = self.apply_along_axis
        T_["numpy.vectorize"] = lambda f, **k: LibObj("vectorize", f=f)
        T_["numpy.fromiter"] = lambda v, dtype=None, count=-1: self.np_array(self.b_list(v), dtype)
        T_["numpy.isin"] = T_["numpy.in1d"] = self.np_isin
        T_["numpy.take"] = lambda v, i, axis=None: self.arr_get(self.asarr(v), i if axis in (None, 0) else
                                                                ("idx",) + (("slice", None, None, None),) *
                                                                (as_int(axis) % self.asarr(v).ndim) + (i,))
        T_["numpy.shape"] = lambda v: self.arr_attr(self.asarr(v), "shape")
        T_["numpy.size"] = lambda v: self.arr_attr(self.asarr(v), "size")
        T_["numpy.ndim"] = lambda v: self.asarr(v).ndim
        T_["numpy.count_nonzero"] = lambda v: self.np_sum(self.I.map1(lambda t: tt.phi(tt.truthy(t), 1, 0), self.asarr(v)))
        T_["numpy.triu"] = lambda v, k=0: self.triangle(v, k, np.triu)
        T_["numpy.tril"] = lambda v, k=0: self.triangle(v, k, np.tril)
        T_["numpy.triu_indices"] = lambda n, k=0, m=None: tuple(self.consts(x) for x in np.triu_indices(as_int(n), as_int(k)))
        T_["numpy.tril_indices"] = lambda n, k=0, m=None: tuple(self.consts(x) for x in np.tril_indices(as_int(n), as_int(k)))
        T_["numpy.nonzero"] = T_["numpy.flatnonzero"] = T_["numpy.argwhere"] = lambda v: self.nonzero(v)
        T_["numpy.argmax"] = self.np_argmax
        T_["numpy.testing.assert_allclose"] = lambda *a, **k: None
        for n in ("seterr", "set_printoptions", "errstate", "geterr"):
            T_["numpy." + n] = lambda *a, **k: LibObj("ctx")
        T_["numpy.logical_and.reduce"] = lambda v, axis=None: self.boolred(v, axis, False)
        T_["numpy.logical_or.reduce"] = lambda v, axis=None: self.boolred(v, axis, True)
        T_["numpy.add.reduce"] = self.np_sum
        T_["numpy.ndarray.sum"] = self.np_sum
        T_["numpy.meshgrid"] = self.np_meshgrid
        T_["numpy.loadtxt"] = T_["numpy.genfromtxt"] = self.np_loadtxt
        T_["scipy.spatial.ConvexHull"] = self.convexhull
        T_["scipy.optimize.linprog"] = self.linprog

    # ------------------------------------------------------------- elementwise
    def isnan(self, t):
        t = tm(t)
        if t.op == "c":
            return tt.const(t.args[1] == ("special", "nan"))
        if t.taint:
            return tt.opaque("cond:isnan", t)
        return tt.fn("cond:isnan", t) if self.wild(t) else FALSE

    def isinf(self, t):
        t = tm(t)
        if t.op == "c":
            return tt.const(isinstance(t.args[1], tuple) and "inf" in t.args[1][1])
        return tt.fn("cond:isinf", t) if self.wild(t) else FALSE

    def wild(self, t):
        """a value that the analysis is told may be infinite or not a number"""
        w = self.I.opts.get("nonfinite")
        return bool(w) and any(x.op == "fn" and x.args[0] in w for x in tt.nodes(t))

    def nan_to_num(self, v, nan=0, infs=True):
        huge = tt.sym("max of f8", tt.NUM, True)
        one = lambda t: tt.phi(self.isnan(t), nan, tt.phi(self.isinf(t) if infs else FALSE, tt.mul(huge, tt.sign(t)), t))
        r = self.map(one, v, "nan_to_num")
        return self.np_array(r) if isinstance(r, Arr) else r

    def boolmap(self, f, v):
        v = self.I.force(v)
        if is_scalar(v):
            return self.I.pyb(tm(f(v)))
        x = self.asarr(v)
        return self.I.opqc("isnan") if x is None else self.I.map1(f, x, "b1")

    def unfn(self, f, n, v, out=None, **k):
        """a function of one argument; out: the array that receives the values"""
        I = self.I
        out = I.resolve(out)
        if isinstance(out, tuple) and len(out) == 1:
            out = I.resolve(out[0])
        if out is None:
            return self.map(f, v, n)
        if not isinstance(out, Arr):
            return I.opq(n + " with out", v)
        I.arrstore(out, self.asarr(self.map(f, v, n)).a)
        return out

    def binfn(self, f, n, a, b, out):
        I = self.I
        r = self.ew2(f, a, b)
        if isinstance(r, Arr) and n in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal",
                                        "logical_and", "logical_or"):
            r = Arr(r.a, r.fam, "b1")
        out = I.resolve(out)
        if isinstance(out, Arr):
            x = self.asarr(r)
            I.arrstore(out, x.a)
            return out
        return r

    def sumsq(self, vs):
        r = 0
        for v in vs:
            v = self.I.force(v)
            r = tt.add(r, tt.mul(v, v))
        return r

    def isclose(self, a, b, *r, **k):
        a, b = self.I.force(a), self.I.force(b)
        f = lambda x, y: tt.TRUE if tm(x) is tm(y) else tt.fn("isclose", *sorted((tm(x), tm(y)), key=lambda t: t.id))
        if is_scalar(a) and is_scalar(b):
            return self.I.pyb(f(a, b))
        return self.I.elementwise(f, a, b, dt="b1")

    def array_equal(self, a, b, equal_nan=False):
        I = self.I
        a, b = I.resolve(a), I.resolve(b)
        if isinstance(a, PhiV):
            return I.pyb(tt.phi(a.c, tm(self.array_equal(a.a, b)), tm(self.array_equal(a.b, b))))
        if isinstance(b, PhiV):
            return self.array_equal(b, a)
        if a is None or b is None:
            return a is b
        x, y = self.asarr(a), self.asarr(b)
        if x is None or y is None:
            return I.opqc("array_equal", a, b)
        if x.a.shape != y.a.shape or x.fam != y.fam:
            if x.famaxes() or y.famaxes() or any(z.a.shape == () and tt.taints(tm(z.a[()])) for z in (x, y)):
                return I.opqc("array_equal", x, y)
            return False
        return I.pyb(self.allof(I.equal(x, y)))

    def boolred(self, v, axis, isany):
        I = self.I
        x = self.asarr(v)
        if x is None:
            return I.opqc("any/all", v)
        if axis is None:
            return I.pyb(self.anyof(x) if isany else self.allof(x))
        f = (lambda ts: _fold(tt.orc)([tt.truthy(t) for t in ts])) if isany else \
            (lambda ts: _fold(tt.andc)([tt.truthy(t) for t in ts]))
        g = tt.anyc if isany else (lambda i, t: tt.notc(tt.anyc(i, tt.notc(t))))
        r = self.reduce(x, axis, f, not isany, g)
        return Arr(r.a, r.fam, "b1") if isinstance(r, Arr) else r

    def np_unique(self, x, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
        I = self.I
        a = self.asarr(I.force(x))
        more = any(I.resolve(q) is not False for q in (return_index, return_inverse, return_counts))
        if a is None or more or kw:
            return I.opq("unique", x)
        k = None if I.resolve(axis) is None else as_int(I.resolve(axis))
        if a.fam and a.fam[0] is not None and (k == 0 or a.a.ndim == 1 and k is None):
            return self.somerows(a, "unique")
        if not any(a.fam or ()) and k is None:
            v = [tt.cv(tm(t)) for t in a.a.reshape(-1)]
            if all(q is not None and not isinstance(q, str) for q in v):
                return I.arr(oarr(sorted(set(v))), None, a.dt)
        return I.opq("unique", *I.scalars(a))

    def np_sort(self, x, axis=-1):
        I = self.I
        a = self.asarr(I.force(x))
        k = as_int(I.resolve(axis))
        if a is None or k is None:
            return I.opq("sort", x)
        if a.a.ndim == 1 and a.fam[0] is not None and k in (0, -1):
            return self.somerows(a, "sorted")
        if not a.famaxes() and a.a.ndim == 1:
            v = [tt.cv(tm(t)) for t in a.a]
            if all(q is not None and not isinstance(q, str) for q in v):
                return I.arr(oarr(sorted(v)), None, a.dt)
        return I.opq("sort", *I.scalars(a))

    def np_select(self, conds, vals, default=0):
        I = self.I
        cl, vl = I.tolist(conds), I.tolist(vals)
        r = default
        for c, v in reversed(list(zip(cl, vl))):
            r = self.np_where(c, v, r)
        return r

    # ------------------------------------------------------------ constructors
    def emptyarr(self, shape, dtype):
        s = self.shape_of(shape)
        if s is None:
            return self.I.opq("array of unknown shape", shape)
        a = np.empty(s[0], dtype=object)
        for k in range(a.size):
            a.reshape(-1)[k] = tt.fn("uninit", k)
        return self.I.arr(a, s[1], self.dtype(dtype) or "f8")

    def np_full(self, shape, v, dtype=None, order=None):
        d = dtype
        if d is None and isinstance(self.I.resolve(v), int):
            d = "int"
        return self.filled(shape, v, d)

    def like(self, x, v, dtype):
        x = self.asarr(x)
        a = np.empty(x.a.shape, dtype=object)
        a[...] = tt.fn("uninit", 0) if v is None else self.I.force(v)
        return self.I.arr(a, x.fam, self.dtype(dtype) or (x.dt if x.dt != "cfg" else "f8"))

    def eye(self, n):
        k = as_int(n)
        a = np.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                a[i, j] = int(i == j)
        return self.I.arr(a)

    def np_diag(self, v, k=0):
        x = self.asarr(v)
        if x.famaxes():
            return self.I.opq("diag", x)
        if x.a.ndim == 1:
            n = x.a.shape[0]
            a = np.empty((n, n), dtype=object)
            a[...] = 0
            for i in range(n):
                a[i, i] = x.a[i]
            return self.I.arr(a, None, x.dt)
        return self.I.arr(np.array([x.a[i, i] for i in range(min(x.a.shape))], dtype=object), None, x.dt)

    def consts(self, a):
        o = np.empty(a.shape, dtype=object)
        for k, v in enumerate(a.reshape(-1)):
            o.reshape(-1)[k] = int(v)
        return self.I.arr(o, None, "i8")

    def np_arange(self, *a, **k):
        v = [as_int(self.I.force(x)) for x in a]
        if any(x is None for x in v):
            x = self.fromseq_range(self.b_range(*a)) if len(a) == 1 else None
            if x is None and 2 <= len(a) <= 3:
                x = self.axis_values(*[self.I.force(q) for q in a])
            return x if x is not None else self.I.opq("arange", *a)
        return self.consts(np.arange(*v))

    def axis_values(self, lo, hi, st=1):
        """start, start + step, ... (hi excluded), as an array over a collection of nodes"""
        if not all(is_scalar(q) for q in (lo, hi, st)):
            return None
        cs = [tt.cv(tm(q)) for q in (lo, hi, st)]
        if all(isinstance(q, (int, Fraction)) and not isinstance(q, bool) for q in cs) and cs[2] != 0:
            n = max(0, math.ceil((Fraction(cs[1]) - Fraction(cs[0])) / cs[2]))
            if n <= 64:
                return self.I.arr(oarr([tm(cs[0] + k * cs[2]) for k in range(n)]), (None,), "f8") if n else self.consts(np.zeros(0))
        key = (tm(lo), tm(hi), tm(st))
        name = self.arfams.setdefault(key, f"ar{len(self.arfams)}")
        i = tt.index(name)
        return self.I.arr(oarr([tt.add(lo, tt.mul(i, st))]), (i,), "cfg")

    def np_meshgrid(self, *xs, indexing="xy", sparse=False, copy=True):
        r = self.grid([self.asarr(x) for x in xs])
        if r is None or self.I.resolve(sparse) is not False:
            return self.I.opq("meshgrid", *xs)
        if self.I.resolve(indexing) != "ij" and len(r) > 1:
            r = [Arr(np.swapaxes(x.a, 0, 1), (x.fam[1], x.fam[0]) + x.fam[2:], x.dt) for x in r]
        return LList(r, self.I.ctx)

    def grid(self, xs):
        if any(x is None or x.a.ndim != 1 for x in xs):
            return None
        shape = tuple(x.a.shape[0] for x in xs)
        fam = tuple(x.fam[0] for x in xs)
        out = []
        for k, x in enumerate(xs):
            a = np.empty(shape, dtype=object)
            a[...] = x.a.reshape([-1 if q == k else 1 for q in range(len(xs))])
            out.append(self.I.arr(a, fam, x.dt))
        return out

    def np_mgrid(self, i):
        idx = list(i[1:]) if isinstance(i, tuple) and i and i[0] == "idx" else list(i) if isinstance(i, tuple) and \
            not (i and i[0] == "slice") else [i]
        axes = []
        for s in idx:
            if not (isinstance(s, tuple) and s and s[0] == "slice"):
                return self.I.opq("mgrid")
            lo, hi, st = (self.I.force(q) for q in s[1:])
            axes.append(self.np_arange(0 if lo is None else lo, hi, 1 if st is None else st))
        if any(not isinstance(x, Arr) for x in axes):
            return self.I.opq("mgrid")
        g = self.grid(axes)
        if len(idx) == 1 and not (isinstance(i, tuple) and i and i[0] == "idx"):
            return g[0]
        return self.stack(LList(g, self.I.ctx))

    def fromseq_range(self, r):
        s = self.seg_range(r)
        if s and len(s) == 1 and s[0][0] == "fam":
            return self.I.arr(oarr([s[0][1]]), (s[0][1],), "i8")
        return None

    # ---------------------------------------------------------------- algebra
    def dotfn(self, a, b, out=None):
        r = self.np_dot(a, b)
        return r

    def einsum(self, spec, *ops, **k):
        I = self.I
        if not isinstance(spec, str) or kwbad(k):
            return I.opq("einsum", *ops)
        spec = spec.replace(" ", "")
        ins, _, out = spec.partition("->")
        ins = ins.split(",")
        xs = [self.asarr(o) for o in ops]
        if "." in spec or any(x is None for x in xs) or len(ins) != len(xs):
            return I.opq("einsum", *ops)
        dim, fam = {}, {}
        for s, x in zip(ins, xs):
            for q, c in enumerate(s):
                dim[c] = max(dim.get(c, 1), x.a.shape[q])
                if x.fam[q] is not None:
                    if fam.get(c, x.fam[q]) is not x.fam[q]:
                        return I.opq("einsum", *ops)
                    fam[c] = x.fam[q]
        if not _:
            out = "".join(sorted(c for c in dim if sum(s.count(c) for s in ins) == 1))
        red = [c for c in dim if c not in out]
        res = np.empty([dim[c] for c in out], dtype=object)
        for idx in np.ndindex(*res.shape):
            env = dict(zip(out, idx))
            tot = 0
            for r in np.ndindex(*[dim[c] for c in red]):
                env.update(zip(red, r))
                p = 1
                for s, x in zip(ins, xs):
                    p = tt.mul(p, x.a[tuple(env[c] for c in s)])
                tot = tt.add(tot, p)
            for c in red:
                if c in fam:
                    tot = tt.summ(fam[c], tot)
            res[idx] = tot
        if res.ndim == 0:
            return I.cstval(tm(res[()]))
        return I.arr(res, tuple(fam.get(c) for c in out))

    def det(self, v):
        x = self.asarr(v)
        if x is None or x.a.shape != (3, 3) or x.famaxes():
            return self.I.opq("det", v)
        a = x.a
        c = self.np_cross(self.I.arr(a[1].copy()), self.I.arr(a[2].copy()))
        return self.np_dot(self.I.arr(a[0].copy()), c)

    def cumsum(self, v):
        x = self.asarr(v)
        if x is None or x.a.ndim != 1 or x.famaxes():
            return self.I.opq("cumsum", v)
        o, r = np.empty(x.a.shape, dtype=object), 0
        for k in range(o.size):
            r = tt.add(r, x.a[k])
            o[k] = r
        return self.I.arr(o)

    def np_diff(self, v, n=1, axis=-1, **k):
        x = self.asarr(v)
        ax = self.axisnorm(axis, x.a.ndim)
        if x.fam[ax] is not None or n != 1:
            return self.I.opq("diff", v)
        a = np.moveaxis(x.a, ax, 0)
        r = np.frompyfunc(tt.sub, 2, 1)(a[1:], a[:-1])
        return self.I.arr(np.moveaxis(r, 0, ax), x.fam, x.dt)

    # --------------------------------------------------------------- structure
    def np_insert(self, v, pos, vals, axis=None):
        I = self.I
        x = self.asarr(v)
        p = as_int(pos)
        y = self.asarr(vals)
        if x is None or y is None or p is None or x.famaxes():
            return I.opq("insert", v)
        if axis is None and x.a.ndim > 1:
            return I.opq("insert", v)
        ax = 0 if axis is None else self.axisnorm(axis, x.a.ndim)
        m = np.moveaxis(x.a, ax, 0)
        n = m.shape[0]
        if p < 0:
            p += n
        new = y.a if y.a.ndim == m.ndim else np.expand_dims(y.a, 0) if y.a.ndim == m.ndim - 1 else None
        if new is None:
            return I.opq("insert", v)
        r = np.concatenate([m[:p], np.broadcast_to(new, new.shape[:1] + m.shape[1:]), m[p:]], axis=0)
        return I.arr(np.moveaxis(r, 0, ax), x.fam, x.dt)

    def np_append(self, a, b, axis=None):
        if axis is not None:
            return self.concat((a, b), axis)
        xs = [self.asarr(x) for x in (a, b)]
        if any(x is None for x in xs):
            return self.I.opq("append", a, b)
        return self.concat(tuple(x if x.a.ndim == 1 else self.reshape(x, (-1,)) for x in xs), 0)

    def np_delete(self, v, pos, axis=None):
        x = self.asarr(v)
        p = as_int(pos)
        if x is None or p is None or x.famaxes():
            return self.I.opq("delete", v)
        return self.I.arr(np.delete(x.a, p, axis=as_int(axis) if axis is not None else None), None, x.dt)

    def rows(self, seq):
        l = self.I.tolist(seq)
        if l is None:
            return None
        xs = [self.asarr(v) for v in l]
        return None if any(x is None for x in xs) else xs

    def vstack(self, seq):
        xs = self.rows(seq)
        if xs is None:
            x = self.asarr(seq)
            return x if x is not None and x.a.ndim == 2 else self.I.opq("vstack", seq)
        return self.concat(tuple(Arr(x.a[None], (None,) + x.fam, x.dt) if x.a.ndim == 1 else x for x in xs), 0)

    def hstack(self, seq):
        xs = self.rows(seq)
        if xs is None:
            return self.I.opq("hstack", seq)
        return self.concat(tuple(xs), 0 if xs[0].a.ndim == 1 else 1)

    def column_stack(self, seq):
        xs = self.rows(seq)
        if xs is None:
            return self.I.opq("column_stack", seq)
        return self.concat(tuple(Arr(x.a[:, None], x.fam + (None,), x.dt) if x.a.ndim == 1 else x for x in xs), 1)

    def swapaxes(self, x, a, b):
        a, b = self.axisnorm(a, x.a.ndim), self.axisnorm(b, x.a.ndim)
        ax = list(range(x.a.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(x, ax)

    def moveaxis(self, x, a, b):
        ax = list(range(x.a.ndim))
        a, b = self.axisnorm(a, x.a.ndim), self.axisnorm(b, x.a.ndim)
        ax.remove(a)
        ax.insert(b, a)
        return self.transpose(x, ax)

    def flat(self, x, copy=False):
        if x.famaxes():
            if x.a.ndim == 1:
                return self.I.arr(x.a.copy(), x.fam, x.dt) if copy else x
            if all(f is not None for f in x.fam):
                return self.merge_axes(x, 0, x.a.ndim)
            return LibObj("flatarr", arr=x)
        r = x.a.reshape(-1)
        return self.I.arr(r.copy(), None, x.dt) if copy else Arr(r, None, x.dt)

    def ordered(self, x, order, f):
        """f, which goes through an array in C order, in the order asked for"""
        order = self.I.resolve(order)
        if order in ("F", "A", "K") and (order == "F" or x.a.ndim < 2):
            return f(self.transpose(x))
        return f(x) if order in ("C", None) else self.I.opq("order of an array", x)

    def reshaped(self, v, shape, order="C"):
        I = self.I
        x, order = self.I.resolve(v), I.resolve(order)
        if isinstance(x, LibObj) and x.kind == "flatarr":
            x = x.d["arr"]
            if order not in ("C", None):
                return I.opq("order of an array", x)
        x = self.asarr(x)
        if order in ("C", None):
            return self.reshape(x, shape)
        l = [I.resolve(s) for s in shape]
        if len(l) == 1 and isinstance(l[0], (tuple, LList)):
            l = I.tolist(l[0])
        if order != "F":
            return I.opq("order of an array", x)
        r = self.reshape(self.transpose(x), l[::-1])
        return self.transpose(r) if isinstance(r, Arr) else r

    def m_flatarr(self, o, name, args, kw):
        if name == "reshape":
            return self.reshaped(o, args, kw.get("order", "C"))
        if name in ("copy", "flatten", "ravel"):
            return o
        return MISSING

    def squeeze(self, x):
        keep = [k for k in range(x.a.ndim) if x.a.shape[k] != 1 or x.fam[k] is not None]
        idx = tuple(slice(None) if k in keep else 0 for k in range(x.a.ndim))
        a = x.a[idx]
        if not isinstance(a, np.ndarray):
            return a
        return Arr(a, tuple(x.fam[k] for k in keep), x.dt)

    def expand(self, x, axis):
        k = as_int(axis)
        n = x.a.ndim + 1
        k %= n
        fam = list(x.fam)
        fam.insert(k, None)
        return Arr(np.expand_dims(x.a, k), fam, x.dt)

    def atleast(self, x, n):
        while x.a.ndim < n:
            x = Arr(x.a[None], (None,) + x.fam, x.dt)
        return x

    def np_roll(self, v, shift, axis=None):
        x = self.asarr(v)
        s = as_int(shift)
        ax = self.axisnorm(axis, x.a.ndim) if axis is not None else None
        if s is None or x.famaxes() and (ax is None or x.fam[ax] is not None):
            return self.I.opq("roll", v)
        return self.I.arr(np.roll(x.a, s, axis=ax), x.fam, x.dt)

    def flip(self, x, axis):
        ax = self.axisnorm(axis, x.a.ndim) if axis is not None else None
        if ax == 0 and x.fam and x.fam[0] is not None:
            return self.somerows(x, "reversed")
        if x.famaxes() and (ax is None or x.fam[ax] is not None):
            return self.I.opq("flip", x)
        return Arr(np.flip(x.a, ax), x.fam, x.dt)

    def np_tile(self, v, reps):
        x = self.asarr(v)
        s = self.shape_of(reps)
        if x is None or x.famaxes() or s is None:
            return self.I.opq("tile", v)
        fams = [f for f in s[1] if f is not None]
        r = np.tile(x.a, s[0])
        if fams:
            if s[1][0] is None or any(f is not None for f in s[1][1:]) or len(s[0]) <= x.a.ndim:
                return self.I.opq("tile", v)
            return self.I.arr(r, (s[1][0],) + (None,) * (r.ndim - 1), x.dt)
        return self.I.arr(r, None, x.dt)

    def np_isin(self, a, b, **k):
        I = self.I
        a = I.force(a)
        if is_scalar(a):
            return self.contains(b, a)
        x = self.asarr(a)
        return I.map1(lambda t: self.contains(b, t), x, "b1")

    def triangle(self, v, k, f):
        x = self.asarr(v)
        k = as_int(k)
        if x is None or k is None or x.a.ndim < 2 or any(q is not None for q in x.fam[-2:]):
            return self.I.opq("numpy.triu", v)
        keep = f(np.ones(x.a.shape[-2:], dtype=bool), k)
        return self.I.arr(np.where(keep, x.a, 0), x.fam, x.dt)

    def nonzero(self, v):
        x = self.asarr(v)
        if x is not None and not x.famaxes() and all(isinstance(q, (bool, int)) for q in x.a.reshape(-1)):
            return tuple(self.consts(q) for q in np.nonzero(x.a.astype(bool)))
        return self.I.opq("nonzero", v)

    def np_argmax(self, v, axis=None):
        x = self.asarr(v)
        if x is not None and x.a.ndim == 1 and not x.famaxes() and all(
                isinstance(q, bool) or isinstance(q, T) and tt.sort(q) == tt.BOOL for q in x.a):
            r = tm(0)
            for k in range(x.a.size - 1, -1, -1):
                r = tt.phi(tm(x.a[k]), k, r)
            return self.I.cstval(r)
        return self.I.opq("argmax", v)

    def apply_along_axis(self, func1d, axis, arr, *args, **kw):
        I = self.I
        x = self.asarr(arr)
        if x is None or x.a.ndim != 2:
            return I.opq("apply_along_axis", arr)
        ax = self.axisnorm(axis, 2)
        if ax is None:
            return I.opq("apply_along_axis", arr)
        y = x if ax == 1 else self.transpose(x)
        # every slice is handed to the function as a copy
        out = self.mapseq(lambda r: I.call(func1d, [r] + list(args), kw), Arr(y.a, y.fam, x.dt))
        r = self.fromseq(out)
        if r is None:
            return I.opq("apply_along_axis", arr)
        return r if ax == 1 or r.a.ndim == 1 else self.transpose(r)

    def call_vectorize(self, o, *args, **kw):
        I = self.I
        xs = [self.asarr(a) for a in args]
        if len(xs) == 1 and xs[0].a.ndim == 1:
            return self.fromseq(self.mapseq(lambda r: I.call(o.d["f"], [r], {}), xs[0])) or I.opq("vectorize")
        return I.opq("vectorize", *args)

    def g_finfo(self, o, name):
        t = {"f4": 23, "f2": 10}.get(o.d.get("of"))
        if name in ("eps", "epsilon"):
            return tt.EPS if t is None else tm(Fraction(1, 2 ** t))
        if name in ("resolution", "tiny", "smallest_normal", "max", "min"):
            return tt.sym(f"{name} of {o.d.get('of') or 'f8'}", tt.NUM, name != "min")
        return MISSING

    def attr_lib_r_(self):
        pass

    # ------------------------------------------------------------ array members
    def arr_attr(self, x, name):
        I = self.I
        if name == "T":
            return Arr(x.a.T, x.fam[::-1], x.dt)
        if name == "shape":
            return tuple(tt.famlen(f) if f is not None else n for f, n in zip(x.fam, x.a.shape))
        if name == "ndim":
            return x.a.ndim
        if name == "size":
            n = 1
            for f, k in zip(x.fam, x.a.shape):
                n = I.binop("Mult", n, tt.famlen(f) if f is not None else k)
            return n
        if name == "dtype":
            return LibObj("dtype", tag=x.dt)
        if name in ("real",):
            return x
        if name == "flat":
            r = self.flat(x)
            return r
        if name == "base":
            return None
        if name in ("flags", "nbytes", "itemsize"):
            return LibObj("npflags")
        return Method(x, name)

    def m_arr(self, x, name, args, kw):
        I = self.I
        if name == "copy":
            return I.arr(x.a.copy(), x.fam, x.dt)
        if name == "flatten":
            return self.ordered(x, kw.get("order", args[0] if args else "C"), lambda a: self.flat(a, True))
        if name == "ravel":
            return self.ordered(x, kw.get("order", args[0] if args else "C"), self.flat)
        if name == "fill":
            I.arrstore(x, oarr(I.force(args[0]), ()))
            return None
        if name == "tolist":
            return self.tolist_(x)
        if name == "item":
            if not args and x.a.size == 1 and not x.famaxes():
                return I.cstval(x.a.reshape(-1)[0])
            return self.arr_get(self.flat(x), args[0]) if len(args) == 1 and not isinstance(args[0], tuple) else \
                self.arr_get(x, args[0] if len(args) == 1 else tuple(args))
        if name == "astype":
            d = args[0] if args else kw.get("dtype")
            c = I.resolve(kw.get("copy", True))
            if c is False and self.dtype(d) == x.dt:
                return x
            return self.cast(x, self.dtype(d))
        if name == "reshape":
            return self.reshaped(x, args, kw.get("order", "C"))
        if name == "transpose":
            if not args:
                return self.transpose(x)
            ax = I.tolist(args[0]) if len(args) == 1 and not is_scalar(args[0]) else list(args)
            return self.transpose(x, ax)
        if name == "view":
            t = kw.get("dtype", args[0] if args else None)
            return x if t is None or self.dtype(t) == x.dt else I.opq("view of other numbers", x)
        if name in ("setflags", "tobytes"):
            if name == "tobytes":
                return tt.fn("str:bytes", *I.scalars(x))
            why = I.protected.get(id(root(x.a)))
            if why:
                I.event("mutate", label=why)
            return None
        if name in ("__iadd__", "__isub__", "__imul__", "__itruediv__"):
            op = {"__iadd__": "Add", "__isub__": "Sub", "__imul__": "Mult", "__itruediv__": "Div"}[name]
            return I.inplace(op, x, args[0])
        if name == "sort":
            I.taint_array(x, "sort in place")
            return None
        for lib in ("numpy." + name, "numpy.linalg." + name):
            f = self.TABLE.get(lib)
            if f is not None and name in ("sum", "mean", "max", "min", "any", "all", "dot", "clip", "round", "cumsum",
                                          "prod", "trace", "diagonal", "squeeze", "swapaxes", "take", "argmax",
                                          "nonzero"):
                return self.safe(f, name, [x] + list(args), kw)
        return MISSING

    def tolist_(self, x):
        I = self.I
        if x.fam[0] is not None:
            it = I.sub(x, 0)
            return LList([Splice(x.fam[0], [self.tolist_(it) if isinstance(it, Arr) else it])], I.ctx)
        return LList([self.tolist_(s) if isinstance(s, Arr) else s for s in (I.sub(x, k) for k in range(x.a.shape[0]))],
                     I.ctx)

    def m_scal(self, x, name, args, kw):
        I = self.I
        if name in ("item", "copy", "astype", "squeeze", "conjugate", "flatten", "ravel") and not kw:
            return x
        if name in ("sum", "mean", "max", "min"):
            return x
        if name == "any" or name == "all":
            return I.pyb(I.truth(x))
        if name == "is_integer":
            return tt.fn("cond:is_integer", x)
        return MISSING

    # -------------------------------------------------------------------- hull
    def convexhull(self, points, **kw):
        I = self.I
        x = self.asarr(points)
        if x is None or x.a.ndim != 2 or x.fam[0] is None:
            return I.opq("ConvexHull", points)
        # the hull is a function of the points: same points, same facets
        tok = None
        key = tuple(tm(t) for t in x.a.reshape(-1))
        for k, t in self.hulls:
            if k == key:
                tok = t
        if tok is None:
            tok = len(self.hulls)
            self.hulls.append((key, tok))
        sfx = "" if tok == 0 else str(tok)
        iF, iV = tt.index("F" + sfx), tt.index("V" + sfx)
        saved, I.ctx = I.ctx, I.ctx + (iF,)
        simp = I.arr(oarr([[tt.fn("simp" + sfx, iF, k) for k in range(3)]]), (iF, None), "i8")
        neigh = I.arr(oarr([[tt.fn("neigh" + sfx, iF, k) for k in range(3)]]), (iF, None), "i8")
        eqs = I.arr(oarr([self.planes(x, iF, iV, sfx)]), (iF, None), "f8")
        I.ctx = saved
        vert = I.arr(oarr([tt.fn("vert" + sfx, iV)]), (iV,), "i8")
        return LibObj("hull", I.ctx, points=x, simplices=simp, neighbors=neigh, vertices=vert, equations=eqs,
                      volume=tt.opaque("hull.volume"), area=tt.opaque("hull.area"), nsimplex=tt.famlen(iF),
                      ndim=3, npoints=tt.famlen(x.fam[0]), min_bound=self.reduce(x, 0, lambda ts: ts[0], 0, self.bound("min", 0)),
                      max_bound=self.reduce(x, 0, lambda ts: ts[0], 0, self.bound("max", 0)))

    def bound(self, what, axis):
        """an extreme coordinate of a collection of points: nothing is supposed of it but that it depends on the points"""
        if as_int(self.I.resolve(axis)) == 0:
            return lambda i, t: tt.fn("bound:" + what, tt.lam(i, [t]))
        return lambda i, t: tt.extreme(what, i, t)

    def planes(self, x, iF, iV, sfx):
        """outward unit normal and offset of the plane of a facet"""
        row = [tm(t) for t in x.a.reshape(-1)]
        if len(row) != 3:
            return [tt.opaque("hull.equations", iF, k) for k in range(4)]
        i = x.fam[0]
        A, B, C = ([tt.subst(t, {i: tt.fn("simp" + sfx, iF, k)}) for t in row] for k in range(3))
        n = tt.famlen(iV)
        D = [tt.div(tt.summ(iV, tt.subst(t, {i: tt.fn("vert" + sfx, iV)})), n) for t in row]
        u, v, w = ([tt.sub(p, q) for p, q in zip(X, A)] for X in (B, C, D))
        c = [tt.sub(tt.mul(u[1], v[2]), tt.mul(u[2], v[1])), tt.sub(tt.mul(u[2], v[0]), tt.mul(u[0], v[2])),
             tt.sub(tt.mul(u[0], v[1]), tt.mul(u[1], v[0]))]
        dot = lambda p, q: tt.add(tt.add(tt.mul(p[0], q[0]), tt.mul(p[1], q[1])), tt.mul(p[2], q[2]))
        f = tt.div(tt.phi(tt.gt(dot(c, w), 0), tt.const(-1), tt.const(1)), tt.sqrt(dot(c, c)))
        e = [tt.mul(f, q) for q in c]
        return e + [tt.neg(dot(e, A))]

    def linprog(self, *a, **k):
        c = self.I.opqc("linprog")
        return LibObj("opt", success=c, x=self.I.opq("linprog"), status=self.I.opq("linprog"))


def kwbad(k):
    return any(q not in ("optimize",) for q in k)
