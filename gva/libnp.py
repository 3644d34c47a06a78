"""numpy model (structure handled by numpy itself on object arrays of terms)."""
from fractions import Fraction

import numpy as np

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import (Arr, Guard, LibObj, Lib, LList, Obj, PhiV, Splice, as_int, is_scalar, oarr)

DT = {"float": "f8", "float64": "f8", "double": "f8", "float_": "f8", "longdouble": "f8", "float128": "f8",
      "float32": "f4", "single": "f4", "float16": "f2", "half": "f2", "int": "i8", "int64": "i8", "int32": "i8",
      "intp": "i8", "int_": "i8", "bool": "b1", "bool_": "b1", "object": "O", "d": "f8", "f8": "f8", "f4": "f4",
      "f": "f4", "i": "i8", "uint": "i8", "i8": "i8", "i4": "i8", "int16": "i8", "uint64": "i8", "e": "f2"}


def _sum(ts):
    r = 0
    for t in ts:
        r = tt.add(r, t)
    return r


class NP:
    # ---------------------------------------------------------- conversion
    def dtype(self, d):
        """(tag, known)"""
        d = self.I.resolve(d)
        if d is None:
            return None
        if isinstance(d, Lib):
            return DT.get(d.name.split(".")[-1], "f8")
        if isinstance(d, str):
            return DT.get(d.lstrip("<>="), "f8")
        if isinstance(d, LibObj) and d.kind == "dtype":
            return d.d["tag"]
        return "f8"

    def asarr(self, v, dt=None):
        """array of a value (no copy of arrays), or None"""
        v = self.I.force(v)
        if isinstance(v, Arr):
            return v
        if is_scalar(v):
            d = "i8" if isinstance(v, int) else "f8"
            if isinstance(v, T) and v.op == "fn" and v.args[0].startswith(("cfg", "csv")):
                d = "cfg"
            elif isinstance(v, T) and self.integral(v):
                d = "i8"
            return self.I.arr(oarr(v), (), dt or d)
        if isinstance(v, (tuple, LList)):
            return self.fromseq(v, dt)
        if isinstance(v, LibObj):
            if v.kind == "df":
                return self.df_values(v)
            if v.kind == "cfgval":
                return v.d["arr"]
            if v.kind == "nparray":
                return v.d["arr"]
        if isinstance(v, PhiV):
            a, b = self.asarr(v.a), self.asarr(v.b)
            if a is not None and b is not None:
                r = self.I.force(PhiV(v.c, a, b))
                return r if isinstance(r, Arr) else None
        return None

    def fromseq(self, v, dt=None):
        segs = self.I.segments(v)
        if segs is None:
            return None
        if len(segs) == 1 and segs[0][0] == "fam" and len(segs[0][2]) == 1 and segs[0][3] is None and \
                not isinstance(segs[0][2][0], Guard):
            x = self.asarr(segs[0][2][0])
            if x is None:
                return None
            a = np.empty((1,) + x.a.shape, dtype=object)
            a[0] = x.a if x.a.ndim else x.a[()]
            return self.I.arr(a, (segs[0][1],) + x.fam, x.dt)
        if any(s[0] != "one" for s in segs):
            return None
        rows = [self.asarr(s[1]) for s in segs]
        if any(r is None for r in rows):
            return None
        if not rows:
            return self.I.arr(np.empty((0,), dtype=object), (None,), "f8")
        if len({r.a.shape for r in rows}) != 1 or len({r.fam for r in rows}) != 1:
            return None
        a = np.empty((len(rows),) + rows[0].a.shape, dtype=object)
        for k, r in enumerate(rows):
            a[k] = r.a if r.a.ndim else r.a[()]
        ds = {r.dt for r in rows}
        d = ds.pop() if len(ds) == 1 else "f8"
        return self.I.arr(a, (None,) + rows[0].fam, d)

    def cast(self, x, dt):
        """copy with dtype tag dt"""
        if dt is None or dt == x.dt or dt == "O":
            return self.I.arr(x.a.copy(), x.fam, x.dt)
        w = {"f4": "float32", "f2": "float16"}.get(dt)
        if w:
            return self.I.map1(lambda t: tt.fn(w, t), x, dt)
        if dt == "i8":
            return self.I.map1(lambda t: t if as_int(t) is not None or isinstance(t, T) and self.integral(t)
                               else tt.phi(t, 1, 0) if isinstance(t, T) and tt.sort(t) == tt.BOOL
                               else tt.fn("int", t), x, dt)
        if dt == "b1":
            return self.I.map1(lambda t: tt.truthy(t), x, dt)
        return self.I.arr(x.a.copy(), x.fam, dt)

    def integral(self, t):
        if t.op == "c":
            return isinstance(t.args[1], int)
        if t.op == "fn":
            return t.args[0].startswith(("simp", "neigh", "vert")) or t.args[0] in ("int", "round0", "floor", "ceil", "trunc", "rint", "len")
        if t.op in ("add", "mul", "neg"):
            return all(self.integral(x) for x in t.args)
        if t.op == "phi":
            return self.integral(t.args[1]) and self.integral(t.args[2])
        return t.op == "s" and t.args[3] is not None

    def np_array(self, v, dtype=None, copy=True, ndmin=0, order=None, subok=False, like=None):
        v = self.I.resolve(v)
        if isinstance(v, PhiV):
            return self.I.dist(v, lambda x: self.np_array(x, dtype, copy, ndmin))
        x = self.asarr(v)
        if x is None:
            if isinstance(v, Obj) or v is None:
                a = oarr(v if not isinstance(v, Obj) else 0, ())
            return self.I.opq("np.array", v)
        d = self.dtype(dtype)
        if d is None and isinstance(v, Arr) is False and x.dt == "cfg":
            d = "cfg"
        r = self.cast(x, d)
        while r.a.ndim < (ndmin or 0):
            r = Arr(r.a[np.newaxis], (None,) + r.fam, r.dt)
        return r

    def np_asarray(self, v, dtype=None, order=None, copy=None):
        v = self.I.resolve(v)
        if isinstance(v, PhiV):
            return self.I.dist(v, lambda x: self.np_asarray(x, dtype))
        x = self.asarr(v)
        if x is None:
            return self.I.opq("np.asarray", v)
        d = self.dtype(dtype)
        if isinstance(v, Arr) and (d is None or d == x.dt):
            return v
        if d is None or d == x.dt:
            return x
        return self.cast(x, d)

    def shape_of(self, s):
        """(python shape, fam) of a shape argument"""
        s = self.I.resolve(s)
        if is_scalar(s):
            s = (s,)
        l = self.I.tolist(s)
        if l is None:
            return None
        shp, fam = [], []
        for x in l:
            k = as_int(x)
            if k is not None:
                shp.append(k)
                fam.append(None)
            elif isinstance(x, T) and x.op == "fn" and x.args[0] == "len":
                i = tt.index(x.args[1][0].args[1])
                shp.append(1)
                fam.append(i)
            else:
                return None
        return tuple(shp), tuple(fam)

    def filled(self, shape, val, dtype=None):
        s = self.shape_of(shape)
        if s is None:
            return self.I.opq("array of unknown shape", shape)
        a = np.empty(s[0], dtype=object)
        v = self.I.resolve(val)
        if isinstance(v, (Arr, LList, tuple)):
            src = self.asarr(v)
            if src is None:
                return self.I.opq("np.full", v)
            a[...] = src.a
        else:
            a[...] = v
        return self.I.arr(a, s[1], self.dtype(dtype) or "f8")

    # ----------------------------------------------------------- reductions
    def axisnorm(self, axis, n):
        k = as_int(axis)
        if k is None:
            return None
        return k % n if n else 0

    def reduce(self, x, axis, f, unit, famf, keepdims=False):
        """f: list of scalars -> scalar; famf(i, scalar) reduces a family axis"""
        if axis is None:
            cur = x
            t = f(list(cur.a.reshape(-1))) if cur.a.size else unit
            for i in cur.fam:
                if i is not None:
                    t = famf(i, t)
            return self.I.cstval(tm(t)) if is_scalar(t) else t
        ax = self.I.resolve(axis)
        if isinstance(ax, tuple):
            axes = sorted({self.axisnorm(q, x.a.ndim) for q in ax}, reverse=True)
            r = x
            for q in axes:
                r = self.reduce(r, q, f, unit, famf)
                if not isinstance(r, Arr):
                    break
            return r
        k = self.axisnorm(ax, x.a.ndim)
        if k is None:
            return self.I.opq("axis", x)
        m = np.moveaxis(x.a, k, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for idx in np.ndindex(*m.shape[:-1]):
            t = f(list(m[idx]))
            if x.fam[k] is not None:
                t = famf(x.fam[k], t)
            out[idx] = t
        fam = x.fam[:k] + x.fam[k + 1:]
        if keepdims is True:
            out = np.expand_dims(out, k)
            fam = x.fam[:k] + (None,) + x.fam[k + 1:]
        if out.ndim == 0:
            return self.I.cstval(tm(out[()]))
        return self.I.arr(out, fam, "f8" if x.dt not in ("f4",) else "f4")

    def np_sum(self, v, axis=None, dtype=None, keepdims=False, initial=None, where=True):
        x = self.asarr(v)
        if x is None:
            return self.I.opq("np.sum", v)
        if where is not True:
            x = self.asarr(self.np_where(where, x, 0))
        if dtype is not None:
            x = self.cast(x, self.dtype(dtype))
        if initial is not None:
            r = self.np_sum(x, axis, None, keepdims)
            return self.I.binop("Add", r, initial)
        if x.dt == "b1":
            x = self.I.map1(lambda t: tt.phi(t, 1, 0), x, "i8")
        return self.reduce(x, axis, _sum, 0, tt.summ, self.I.resolve(keepdims))

    def count(self, x, axis):
        n = 1
        for k in range(x.a.ndim):
            if axis is None or k == self.axisnorm(axis, x.a.ndim):
                n = tt.mul(n, tt.famlen(x.fam[k]) if x.fam[k] is not None else x.a.shape[k])
        return n

    def np_mean(self, v, axis=None, dtype=None, keepdims=False):
        x = self.asarr(v)
        if x is not None and dtype is not None:
            x = self.cast(x, self.dtype(dtype))
        if x is None or isinstance(self.I.resolve(axis), tuple):
            return self.I.opq("np.mean", v)
        s = self.np_sum(x, axis, keepdims=keepdims)
        return self.I.binop("Div", s, self.count(x, axis))

    def np_dot(self, a, b, out=None):
        a, b = self.I.force(a), self.I.force(b)
        if is_scalar(a) or is_scalar(b):
            return self.I.binop("Mult", a, b)
        x, y = self.asarr(a), self.asarr(b)
        if x is None or y is None:
            return self.I.opq("dot", a, b)
        if x.a.ndim == 0 or y.a.ndim == 0:
            return self.I.binop("Mult", x, y)
        ky = y.a.ndim - 2 if y.a.ndim > 1 else 0
        fx, fy = x.fam[-1], y.fam[ky]
        if x.a.shape[-1] != y.a.shape[ky] and fx is None and fy is None:
            self.I.misshapen("ValueError", "dot", x, y)
            return self.I.opq("dot", x, y)
        if (fx is None) != (fy is None) or fx is not fy:
            return self.I.opq("dot of unrelated collections", x, y)
        xm = x.a.reshape(-1, x.a.shape[-1])
        ym = np.moveaxis(y.a, ky, -1).reshape(-1, y.a.shape[ky])
        out = np.empty((xm.shape[0], ym.shape[0]), dtype=object)
        for p in range(xm.shape[0]):
            for q in range(ym.shape[0]):
                t = _sum(tt.mul(u, w) for u, w in zip(xm[p], ym[q]))
                if fx is not None:
                    t = tt.summ(fx, t)
                out[p, q] = t
        shp = x.a.shape[:-1] + tuple(s for k, s in enumerate(y.a.shape) if k != ky)
        fam = x.fam[:-1] + tuple(f for k, f in enumerate(y.fam) if k != ky)
        out = out.reshape(shp)
        if out.ndim == 0:
            return self.I.cstval(tm(out[()]))
        return self.I.arr(out, fam)

    def np_matmul(self, a, b):
        return self.np_dot(a, b)

    def np_norm(self, v, ord=None, axis=None, keepdims=False):
        x = self.asarr(v)
        o = as_int(self.I.resolve(ord)) if ord is not None else 2
        if x is None or o != 2:
            return self.I.opq("norm", v)
        s = self.reduce(x, axis, lambda ts: _sum(tt.mul(t, t) for t in ts), 0, tt.summ, self.I.resolve(keepdims))
        if isinstance(s, Arr):
            return self.I.map1(tt.sqrt, s)
        return self.I.cstval(tt.sqrt(s)) if is_scalar(s) else s

    def np_cross(self, a, b, **kw):
        x, y = self.asarr(a), self.asarr(b)
        if x is None or y is None or kw:
            return self.I.opq("cross", a, b)
        if x.a.shape[-1] != 3 or y.a.shape[-1] != 3 or x.fam[-1] is not None or y.fam[-1] is not None:
            return self.I.opq("cross", a, b)
        fam = self.I.famalign([x, y])
        if fam is None:
            return self.I.opq("cross", a, b)
        xa, ya = np.broadcast_arrays(x.a, y.a)
        out = np.empty(xa.shape, dtype=object)
        for idx in np.ndindex(*xa.shape[:-1]):
            u, w = xa[idx], ya[idx]
            out[idx + (0,)] = tt.sub(tt.mul(u[1], w[2]), tt.mul(u[2], w[1]))
            out[idx + (1,)] = tt.sub(tt.mul(u[2], w[0]), tt.mul(u[0], w[2]))
            out[idx + (2,)] = tt.sub(tt.mul(u[0], w[1]), tt.mul(u[1], w[0]))
        return self.I.arr(out, fam)

    def np_outer(self, a, b):
        x, y = self.asarr(a), self.asarr(b)
        if x is None or y is None or x.a.ndim != 1 or y.a.ndim != 1:
            return self.I.opq("outer", a, b)
        return self.I.elementwise(tt.mul, Arr(x.a[:, None], x.fam + (None,), x.dt), Arr(y.a[None], (None,) + y.fam, y.dt))

    def np_where(self, c, a=None, b=None):
        c = self.I.force(c)
        if a is None:
            return self.I.opq("np.where", c)
        if not isinstance(c, Arr):
            if is_scalar(c):
                return self.I.merge(self.I.truth(c), a, b) if not (is_scalar(a) and is_scalar(b)) else \
                    tt.phi(self.I.truth(c), a, b)
        cs, x, y = self.asarr(c), self.asarr(a), self.asarr(b)
        if cs is None or x is None or y is None:
            return self.I.opq("np.where", c, a, b)
        fam = self.I.famalign([cs, x, y])
        if fam is None:
            return self.I.opq("np.where", c, a, b)
        r = np.frompyfunc(lambda q, u, w: tt.phi(tt.truthy(q), u, w), 3, 1)(cs.a, x.a, y.a)
        r = r if isinstance(r, np.ndarray) else oarr(r)
        return self.I.arr(r, fam) if r.ndim else r[()]

    def map(self, f, v, tag):
        v = self.I.force(v)
        if isinstance(v, PhiV):
            return self.I.dist(v, lambda x: self.map(f, x, tag))
        if is_scalar(v):
            return self.I.cstval(tm(f(v)))
        x = self.asarr(v)
        if x is None:
            if v is None:
                self.I.raise_("TypeError")
            return self.I.opq(tag, v)
        return self.I.map1(f, x, "f8" if x.dt in ("i8", "cfg", "b1") else x.dt)

    def clip(self, v, lo, hi):
        r = v
        if lo is not None:
            r = self.ew2(tt.maxv, r, lo)
        if hi is not None:
            r = self.ew2(tt.minv, r, hi)
        return r

    def ew2(self, f, a, b):
        a, b = self.I.force(a), self.I.force(b)
        if is_scalar(a) and is_scalar(b):
            return self.I.cstval(tm(f(a, b)))
        return self.I.elementwise(f, a, b)

    # ------------------------------------------------------------- structure
    def famtrack(self, x, g):
        """apply a structural numpy function to data and to a map of family axes"""
        tag = np.empty(x.a.shape, dtype=object)
        r = g(x.a)
        return r

    def transpose(self, x, axes=None):
        if axes is None:
            return Arr(x.a.T, x.fam[::-1], x.dt)
        ax = [as_int(k) for k in axes]
        return Arr(x.a.transpose(ax), tuple(x.fam[k] for k in ax), x.dt)

    def reshape(self, x, shape):
        l = [self.I.resolve(s) for s in shape]
        if len(l) == 1 and isinstance(l[0], (tuple, LList)):
            l = self.I.tolist(l[0])
        shp, famlens = [], []
        for s in l:
            k = as_int(s)
            if k is None:
                if isinstance(s, T) and s.op == "fn" and s.args[0] == "len":
                    k = "fam"
                else:
                    return self.I.opq("reshape", x)
            shp.append(k)
        fams = [f for f in x.fam if f is not None]
        if not fams:
            try:
                return Arr(x.a.reshape([int(s) for s in shp]), None, x.dt)
            except (ValueError, TypeError):
                self.I.misshapen("ValueError", "reshape", x)
                return self.I.opq("reshape", x)
        if len(fams) == 1 and x.fam[0] is fams[0]:
            # (N, ...) -> (N, ...) : the family axis stays first
            rest = [s for s in shp[1:]]
            if shp[0] in ("fam", -1) and all(isinstance(s, int) for s in rest):
                try:
                    a = x.a.reshape([1] + rest)
                    return Arr(a, (fams[0],) + (None,) * len(rest), x.dt)
                except ValueError:
                    pass
        r = self.reshape_merge(x, shp)
        return r if r is not None else self.reshape_mix(x, shp)

    def reshape_mix(self, x, shp):
        """(c, N) to (N, c) or back, reading row by row: the coordinates of different points are mixed"""
        f = [k for k in range(x.a.ndim) if x.fam[k] is not None]
        c = x.a.shape[1 - f[0]] if len(f) == 1 and x.a.ndim == 2 else 1
        if c < 2 or len(shp) != 2 or shp[1 - f[0]] not in ("fam", -1) or shp[f[0]] not in (c, -1) or shp.count(-1) == 2:
            return self.I.opq("reshape", x)
        i = x.fam[f[0]]
        all_ = tt.summ(i, tt.fn("mixed", i, *x.a.reshape(-1)))
        a = oarr([tt.fn("mix", all_, i, k) for k in range(c)]).reshape((1, c) if f[0] == 1 else (c, 1))
        return self.I.arr(a, (i, None) if f[0] == 1 else (None, i), x.dt)

    def reshape_merge(self, x, shp):
        """C-order reshape in which one -1 absorbs a run of collection axes"""
        if shp.count(-1) != 1 or "fam" in shp:
            return None
        src = [(x.a.shape[k], x.fam[k]) for k in range(x.a.ndim)]
        p = shp.index(-1)
        lo, hi = 0, len(src)
        for s in shp[:p]:
            if lo >= hi or src[lo][1] is not None or src[lo][0] != s:
                return None
            lo += 1
        for s in reversed(shp[p + 1:]):
            if hi <= lo or src[hi - 1][1] is not None or src[hi - 1][0] != s:
                return None
            hi -= 1
        run = [f for _, f in src[lo:hi]]
        if not run or any(f is None for f in run):
            return None
        return self.merge_axes(x, lo, hi)

    def merge_axes(self, x, lo, hi):
        run = x.fam[lo:hi]
        if len(run) == 1:
            return x
        ip = tt.index("*".join(str(f.args[3]) for f in run))
        sub = {f: tt.fn("proj", f.args[3], ip) for f in run}
        a = np.frompyfunc(lambda t: tt.subst(tm(t), sub), 1, 1)(x.a)
        a = a.reshape(x.a.shape[:lo] + (1,) + x.a.shape[hi:])
        return self.I.arr(a, x.fam[:lo] + (ip,) + x.fam[hi:], x.dt)

    def rebase(self, x, fam):
        """rows picked from a collection, put beside the rows of that collection"""
        if x.fam and fam and x.fam != fam and x.fam[1:] == fam[1:] and x.fam[0] is not None and fam[0] is not None and \
                x.fam[0].args[0].startswith("i_") and x.fam[0].args[0].split(".", 1)[1:] == [fam[0].args[0][2:]]:
            a = np.empty(x.a.shape, dtype=object)
            for q, t in enumerate(x.a.reshape(-1)):
                a.reshape(-1)[q] = tt.subst(t, {x.fam[0]: tm(fam[0])}) if isinstance(t, T) else t
            return self.I.arr(a, fam, x.dt)
        return x

    def concat(self, seq, axis=0):
        l = self.I.tolist(seq)
        if l is None:
            return self.I.opq("concatenate", seq)
        xs = [self.asarr(v) for v in l]
        if any(x is None or x.a.ndim == 0 for x in xs):
            return self.I.opq("concatenate", seq)
        k = self.axisnorm(axis, xs[0].a.ndim)
        if len({x.a.ndim for x in xs}) != 1 or k is None:
            self.I.misshapen("ValueError", "concatenate", *xs)
            return self.I.opq("concatenate", *xs)
        if any(x.fam[k] is not None for x in xs):
            return self.I.opq("concatenate along a collection", *xs)
        f0 = xs[0].fam
        xs = [self.rebase(x, f0) for x in xs]
        if any(x.fam != f0 for x in xs):
            return self.I.opq("concatenate of unrelated collections", *xs)
        try:
            r = np.concatenate([x.a for x in xs], axis=k)
        except ValueError:
            self.I.misshapen("ValueError", "concatenate", *xs)
            return self.I.opq("concatenate", *xs)
        ds = {x.dt for x in xs}
        return self.I.arr(r, f0, ds.pop() if len(ds) == 1 else "f8")

    def stack(self, seq, axis=0):
        x = self.asarr(seq)
        if x is None:
            return self.I.opq("stack", seq)
        k = self.axisnorm(axis, x.a.ndim)
        r = np.moveaxis(x.a, 0, k)
        fam = list(x.fam)
        f = fam.pop(0)
        fam.insert(k, f)
        return Arr(r, fam, x.dt)

    # --------------------------------------------------------------- indexing
    def normindex(self, x, i):
        if isinstance(i, tuple) and i and i[0] == "idx":
            i = list(i[1:])
        elif isinstance(i, tuple) and not (len(i) == 4 and i[0] == "slice"):
            i = list(i)
        else:
            i = [i]
        i = [self.I.force(k) for k in i]
        n = sum(1 for k in i if k is not None and k is not Ellipsis and not self.isnewaxis(k))
        out = []
        for k in i:
            if k is Ellipsis:
                out += [("slice", None, None, None)] * (x.a.ndim - n)
            else:
                out.append(k)
        used = sum(1 for k in out if not self.isnewaxis(k))
        out += [("slice", None, None, None)] * (x.a.ndim - used)
        return out

    def isboolidx(self, k):
        ks = self.asarr(k) if not (isinstance(k, LList) and k.kind == "masked") else None
        return ks is not None and ks.a.ndim == 1 and (ks.dt == "b1" or ks.a.size and all(
            isinstance(q, bool) or isinstance(q, T) and tt.sort(q) == tt.BOOL for q in ks.a))

    def isnewaxis(self, k):
        return k is None or isinstance(k, Lib) and k.name.endswith("newaxis")

    def arr_get(self, x, i):
        parts = self.normindex(x, i)
        if sum(1 for k in parts if not self.isnewaxis(k)) > x.a.ndim:
            self.I.misshapen("IndexError", "index", x)
            return self.I.opq("index", x)
        # apply right-to-left so that axis numbers stay valid; only one fancy index supported
        fancy = [k for k in parts if isinstance(k, (Arr, LList)) or
                 isinstance(k, tuple) and not (k and k[0] == "slice")]
        if len(fancy) > 1:
            cl = []
            for k in parts:
                if isinstance(k, (Arr, LList, tuple)) and not (isinstance(k, tuple) and k and k[0] == "slice"):
                    ka = self.asarr(k)
                    cl.append(None if ka is None else [as_int(q) for q in ka.a.reshape(-1)])
            if all(c is not None and all(q is not None for q in c) for c in cl) and \
                    all(isinstance(k, (Arr, LList, tuple)) and not (isinstance(k, tuple) and k[0] == "slice")
                        for k in parts) and not x.famaxes():
                r = x.a[tuple(np.array(c) for c in cl)]
                return self.I.arr(r.copy(), None, x.dt)
            return self.I.opq("fancy index", x)
        if fancy and fancy[0] is parts[0] and len(parts) > 1 and not all(self.fullslice(k) for k in parts[1:]) \
                and self.isboolidx(fancy[0]):
            # rows selected by condition, then a fixed part of each row
            y = self.arr_get(x, ("idx", ("slice", None, None, None), *parts[1:]))
            return self.arr_get(y, fancy[0]) if isinstance(y, Arr) else self.I.opq("boolean index", x)
        a, fam = x.a, list(x.fam)
        axis = 0
        view = True
        for k in parts:
            if self.isnewaxis(k):
                a = np.expand_dims(a, axis)
                fam.insert(axis, None)
                axis += 1
                continue
            f = fam[axis]
            if isinstance(k, tuple) and k and k[0] == "slice":
                lo, hi, st = (self.I.resolve(q) for q in k[1:])
                if lo is None and hi is None and st is None:
                    axis += 1
                    continue
                if f is not None:
                    if st is None and (lo is None or as_int(lo) == 0) and isinstance(hi, T) and hi is tt.famlen(f):
                        axis += 1
                        continue
                    if lo is None and hi is None and as_int(st) == -1:
                        if axis == 0 and f is x.fam[0]:
                            x2 = self.somerows(x, "reversed")
                            return self.arr_get(x2, ("idx", ("slice", None, None, None), *parts[1:])) if len(parts) > 1 else x2
                        return self.I.opq("reversed collection", x)
                    return self.I.opq("slice of a collection", x, lo if is_scalar(lo) else 0)
                b = []
                for q in (lo, hi, st):
                    if q is None:
                        b.append(None)
                    elif as_int(q) is not None:
                        b.append(as_int(q))
                    else:
                        return self.I.opq("slice", x, q)
                a = a[(slice(None),) * axis + (slice(*b),)]
                axis += 1
            elif is_scalar(k):
                n = as_int(k)
                if f is None:
                    if n is not None:
                        if not -a.shape[axis] <= n < a.shape[axis]:
                            self.I.misshapen("IndexError", "index", x)
                            return self.I.opq("index out of range", x)
                        a = a[(slice(None),) * axis + (n,)]
                        if not isinstance(a, np.ndarray):
                            a = oarr(a, ())
                    else:
                        # symbolic index of a short axis: gate over the positions
                        m = np.moveaxis(a, axis, 0)
                        r = m[-1].copy() if isinstance(m[-1], np.ndarray) else oarr(m[-1], ())
                        for q in range(m.shape[0] - 2, -1, -1):
                            c = tt.eq(k, q)
                            cur = m[q] if isinstance(m[q], np.ndarray) else oarr(m[q], ())
                            r = np.frompyfunc(lambda u, w: tt.phi(c, u, w), 2, 1)(cur, r)
                            if not isinstance(r, np.ndarray):
                                r = oarr(r, ())
                        a, view = r, False
                    del fam[axis]
                else:
                    if k is f:
                        a = a[(slice(None),) * axis + (0,)]
                        if not isinstance(a, np.ndarray):
                            a = oarr(a, ())
                    else:
                        j = tm(k)
                        if n is not None and n < 0:
                            j = tt.add(tt.famlen(f), n)
                        sub_ = a[(slice(None),) * axis + (0,)]
                        sub_ = sub_ if isinstance(sub_, np.ndarray) else oarr(sub_, ())
                        a = np.frompyfunc(lambda t: tt.subst(t, {f: j}) if isinstance(t, T) else t, 1, 1)(sub_)
                        a = a if isinstance(a, np.ndarray) else oarr(a, ())
                        view = False
                    del fam[axis]
            else:
                r = self.fancy(a, fam, axis, k, x)
                if not isinstance(r, tuple):
                    return r
                a, fam, nd = r
                axis += nd
                view = False
        if a.ndim == 0:
            v = a[()]
            return self.I.cstval(v) if is_scalar(v) else v
        if view:
            return Arr(a, fam, x.dt)
        return self.I.arr(a, fam, x.dt)

    def fancy(self, a, fam, axis, k, x):
        """returns (array, fam, number of axes the index produced)"""
        ks = self.asarr(k) if not (isinstance(k, LList) and k.kind == "masked") else None
        if ks is None:
            return self.I.opq("fancy index", x)
        f = fam[axis]
        isbool = ks.dt == "b1" or ks.a.size and all(
            isinstance(q, bool) or isinstance(q, T) and tt.sort(q) == tt.BOOL for q in ks.a.reshape(-1))
        if isbool:
            if ks.a.ndim != 1:
                return self.I.opq("boolean index", x)
            if f is not None:
                if ks.fam[0] is not f:
                    return self.I.opq("boolean index", x)
                # selected elements of a collection
                if axis == 0:
                    row = self.I.arr(a[0].copy(), fam[1:], x.dt) if a.ndim > 1 else a[0]
                    return LList([Splice(f, [Guard(tm(ks.a[0]), row)])], self.I.ctx, "masked")
                return self.I.opq("boolean index", x)
            if all(isinstance(q, bool) for q in ks.a):
                r = a[(slice(None),) * axis + (np.array([bool(q) for q in ks.a]),)]
                return r.copy(), fam, 1
            if axis == 0:
                items = []
                for q in range(a.shape[0]):
                    row = self.I.arr(a[q].copy(), fam[1:], x.dt) if a.ndim > 1 else a[q]
                    items.append(Guard(tm(ks.a[q]), row))
                return LList(items, self.I.ctx, "masked")
            return self.I.opq("boolean index", x)
        if f is not None:
            base = np.moveaxis(a, axis, 0)[0]
            base = base if isinstance(base, np.ndarray) else oarr(base, ())
            out = np.empty(ks.a.shape + base.shape, dtype=object)
            for idx in np.ndindex(*ks.a.shape):
                j = tm(ks.a[idx])
                n = as_int(j)
                if n is not None and n < 0:
                    j = tt.add(tt.famlen(f), n)
                r = np.frompyfunc(lambda t: tt.subst(t, {f: j}) if isinstance(t, T) else t, 1, 1)(base)
                out[idx] = r
            nfam = list(ks.fam) + [g for q, g in enumerate(fam) if q != axis]
            if axis != 0:
                for q in range(ks.a.ndim):
                    out = np.moveaxis(out, ks.a.ndim - 1, ks.a.ndim - 1 + axis)
                    g = nfam.pop(ks.a.ndim - 1)
                    nfam.insert(ks.a.ndim - 1 + axis, g)
                if ks.a.ndim != 1:
                    return self.I.opq("fancy index", x)
            return out, nfam, ks.a.ndim
        ints = [as_int(q) for q in ks.a.reshape(-1)]
        if all(q is not None for q in ints):
            try:
                r = np.take(a, np.array(ints, dtype=int).reshape(ks.a.shape), axis=axis)
            except IndexError:
                self.I.misshapen("IndexError", "index", x)
                return self.I.opq("index out of range", x)
            return r, fam[:axis] + list(ks.fam) + fam[axis + 1:], ks.a.ndim
        # symbolic indices into a short axis
        m = np.moveaxis(a, axis, 0)
        if axis != 0:
            return self.I.opq("fancy index", x)
        out = np.empty(ks.a.shape + m.shape[1:], dtype=object)
        for idx in np.ndindex(*ks.a.shape):
            out[idx] = self.arr_get(Arr(a, fam, x.dt), ks.a[idx]).a if m.ndim > 1 else \
                self.arr_get(Arr(a, fam, x.dt), ks.a[idx])
        return out, list(ks.fam) + fam[1:], ks.a.ndim

    def arr_set(self, x, i, v):
        parts = self.normindex(x, i)
        basic = all(self.isnewaxis(k) or isinstance(k, tuple) and k and k[0] == "slice" or is_scalar(k)
                    for k in parts)
        v = self.I.force(v)
        if isinstance(v, PhiV):
            self.I.dist(v, lambda y: self.arr_set(x, i, y))
            return
        if not basic:
            masks = [k for k in parts if not (isinstance(k, tuple) and k and k[0] == "slice") and not is_scalar(k)]
            k = masks[0]
            ks = self.asarr(k)
            if ks is not None and len(masks) == 1 and parts[0] is k and ks.a.size and \
                    all(isinstance(q, bool) or isinstance(q, T) and tt.sort(q) == tt.BOOL for q in ks.a.reshape(-1)) \
                    and (is_scalar(v) or isinstance(v, LList) and v.kind == "masked"):
                if is_scalar(v):
                    # masked store of a scalar
                    if ks.a.shape == x.a.shape[:ks.a.ndim] and tuple(ks.fam) == tuple(x.fam[:ks.a.ndim]):
                        new = x.a.copy()
                        more = x.a.ndim - ks.a.ndim
                        sub_ = tuple(self.rest_index(parts[1:][-more:] if more else []))
                        for idx in np.ndindex(*ks.a.shape):
                            tgt = idx + sub_ if sub_ else idx
                            cur = new[tgt]
                            c = tm(ks.a[idx])
                            new[tgt] = np.frompyfunc(lambda u: tt.phi(c, v, u), 1, 1)(cur)
                        self.I.arrstore(x, new)
                        return
                elif len(v.items) == ks.a.size and ks.a.ndim == 1 and x.fam[0] is None and len(v.items) == x.a.shape[0] \
                        and all(isinstance(g, Guard) and g.c is tm(q) for g, q in zip(v.items, ks.a)) and not any(
                        not self.fullslice(p) and not is_scalar(p) for p in parts[1:]):
                    new = x.a.copy()
                    sub_ = tuple(self.rest_index(parts[1:]))
                    for q, it in enumerate(v.items):
                        c = it.c
                        val = it.v.a if isinstance(it.v, Arr) else it.v
                        new[(q,) + sub_] = np.frompyfunc(lambda u, w: tt.phi(c, w, u), 2, 1)(new[(q,) + sub_], val)
                    self.I.arrstore(x, new)
                    return
                elif len(v.items) == 1 and isinstance(v.items[0], Splice) and not any(
                        not self.fullslice(p) and not is_scalar(p) for p in parts[1:]):
                    it = v.items[0].items[0]
                    if isinstance(it, Guard) and it.c is tm(ks.a.reshape(-1)[0]) and x.fam[0] is v.items[0].i:
                        new = x.a.copy()
                        sub_ = tuple(self.rest_index(parts[1:]))
                        c = it.c
                        val = it.v.a if isinstance(it.v, Arr) else it.v
                        tgt = (0,) + sub_
                        new[tgt] = np.frompyfunc(lambda u, w: tt.phi(c, w, u), 2, 1)(new[tgt], val)
                        self.I.arrstore(x, new)
                        return
            if ks is not None and len(masks) == 1 and parts[0] is k and not x.famaxes() and \
                    all(as_int(q) is not None for q in ks.a.reshape(-1)):
                new = x.a.copy()
                src = self.asarr(v)
                if src is not None:
                    try:
                        new[(np.array([as_int(q) for q in ks.a.reshape(-1)]).reshape(ks.a.shape),) +
                            tuple(self.rest_index(parts[1:]))] = src.a
                        self.I.arrstore(x, new)
                        return
                    except (ValueError, IndexError):
                        pass
            cs = [self.asarr(k) for k in masks]
            if len(masks) > 1 and not x.famaxes() and not any(self.isnewaxis(k) for k in parts) and \
                    all(c is not None and not c.famaxes() and all(as_int(q) is not None for q in c.a.reshape(-1)) for c in cs):
                # several arrays of positions
                src = self.asarr(v)
                idx = [np.array([as_int(q) for q in self.asarr(k).a.reshape(-1)]).reshape(self.asarr(k).a.shape)
                       if any(k is m for m in masks) else self.rest_index([k])[0] for k in parts]
                if src is not None and not src.famaxes():
                    new = x.a.copy()
                    try:
                        new[tuple(idx)] = src.a
                        self.I.arrstore(x, new)
                        return
                    except (ValueError, IndexError):
                        pass
            self.I.taint_array(x, "fancy assignment")
            return
        view = self.arr_get(x, i)
        if isinstance(view, T) and view.op == "fn" and view.args[0].startswith("?") and \
                not self.scalar_target(x, parts):
            self.I.taint_array(x, "assignment")
            return
        src = self.asarr(v)
        if src is None:
            self.I.taint_array(x, "assignment of an unknown value")
            return
        if not isinstance(view, Arr):
            # scalar element
            cidx = []
            for k, f in zip([p for p in parts if not self.isnewaxis(p)], x.fam):
                n = as_int(k)
                if f is not None:
                    if k is not f:
                        self.I.taint_array(x, "assignment to one element of a collection")
                        return
                    n = 0
                if n is None:
                    self.I.taint_array(x, "assignment at a symbolic index")
                    return
                cidx.append(n)
            sl = tuple(slice(n, n + 1 or None) for n in cidx)
            self.I.arrstore(Arr(x.a[sl], None, x.dt), src.a.reshape((1,) * x.a.ndim) if src.a.size == 1 else src.a)
            return
        if any(f is not None and is_scalar(k) and k is not f for k, f in
               zip([p for p in parts if not self.isnewaxis(p)], x.fam)):
            self.I.taint_array(x, "assignment to one element of a collection")
            return
        if any(x.fam[q] is None and is_scalar(k) and as_int(k) is None for q, k in
               enumerate([p for p in parts if not self.isnewaxis(p)])):
            self.I.taint_array(x, "assignment at a symbolic index")
            return
        if self.I.famalign([view, src]) is None or any(
                f is not None and view.fam[len(view.fam) - len(src.fam) + q] is None
                for q, f in enumerate(src.fam)):
            self.I.taint_array(x, "assignment of an unrelated collection")
            return
        try:
            self.I.arrstore(view, np.broadcast_to(src.a, view.a.shape))
        except ValueError:
            self.I.misshapen("ValueError", "broadcast", view, src)

    def fullslice(self, k):
        return isinstance(k, tuple) and len(k) == 4 and k[0] == "slice" and k[1] is None and k[2] is None

    def scalar_target(self, x, parts):
        return all(is_scalar(k) for k in parts)

    def rest_index(self, parts):
        out = []
        for k in parts:
            if isinstance(k, tuple) and k and k[0] == "slice":
                out.append(slice(*[None if q is None else as_int(q) for q in k[1:]]))
            else:
                out.append(as_int(k))
        return out
