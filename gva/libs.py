"""Library model: builtins, containers, strings; dispatch to the other models."""
import inspect
import os
import builtins as _b
from fractions import Fraction

import numpy as np

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import (MISSING, NT, Arr, Bound, Cls, Frame, Func, Guard, LDict, Lib, LibObj, LList, Method, ModuleV, Obj,
                     Partial, PhiV, Splice, as_int, is_scalar, named, oarr)
from .libnp import NP
from .libnp2 import NP2
from .libx import LibX

SCALARFN = {"float", "int", "complex"}


def key_of(k):
    """hashable form of a concrete dictionary key, or MISSING"""
    if isinstance(k, bool) or k is None:
        return ("lit", k)
    if isinstance(k, (int, str)):
        return k
    if isinstance(k, Fraction):
        return k
    if isinstance(k, Obj):
        if k.cls.strenum and isinstance(k.attrs.get("value"), str):
            return k.attrs["value"]
        return ("obj", id(k))
    if isinstance(k, (Cls, Func)):
        return ("obj", id(k))
    if isinstance(k, Lib):
        return ("lib", k.name)
    if isinstance(k, T):
        if k.op == "c":
            return key_of(k.args[1])
        return MISSING
    if isinstance(k, tuple):
        r = tuple(key_of(x) for x in k)
        return MISSING if any(x is MISSING for x in r) else ("tuple", r)
    return MISSING


class Libs(NP, NP2, LibX):
    BUILTINS = {n for n in dir(_b) if not n.endswith(("Error", "Exception", "Warning", "Exit", "Interrupt"))
                and not n.startswith("_")} | {"__name__", "__import__"}
    BUILTINS -= {"StopIteration", "StopAsyncIteration"}

    def __init__(self, I):
        self.I = I
        self.init_np2()
        self.init_x()

    # -------------------------------------------------------------- dispatch
    def call(self, name, args, kw):
        I = self.I
        if name.startswith("builtins."):
            m = getattr(self, "b_" + name[9:].replace(".", "_"), None)
            if m is not None:
                return self.safe(m, name, args, kw)
            from .interp import BUILTIN_EXC
            if name[9:] in BUILTIN_EXC:
                return LibObj("exc", name=name[9:], args=tuple(args))
            return I.opq(name, *args)
        from .interp import BUILTIN_EXC
        if name in BUILTIN_EXC or name.split(".")[-1] in BUILTIN_EXC or name.endswith(("Error", "Exception", ".Exit")):
            n = name if name in BUILTIN_EXC else name.split(".")[-1]
            return LibObj("exc", name=n, args=tuple(args), kw=dict(kw))
        f = self.TABLE.get(name)
        if f is not None:
            if kw and name.startswith("numpy."):
                return self.npkeywords(f, name, args, dict(kw))
            return self.safe(f, name, args, kw)
        r = self.xcall(name, args, kw)
        if r is not MISSING:
            return r
        return I.opq(name, *args, *kw.values())

    ANYKW = {"numpy.clip", "numpy.apply_along_axis", "numpy.vectorize", "numpy.errstate", "numpy.seterr", "numpy.set_printoptions",
             "numpy.testing.assert_allclose", "numpy.loadtxt", "numpy.genfromtxt", "numpy.savetxt", "numpy.nansum", "numpy.arange"}
    DROPKW = {"order", "subok", "casting", "copy", "like", "names", "equal_nan", "assume_unique", "kind", "optimize", "rtol", "atol",
              "signature"}

    def npkeywords(self, f, name, args, kw):
        """a numpy function with options: those it does not name are handled here, or make the result unknown"""
        I = self.I
        ps = inspect.signature(f).parameters.values()
        known = {p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
        anykw = any(p.kind == p.VAR_KEYWORD for p in ps)
        if name in self.ANYKW or not anykw:
            return self.safe(f, name, args, kw)
        where = None
        for k in list(kw):
            if k in known or k == "out":
                continue
            v = I.resolve(kw[k])
            if k == "where":
                where = kw.pop(k)
            elif k in self.DROPKW or v is None or k == "keepdims" and v is False or k == "dtype" and self.dtype(v) == "f8":
                kw.pop(k)
            else:
                return I.opq(f"{name} with {k}", *args, v)
        plain = where is None or I.resolve(where) is True
        if plain and ("out" in known or "out" not in kw):
            return self.safe(f, name, args, kw)
        o = I.resolve(kw.pop("out", None))
        if isinstance(o, (tuple, LList)):
            o = I.resolve((I.tolist(o) or [None])[0])
        r = self.safe(f, name, args, kw)
        r = r if plain else self.np_where(where, r, o if o is not None else I.opq("memory not written"))
        if isinstance(o, Arr) and isinstance(I.resolve(r), Arr):
            I.arrstore(o, I.resolve(r).a)
            return o
        return r

    def safe(self, f, name, args, kw):
        from .interp import Splice_arg, AnalysisError
        I = self.I
        if any(isinstance(a, Splice_arg) for a in args):
            if name == "builtins.zip" and len(args) == 1:
                z = self.zipstar(args[0].v)
                if z is not None:
                    return z
            return I.opq(name + " with a collection of arguments", *[a.v if isinstance(a, Splice_arg) else a
                                                                    for a in args])
        try:
            return f(*args, **kw)
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError) as e:
            if I.opts.get("debug"):
                raise
            if os.environ.get("GVA_TRACE"):
                import traceback
                traceback.print_exc()
            return I.opq(f"{name} ({type(e).__name__})", *args, *kw.values())

    def method(self, obj, name, args, kw):
        I = self.I
        obj = I.resolve(obj)
        if isinstance(obj, PhiV):
            return I.dist(obj, lambda o: self.method(o, name, args, kw))
        kind = {Arr: "arr", LList: "list", LDict: "dict", str: "str", tuple: "tup", T: "scal", int: "scal",
                Fraction: "scal", Func: "fun"}.get(type(obj))
        if isinstance(obj, LibObj):
            kind = obj.kind
        if isinstance(obj, T) and tt.sort(obj) == tt.STR:
            kind = "str"
        m = getattr(self, f"m_{kind}_{name}", None)
        if m is not None:
            return self.safe(lambda *a, **k: m(obj, *a, **k), f"{kind}.{name}", args, kw)
        m = getattr(self, f"m_{kind}", None)
        if m is not None:
            r = m(obj, name, args, kw)
            if r is not MISSING:
                return r
        return I.opq(f"{kind}.{name}()", obj, *args)

    def callobj(self, o, args, kw):
        m = getattr(self, "call_" + o.kind, None)
        if m is not None:
            return self.safe(lambda *a, **k: m(o, *a, **k), "call " + o.kind, args, kw)
        return self.I.opq("call " + o.kind, *args)

    # ------------------------------------------------------------ attributes
    def attr(self, lib, name):
        full = f"{lib.name}.{name}"
        if full in self.CONSTS:
            c = self.CONSTS[full]
            return c(self) if callable(c) else c
        r = self.xattr(lib, name)
        if r is not MISSING:
            return r
        return Lib(full)

    def getattr(self, o, name):
        I = self.I
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, LibObj):
            m = getattr(self, f"g_{o.kind}", None)
            if m is not None:
                r = m(o, name)
                if r is not MISSING:
                    return r
            if name in o.d and not name.startswith("_"):
                return o.d[name]
            return Method(o, name)
        if isinstance(o, T) and o.op == "fn" and o.args[0].startswith("?"):
            # value without a model
            return I.opq("attribute " + name, o)
        if is_scalar(o) and not isinstance(o, str):
            if name in ("real", "T"):
                return o
            if name in ("size",):
                return 1
            if name == "ndim":
                return 0
            if name == "shape":
                return ()
            return Method(o, name)
        if isinstance(o, (str, T, LList, LDict, tuple)):
            ty = str if isinstance(o, str) else tuple if isinstance(o, tuple) else \
                dict if isinstance(o, LDict) and not getattr(o, "kind", "") else \
                list if isinstance(o, LList) and o.kind == "list" else None
            if ty is not None and not hasattr(ty, name) and not (ty is dict and name in ("move_to_end", "default_factory")) \
                    and not (ty is dict and hasattr(__import__("collections").Counter, name)):
                I.raise_("AttributeError", what=name)
                return I.opq("attribute " + name)
            return Method(o, name)
        if isinstance(o, Func):
            import ast
            import types
            if not hasattr(types.FunctionType, name) and not getattr(o, "attrset", False) and \
                    all(ast.unparse(d).endswith(".command()") for d in getattr(o.node, "decorator_list", [])):
                I.raise_("AttributeError", what=name)
        if o is None:
            I.raise_("AttributeError", what=name)
            return I.opq("attribute of None")
        return I.opq("attribute " + name)

    def setattr(self, o, name, v):
        I = self.I
        if isinstance(o, LibObj):
            m = getattr(self, f"sa_{o.kind}", None)
            if m is not None and m(o, name, v):
                return
            I.setcell(o.d, name, v)
        elif isinstance(o, Func):
            o.attrset = True
        elif isinstance(o, Lib):
            I.event("lib_write", name=f"{o.name}.{name}")
        elif isinstance(o, Arr) and name == "shape":
            I.opq("shape assignment")
        elif o is None:
            I.raise_("AttributeError", what=name)
        else:
            I.opq("attribute assignment " + name)

    # -------------------------------------------------------------- subscripts
    def getitem(self, o, i):
        I = self.I
        o = I.resolve(o)
        i = I.resolve(i) if not isinstance(i, tuple) else i
        if isinstance(o, PhiV):
            return I.dist(o, lambda x: self.getitem(x, i))
        if isinstance(o, Arr):
            if isinstance(i, PhiV):
                i2 = I.force(i)
                if isinstance(i2, PhiV):
                    return I.dist(i, lambda k: self.getitem(o, k))
                i = i2
            if isinstance(i, Obj) or isinstance(i, str):
                I.raise_("IndexError")
                return I.opq("index", o)
            return self.arr_get(o, i)
        if isinstance(i, PhiV):
            i2 = I.force(i)
            if isinstance(i2, PhiV):
                return I.dist(i, lambda k: self.getitem(o, k))
            i = i2
        if isinstance(o, LList):
            return self.list_get(o, i)
        if isinstance(o, tuple):
            if isinstance(i, tuple) and i and i[0] == "slice":
                b = [None if q is None else as_int(I.resolve(q)) for q in i[1:]]
                return o[slice(*b)]
            k = as_int(i)
            if k is None:
                x = self.asarr(o)
                if x is not None and is_scalar(i):
                    return self.arr_get(x, i)
                return I.opq("tuple index", o, i)
            if not -len(o) <= k < len(o):
                I.raise_("IndexError")
                return I.opq("index out of range")
            return o[k]
        if isinstance(o, str):
            if isinstance(i, tuple) and i[0] == "slice":
                b = [None if q is None else as_int(I.resolve(q)) for q in i[1:]]
                return o[slice(*b)]
            k = as_int(i)
            return o[k] if k is not None and -len(o) <= k < len(o) else I.opq("string index")
        if isinstance(o, LDict):
            return self.dict_get(o, i)
        if isinstance(o, Cls) and o.enum:
            k = i if isinstance(i, str) else None
            if k is not None:
                if k in o.members:
                    return o.members[k]
                I.raise_("KeyError")
                return I.opq("enum key")
            out, seen = None, FALSE
            for n, m in reversed(list(o.members.items())):
                c = tt.eq(i, n)
                out = m if out is None else I.merge(c, m, out)
                seen = tt.orc(seen, c)
            I.raise_("KeyError", tt.notc(seen))
            return out
        if isinstance(o, (Cls, Lib)):
            if isinstance(o, Lib):
                r = self.xgetitem(o, i)
                if r is not MISSING:
                    return r
            return o                    # generic alias
        if isinstance(o, LibObj):
            m = getattr(self, f"gi_{o.kind}", None)
            if m is not None:
                return m(o, i)
            return I.opq(f"{o.kind}[]", *([i] if is_scalar(i) or isinstance(i, str) else []))
        if isinstance(o, Obj):
            f, _ = o.cls.find("__getitem__")
            if f is not MISSING:
                return I.call(f, [o, i], {})
        if isinstance(o, T):
            return I.opq("subscript", o)
        if o is None:
            I.raise_("TypeError")
        return I.opq("subscript")

    def setitem(self, o, i, v):
        I = self.I
        o = I.resolve(o)
        if isinstance(o, Arr):
            self.arr_set(o, i, v)
            return
        if isinstance(o, LDict):
            self.dict_set(o, i, v)
            return
        if isinstance(o, LList):
            k = as_int(i) if not isinstance(i, tuple) else None
            items = list(o.items)
            if k is not None and o.plain() and -len(items) <= k < len(items):
                items[k] = v
                I.setcell(o.cells, "items", items)
                return
            if isinstance(i, tuple) and i and i[0] == "slice" and o.plain():
                vals = I.tolist(v)
                b = [None if q is None else as_int(I.resolve(q)) for q in i[1:]]
                if vals is not None:
                    try:
                        items[slice(*b)] = vals
                        I.setcell(o.cells, "items", items)
                        return
                    except (ValueError, TypeError):
                        pass
            if len(items) == 1 and isinstance(items[0], Splice) and is_scalar(i) and tm(i) is items[0].i and \
                    len(items[0].items) == 1 and not isinstance(items[0].items[0], Guard):
                I.setcell(o.cells, "items", [Splice(items[0].i, [v], items[0].cond)])
                return
            I.setcell(o.cells, "items", [I.opq("list element replaced")])
            return
        if isinstance(o, LibObj):
            m = getattr(self, f"si_{o.kind}", None)
            if m is not None:
                m(o, i, v)
                return
        if isinstance(o, Obj):
            f, _ = o.cls.find("__setitem__")
            if f is not MISSING:
                I.call(f, [o, i, v], {})
                return
        if o is None or isinstance(o, (tuple, str)):
            I.raise_("TypeError")
            return
        I.opq("subscript assignment")

    def delitem(self, o, i):
        I = self.I
        if isinstance(o, LDict):
            k = key_of(i)
            if k is not MISSING and k in o.cells:
                I.setcell(o.cells, k, MISSING)
                return
        if isinstance(o, LList) and o.plain() and not isinstance(i, tuple) and as_int(i) is not None:
            items = list(o.items)
            del items[as_int(i)]
            I.setcell(o.cells, "items", items)
            return
        I.opq("del item")

    def list_get(self, o, i):
        I = self.I
        items = o.items
        if isinstance(i, tuple) and i and i[0] == "slice":
            lo, hi, st = (I.resolve(q) for q in i[1:])
            if lo is None and hi is None and st is None:
                return LList(items, I.ctx, o.kind)
            if o.plain():
                b = [None if q is None else as_int(q) for q in (lo, hi, st)]
                if all(x is not None or q is None for x, q in zip(b, (lo, hi, st))):
                    return LList(items[slice(*b)], I.ctx)
            k = as_int(lo) if lo is not None else 0
            if hi is None and st is None and k is not None and k >= 0 and len(items) > k and \
                    not any(isinstance(x, (Guard, Splice)) for x in items[:k]):
                return LList(items[k:], I.ctx)
            if lo is None and hi is None and st is not None and as_int(st) == -1:
                r = self.reorder(o, I.segments(o), "reversed")
                if r is not None:
                    return r
            return I.opq("list slice", o)
        if isinstance(i, (tuple, Arr, LList)):
            if isinstance(i, Arr) or isinstance(i, LList) and o.kind == "masked":
                x = self.asarr(o)
                if x is not None:
                    return self.arr_get(x, i)
            I.raise_("TypeError")
            return I.opq("list index")
        k = as_int(i) if is_scalar(i) else None
        if o.plain():
            if k is not None:
                if not -len(items) <= k < len(items):
                    I.raise_("IndexError")
                    return I.opq("list index out of range")
                return items[k]
            if not items:
                I.raise_("IndexError")
                return I.opq("empty list")
            if is_scalar(i):
                out = items[-1]
                for q in range(len(items) - 2, -1, -1):
                    out = I.merge(tt.eq(i, q), items[q], out)
                return out
            return I.opq("list index", o)
        if k is not None and 0 <= k < len(items) and not any(isinstance(x, (Guard, Splice)) for x in items[:k + 1]):
            return items[k]
        if len(items) == 1 and isinstance(items[0], Splice) and len(items[0].items) == 1 and \
                items[0].cond is None and is_scalar(i):
            s = items[0]
            it = s.items[0]
            if isinstance(it, Guard):
                if k == 0:
                    return self.first_match(s.i, it.c, it.v)
                if k == -1:
                    return self.last_match(s.i, it.c, it.v)
                return I.opq("element of a selection", i)
            j = tm(i)
            if j is s.i:
                return it
            if k is not None and k < 0:
                j = tt.add(tt.famlen(s.i), k)
            if k is not None and k in (0, -1):
                I.raise_("IndexError", tt.eq(tt.famlen(s.i), 0))
            return I.foreign(it, s.i, j)
        if k is not None and k >= 0 and all(isinstance(x, Guard) for x in items):
            # k-th present entry
            return self.guarded_pick(items, k)
        if k == -1 and all(isinstance(x, Guard) for x in items):
            return self.guarded_pick(list(reversed(items)), 0)
        return I.opq("list index", i if is_scalar(i) else 0)

    def guarded_pick(self, items, k):
        I = self.I

        def go(n, need):
            if n == len(items):
                I.raise_("IndexError")
                return MISSING
            g = items[n]
            c = I.simp(g.c)
            if c is TRUE:
                return g.v if need == 0 else go(n + 1, need - 1)
            if c is FALSE:
                return go(n + 1, need)
            return I.branch(c, lambda: g.v if need == 0 else go(n + 1, need - 1), lambda: go(n + 1, need))
        if k == 0:
            none = TRUE
            for g in items:
                none = tt.andc(none, tt.notc(g.c))
            I.raise_("IndexError", none)
            r = items[-1].v
            for g in reversed(items[:-1]):
                r = I.merge(I.simp(g.c), g.v, r)
            return r
        r = go(0, k)
        return I.opq("missing element") if r is MISSING else r

    def first_match(self, i, c, v):
        """first element of family i satisfying c"""
        I = self.I
        I.raise_("IndexError", tt.notc(tt.anyc(i, c)))
        last = tt.fresh("first")
        sel = tt.loop(i, [last], [tm(0)], [tt.phi(c, i, last)], c, 0)
        return I.foreign(v, i, sel)

    def last_match(self, i, c, v):
        I = self.I
        I.raise_("IndexError", tt.notc(tt.anyc(i, c)))
        last = tt.fresh("lastm")
        sel = tt.loop(i, [last], [tm(0)], [tt.phi(c, i, last)], FALSE, 0)
        return I.foreign(v, i, sel)

    # -------------------------------------------------------------------- dict
    def dict_set(self, d, k, v):
        I = self.I
        d = I.resolve(d)
        kk = key_of(I.resolve(k))
        if kk is MISSING:
            I.list_append(d.tail, (k, v))
            return
        d.keys_.setdefault(kk, k)
        I.setcell(d.cells, kk, v)

    def dict_update(self, d, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, LDict):
            for kk, x in v.cells.items():
                self.dict_set(d, v.keys_.get(kk, kk), x)
            if v.tail.items:
                I.setcell(d.tail.cells, "items", d.tail.items + v.tail.items)
            return
        segs = I.segments(v)
        if segs and all(s[0] == "one" and isinstance(s[1], tuple) and len(s[1]) == 2 for s in segs):
            for s in segs:
                self.dict_set(d, *s[1])
            return
        I.list_append(d.tail, (I.opq("dict update"), I.opq("dict update")))

    def entries(self, d, key, v=True):
        """[(condition that the entry has the key, value)] of the entries with keys that are not literal"""
        I = self.I
        out = []

        def one(x, c):
            if isinstance(x, Guard):
                return one(x.v, tt.andc(c, x.c))
            if isinstance(x, Splice):
                j = tt.fresh_index(x.i.args[3])
                for y in x.items:
                    h = TRUE if x.cond is None else x.cond
                    while isinstance(y, Guard):
                        h, y = tt.andc(h, y.c), y.v
                    if isinstance(y, Splice) or not (isinstance(y, tuple) and len(y) == 2):
                        out.append((I.opqc("entry of a dictionary"), I.opq("entry of a dictionary")))
                        continue
                    e = tt.andc(tt.subst(h, {x.i: j}), I.truth(I.equal(I.foreign(y[0], x.i, j), key)))
                    last = tt.fresh("entry")
                    sel = tt.loop(j, [last], [tm(0)], [tt.phi(e, j, last)], FALSE, 0)
                    out.append((tt.andc(c, tt.anyc(j, e)), I.foreign(y[1], x.i, sel) if v else None))
                return
            if isinstance(x, tuple) and len(x) == 2:
                out.append((tt.andc(c, I.truth(I.equal(x[0], key))), x[1]))
            else:
                out.append((I.opqc("entry of a dictionary"), I.opq("entry of a dictionary")))
        for x in d.tail.items:
            one(x, TRUE)
        return out

    def unguard(self, x, c=TRUE):
        while isinstance(x, Guard):
            c, x = tt.andc(c, x.c), x.v
        return x, c

    def distinct(self, d):
        """the entries with keys that are not literal, one for each key: first place, last value"""
        I = self.I
        items = list(d.tail.items)
        if any(not isinstance(self.unguard(x)[0], (Splice, tuple)) for x in items):
            return items
        eq = lambda a, b: I.simp(I.truth(I.equal(a, b)))
        log = []            # (condition that an entry set so far has the key, value), as functions of the key
        out = []

        def lookup(k, v, present, log):
            """presence of key k given the earlier entries"""
            dup = FALSE
            for f in log:
                dup = tt.orc(dup, f(k)[0])
            return tt.andc(present, tt.notc(dup))

        fs = []
        for x in items:
            y, c = self.unguard(x)
            if isinstance(y, tuple):
                fs.append(lambda k, y=y, c=c: (tt.andc(c, eq(y[0], k)), y[1]))
                continue
            if len(y.items) != 1:
                return items
            z, h = self.unguard(y.items[0], TRUE if y.cond is None else y.cond)
            if not (isinstance(z, tuple) and len(z) == 2):
                return items

            def f(k, y=y, z=z, h=h, c=c, before=None):
                j = tt.fresh_index(y.i.args[3])
                e = tt.andc(tt.subst(h, {y.i: tm(j)}), eq(I.foreign(z[0], y.i, j), k))
                if before is not None:
                    return tt.andc(c, tt.anyc(j, tt.andc(e, tt.gt(before, j)))), None
                if e is FALSE:
                    return FALSE, None
                last = tt.fresh("entry")
                sel = tt.loop(j, [last], [tm(0)], [tt.phi(e, j, last)], FALSE, 0)
                return tt.andc(c, tt.anyc(j, e)), I.foreign(z[1], y.i, sel)
            fs.append(f)
        for n, x in enumerate(items):
            y, c = self.unguard(x)
            if isinstance(y, tuple):
                v = y[1]
                for f in fs[n + 1:]:
                    e, w = f(y[0])
                    v = I.merge(e, w, v)
                p = lookup(y[0], v, c, fs[:n])
                if p is not FALSE:
                    out.append((y[0], v) if p is TRUE else Guard(p, (y[0], v)))
                continue
            z, h = self.unguard(y.items[0], TRUE if y.cond is None else y.cond)
            k, v = z
            if not self.injective(k, y.i):
                v = fs[n](k)[1]
                h = tt.andc(h, tt.notc(fs[n](k, before=tm(y.i))[0]))
            for f in fs[n + 1:]:
                e, w = f(k)
                v = I.merge(e, w, v)
            h = lookup(k, v, h, fs[:n])
            s = Splice(y.i, [(k, v)], None if h is TRUE else h)
            out.append(s if c is TRUE else Guard(c, s))
        return out

    def injective(self, k, i):
        """two elements of the family have different keys"""
        if isinstance(k, tuple):
            return any(self.injective(x, i) for x in k)
        return k is i or isinstance(k, T) and k.op == "id" or isinstance(k, (Obj, LList))

    def parts(self, d, q):
        """the keys (0) or values (1) of the entries with keys that are not literal"""
        def one(x):
            if isinstance(x, Guard):
                return Guard(x.c, one(x.v))
            if isinstance(x, Splice):
                return Splice(x.i, [one(y) for y in x.items], x.cond)
            return x[q] if isinstance(x, tuple) else self.I.opq("entry of a dictionary")
        return [one(x) for x in self.distinct(d)]

    def dict_get(self, d, k, default=MISSING):
        I = self.I
        kk = key_of(k)
        cells = dict(d.cells)

        def miss():
            if default is not MISSING:
                return default
            if d.default is not None:
                v = I.call(d.default, [], {})
                self.dict_set(d, k, v)
                return v
            I.raise_("KeyError")
            return I.opq("missing key")
        if kk is not MISSING:
            base = cells.get(kk, MISSING)
            out = base
            for e, sv in self.entries(d, k):
                if out is MISSING:
                    out = miss()
                out = I.merge(e, sv, out)
            return miss() if out is MISSING else out
        # symbolic key
        if isinstance(k, (LList, LDict)):
            I.raise_("TypeError")
            return I.opq("unhashable key")
        conds = []
        for q, v in cells.items():
            c = I.simp(I.truth(I.equal(k, d.keys_.get(q, q))))
            if c is TRUE:
                return v
            if c is not FALSE:
                conds.append((c, v))
        conds += self.entries(d, k)
        seen = FALSE
        for c, _ in conds:
            seen = tt.orc(seen, c)
        if default is MISSING and d.default is None:
            I.raise_("KeyError", tt.notc(seen))
            out = None
        else:
            out = miss()
        if not conds:
            return out
        if default is MISSING and d.default is None:
            out = conds[0][1]
            conds = conds[1:]
        for c, v in conds:      # a later entry with the same key replaces an earlier one
            out = I.merge(c, v, out)
        return out

    def m_dict_get(self, d, k, default=None):
        return self.I.dist(k, lambda q: self.dict_get(d, q, default))

    def m_dict_items(self, d):
        return LList([(d.keys_.get(k, k), v) for k, v in d.cells.items()] +
                     self.distinct(d), self.I.ctx)

    def m_dict_keys(self, d):
        return LList([d.keys_.get(k, k) for k in d.cells] + self.parts(d, 0), self.I.ctx)

    def m_dict_values(self, d):
        return LList(list(d.cells.values()) + self.parts(d, 1), self.I.ctx)

    def m_dict_update(self, d, v=None, **kw):
        if v is not None:
            self.dict_update(d, v)
        for k, x in kw.items():
            self.dict_set(d, k, x)

    def m_dict_copy(self, d):
        n = LDict(self.I.ctx)
        self.dict_update(n, d)
        return n

    def m_dict_clear(self, d):
        I = self.I
        for k in list(d.cells):
            I.setcell(d.cells, k, MISSING)
        I.setcell(d.tail.cells, "items", [])

    def m_dict_pop(self, d, k, default=MISSING):
        v = self.dict_get(d, k, default)
        kk = key_of(k)
        if kk is not MISSING and kk in d.cells:
            self.I.setcell(d.cells, kk, MISSING)
        return v

    def m_dict_setdefault(self, d, k, v=None):
        I = self.I
        kk = key_of(k)
        if kk is not MISSING and not d.tail.items:
            if kk in d.cells:
                return d.cells[kk]
            self.dict_set(d, k, v)
            return v
        c = self.contains(d, k)
        r = self.dict_get(d, k, v)
        I.list_append(d.tail, Guard(tt.notc(c), (k, v)))
        return r

    # -------------------------------------------------------------------- list
    def m_list_append(self, l, v):
        if l.kind == "gen":
            return self.I.opq("append to generator")
        self.I.list_append(l, v)

    def m_list_add(self, l, v):
        if l.kind == "set" and l.plain() and self.I.simp(self.contains(l, v)) is TRUE:
            return
        self.I.list_append(l, v)

    # -------------------------------------------------------------------- sets
    def subset(self, a, b):
        '''every element of a is in b'''
        r = self.boolfold(self.mapseq(lambda x: self.I.pyb(self.contains(b, x)), a), False)
        return self.I.pyb(self.I.truth(r))

    def keeping(self, a, keep):
        '''the elements of a of which keep holds'''
        I = self.I
        out = LList([], I.ctx, "set")

        def body(x):
            I.branch(keep(x), lambda: I.list_append(out, x), lambda: None)
        segs = I.segments(a)
        if segs is None:
            return I.opq("set operation", a)
        I.run_segs(segs, body, Frame(None, None, I.loc[1], I.ctx))
        return out

    def union(self, a, *bs):
        I = self.I
        out = LList(list(a.items), I.ctx, "set")
        for b in bs:
            have = LList(list(out.items), I.ctx, "set")
            x = self.keeping(self.b_set(b), lambda x: I.simp(tt.notc(self.contains(have, x))))
            if not isinstance(x, LList):
                return x
            out = LList(out.items + x.items, I.ctx, "set")
        return out

    def m_list_issubset(self, l, o):
        return self.subset(l, o)

    def m_list_issuperset(self, l, o):
        return self.subset(o, l)

    def m_list_isdisjoint(self, l, o):
        r = self.boolfold(self.mapseq(lambda x: self.I.pyb(self.contains(o, x)), l), True)
        return self.I.pyb(tt.notc(self.I.truth(r)))

    def m_list_union(self, l, *os):
        return self.union(l, *os)

    def m_list_intersection(self, l, *os):
        return self.keeping(l, lambda x: self.I.simp(tt.conj([self.contains(o, x) for o in os])))

    def m_list_difference(self, l, *os):
        return self.keeping(l, lambda x: self.I.simp(tt.conj([tt.notc(self.contains(o, x)) for o in os])))

    def m_list_symmetric_difference(self, l, o):
        o = self.b_set(o)
        return self.union(self.m_list_difference(l, o), self.m_list_difference(o, l))

    def m_list_discard(self, l, v):
        r = self.m_list_difference(l, (v,))
        self.I.setcell(l.cells, "items", r.items if isinstance(r, LList) else [self.I.opq("discard")])

    def m_list_extend(self, l, v):
        self.I.list_extend(l, v)

    m_list_update = m_list_extend

    def m_list_copy(self, l):
        return LList(l.items, self.I.ctx, l.kind)

    def m_list_clear(self, l):
        self.I.setcell(l.cells, "items", [])

    def m_list_reverse(self, l):
        self.I.setcell(l.cells, "items", self.rev(l).items)

    def m_list_insert(self, l, k, v):
        items = list(l.items)
        n = as_int(k)
        if n is None or n < 0 or any(isinstance(x, (Guard, Splice)) for x in items[:n]):
            self.I.setcell(l.cells, "items", [self.I.opq("list insert")])
            return
        items.insert(n, v)
        self.I.setcell(l.cells, "items", items)

    def m_list_pop(self, l, k=-1):
        I = self.I
        n = as_int(k)
        items = list(l.items)
        if n is None or not items or not l.plain():
            if not items:
                I.raise_("IndexError")
            else:
                I.setcell(l.cells, "items", [I.opq("list pop")])
            return I.opq("list pop")
        v = items.pop(n)
        I.setcell(l.cells, "items", items)
        return v

    def m_list_index(self, l, v):
        I = self.I
        if not l.plain():
            return I.opq("list.index", v)
        out, seen = tm(0), FALSE
        for k in range(len(l.items) - 1, -1, -1):
            c = I.truth(I.equal(l.items[k], v))
            out = tt.phi(c, k, out)
            seen = tt.orc(seen, c)
        I.raise_("ValueError", tt.notc(seen))
        return I.cstval(out)

    def m_list_count(self, l, v):
        I = self.I
        t = 0
        for x in l.items:
            if isinstance(x, (Guard, Splice)):
                return I.opq("list.count")
            t = tt.add(t, tt.phi(I.truth(I.equal(x, v)), 1, 0))
        return I.cstval(tm(t))

    def m_list_remove(self, l, v):
        I = self.I
        if l.plain():
            for k, x in enumerate(l.items):
                c = I.simp(I.truth(I.equal(x, v)))
                if c is TRUE:
                    I.setcell(l.cells, "items", l.items[:k] + l.items[k + 1:])
                    return
                if c is not FALSE:
                    break
        I.setcell(l.cells, "items", [I.opq("list remove")])

    def m_list_sort(self, l, key=None, reverse=False):
        if not l.plain() or 1 < len(l.items) < 5:
            r = self.b_sorted(l, key, reverse)
            if isinstance(r, LList):
                self.I.setcell(l.cells, "items", r.items)
                return
        self.I.setcell(l.cells, "items", [self.I.opq("sorted list")] if len(l.items) > 1 or not l.plain() else l.items)

    def m_tup_index(self, t, v):
        return self.m_list_index(LList(list(t), self.I.ctx), v)

    def m_tup_count(self, t, v):
        return self.m_list_count(LList(list(t), self.I.ctx), v)

    # ------------------------------------------------------------------ strings
    STRLIFT = {"upper", "lower", "strip", "title", "capitalize", "casefold", "lstrip", "rstrip", "replace", "rjust",
               "ljust", "zfill", "removesuffix", "removeprefix", "swapcase"}

    def pathtail(self, t, f):
        """the string of a path with its end (of which at least the last name is known) changed by f"""
        c = self.pathterms.get(t) if isinstance(t, T) else None
        if c is None or not isinstance(c[1][-1], str) or c[1][-1] in (".", "..", "~"):
            return None
        n = f(c[1][-1])
        return None if n is None else self.pathterm((c[0], c[1][:-1] + (n,), c[2]))

    def m_pathstr(self, s, name, args):
        """methods of the string of a path that depend on its last name only"""
        c = self.pathterms.get(s) if isinstance(s, T) else None
        if c is None or not isinstance(c[1][-1], str) or not args or not isinstance(args[0], str) or not args[0] or \
                "/" in args[0] or c[1][-1] in (".", "..", "~"):
            return MISSING
        n, x = c[1][-1], args[0]
        base = n.rpartition("/")[2]
        if name == "endswith":
            return n.endswith(x) if "/" not in x else MISSING
        if name == "removesuffix":
            return self.pathtail(s, lambda n: n.removesuffix(x))
        if x in base and (name == "rpartition" or name == "rsplit" and len(args) == 2 and as_int(args[1]) == 1):
            a, b, z = n.rpartition(x)
            head = self.pathtail(s, lambda n: a)
            return (head, b, z) if name == "rpartition" else LList([head, z], self.I.ctx)
        return MISSING

    def m_str(self, s, name, args, kw):
        I = self.I
        r = self.m_pathstr(s, name, args)
        if r is not MISSING:
            return r
        if isinstance(s, str) and all(isinstance(a, (str, int)) for a in args):
            try:
                r = getattr(s, name)(*args)
            except Exception:
                return MISSING
            if isinstance(r, list):
                return LList(r, I.ctx)
            return r
        if name == "join":
            l = I.tolist(args[0])
            if l is None:
                return I.opq("str.join")
            if all(isinstance(x, str) for x in l) and isinstance(s, str):
                return s.join(l)
            parts = []
            for k, x in enumerate(l):
                if k:
                    parts.append(s)
                parts.append(x)
            return self.strjoin(parts)
        if name == "format":
            return tt.fn("str:fmt", s, *[t for a in args for t in I.scalars(a)][:20])
        if name in self.STRLIFT:
            if name in ("upper", "casefold", "lower"):
                n = "upper" if name == "upper" else "lower"
                if isinstance(s, T) and s.op == "fn" and s.args[0] in ("str:upper", "str:lower"):
                    s = s.args[1][0]
                return tt.fn("str:" + n, s)
            return tt.fn("str:" + name, s, *[a for a in args if isinstance(a, (str, int, T))])
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isnumeric"):
            return tt.fn("cond:str." + name, s, *[a for a in args if isinstance(a, (str, int, T))])
        return MISSING

    def strof(self, v):
        """str(v)"""
        I = self.I
        v = I.resolve(v)
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return str(v)
        if isinstance(v, PhiV):
            return I.dist(v, self.strof)
        if isinstance(v, T):
            if tt.sort(v) == tt.STR:
                return v
            return tt.fn("str:of", v)
        if isinstance(v, LibObj):
            m = getattr(self, "str_" + v.kind, None)
            if m is not None:
                return m(v)
        if isinstance(v, Obj):
            if v.cls.strenum:
                return v.attrs["value"]
            for n in ("__str__", "__repr__"):
                f, _ = v.cls.find(n)
                if f is not MISSING:
                    return I.call(f, [v], {})
        return tt.fn("str:obj", *I.scalars(v)[:12])

    def strjoin(self, parts):
        out = []
        for p in parts:
            if isinstance(p, tuple) and len(p) == 2 and p[0] == "fmt":
                out.append(tt.fn("str:fmt", *self.I.scalars(self.I.resolve(p[1]))[:6]))
            else:
                out.append(self.strof(p))
        if self.I.simp(self.I.exc["c"]) is TRUE:
            return ""
        if all(isinstance(p, str) for p in out):
            return "".join(out)
        out = [p for p in out if p != ""]
        if len(out) == 1:
            return out[0]
        if all(isinstance(p, str) for p in out[1:]):
            t = self.pathtail(out[0], lambda n: n + "".join(out[1:]))
            if t is not None:
                return t
        return tt.fn("str:cat", *[tm(p) for p in out if isinstance(p, (str, T))])

    # ------------------------------------------------------------------- binop
    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, Obj) and a.cls.strenum:
            a = a.attrs["value"]
        if isinstance(b, Obj) and b.cls.strenum:
            b = b.attrs["value"]
        st = lambda x: isinstance(x, str) or isinstance(x, T) and tt.sort(x) == tt.STR
        if isinstance(a, LList) and isinstance(b, LList) and a.kind == b.kind == "set":
            f = {"BitOr": self.union, "BitAnd": self.m_list_intersection, "Sub": self.m_list_difference,
                 "BitXor": self.m_list_symmetric_difference}.get(op)
            if f is not None:
                return f(a, b)
        if op == "Add":
            if st(a) and st(b):
                return self.strjoin([a, b])
            if isinstance(a, LList) and isinstance(b, LList):
                return LList(a.items + b.items, I.ctx)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (LList, tuple)) and isinstance(b, (LList, tuple)):
                I.raise_("TypeError")
                return I.opq("list + tuple")
        if op in ("Sub", "Div") and any(isinstance(x, (str, tuple)) or isinstance(x, LList) and x.kind == "list" for x in (a, b)) \
                and all(isinstance(x, (str, tuple, LList)) or is_scalar(x) for x in (a, b)) and \
                not any(isinstance(x, LList) and x.kind != "list" for x in (a, b)):
            I.raise_("TypeError")
            return I.opq(op)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                n = as_int(y) if is_scalar(y) else None
                if n is not None and isinstance(x, (str, tuple)):
                    return x * n
                if n is not None and isinstance(x, LList) and x.plain():
                    return LList(x.items * n, I.ctx)
        if op == "Mod" and st(a):
            return tt.fn("str:fmt", a, *I.scalars(b)[:6])
        if op == "BitOr":
            if isinstance(a, LDict) and isinstance(b, LDict):
                d = LDict(I.ctx)
                self.dict_update(d, a)
                self.dict_update(d, b)
                return d
            if isinstance(a, (Cls, Lib)) or isinstance(b, (Cls, Lib)):
                f = lambda x: x if isinstance(x, tuple) else (x,)
                return f(a) + f(b)
        if isinstance(a, LibObj):
            m = getattr(self, f"bin_{a.kind}", None)
            if m is not None:
                r = m(op, a, b, False)
                if r is not NotImplemented:
                    return r
        if isinstance(b, LibObj):
            m = getattr(self, f"bin_{b.kind}", None)
            if m is not None:
                r = m(op, b, a, True)
                if r is not NotImplemented:
                    return r
        if isinstance(a, LibObj) and a.kind == "df" or isinstance(b, LibObj) and b.kind == "df":
            x = self.asarr(a) if isinstance(a, LibObj) else a
            y = self.asarr(b) if isinstance(b, LibObj) else b
            if x is not None and y is not None:
                return I.binop(op, x, y)
        if op in ("Sub", "BitAnd", "BitOr") and isinstance(a, LList) and isinstance(b, LList) and a.kind == "set":
            out = []
            for x in a.items:
                if isinstance(x, (Guard, Splice)):
                    return I.opq("set operation")
                c = self.contains(b, x)
                if op == "Sub":
                    c = tt.notc(c)
                if op == "BitOr":
                    c = TRUE
                c = I.simp(c)
                if c is TRUE:
                    out.append(x)
                elif c is not FALSE:
                    out.append(Guard(c, x))
            if op == "BitOr":
                out += b.items
            return LList(out, I.ctx, "set")
        return NotImplemented

    # --------------------------------------------------------------- membership
    def contains(self, c, x):
        I = self.I
        c = I.resolve(c)
        x = I.resolve(x)
        if isinstance(c, PhiV):
            return tt.phi(c.c, self.contains(c.a, x), self.contains(c.b, x))
        if isinstance(c, LDict):
            r = FALSE
            kk = key_of(x)
            if kk is not MISSING and kk in c.cells:
                return TRUE
            if kk is MISSING:
                for q in c.cells:
                    r = tt.orc(r, I.truth(I.equal(x, c.keys_.get(q, q))))
            for g, _ in self.entries(c, x, False):
                r = tt.orc(r, g)
            return r
        st = lambda q: isinstance(q, str) or isinstance(q, T) and tt.sort(q) == tt.STR
        if isinstance(c, str) and isinstance(x, str):
            return tt.const(x in c)
        if st(c):
            return tt.fn("cond:instr", c, x) if is_scalar(x) or isinstance(x, str) else FALSE
        if isinstance(c, LibObj):
            m = getattr(self, f"in_{c.kind}", None)
            if m is not None:
                return m(c, x)
        if isinstance(c, Cls) and c.enum:
            r = FALSE
            for m in c.members.values():
                r = tt.orc(r, I.truth(I.equal(m, x)))
            return r
        if isinstance(c, Obj):
            f, _ = c.cls.find("__contains__")
            if f is not MISSING:
                return I.truth(I.call(f, [c, x], {}))
        if isinstance(c, Arr) and is_scalar(x):
            e = I.equal(c, x)
            return self.anyof(e)
        segs = I.segments(c)
        if segs is None:
            return I.opqc("in", c if isinstance(c, T) else None, x if is_scalar(x) else None)
        r = FALSE
        for s in segs:
            if s[0] == "one":
                e = I.equal(s[1], x)
                r = tt.orc(r, self.anyof(e))
            elif s[0] == "guard":
                r = tt.orc(r, tt.andc(s[1], self.anyof(I.equal(s[2], x))))
            else:
                b = FALSE
                for it in s[2]:
                    if isinstance(it, Guard):
                        b = tt.orc(b, tt.andc(it.c, self.anyof(I.equal(it.v, x))))
                    else:
                        b = tt.orc(b, self.anyof(I.equal(it, x)))
                if s[3] is not None:
                    b = tt.andc(s[3], b)
                r = tt.orc(r, tt.anyc(s[1], b))
        return r

    def anyof(self, e):
        if isinstance(e, Arr):
            r = FALSE
            for t in e.a.reshape(-1):
                r = tt.orc(r, tt.truthy(t))
            for i in e.fam:
                if i is not None:
                    r = tt.anyc(i, r)
            return r
        return self.I.truth(e)

    def allof(self, e):
        if isinstance(e, Arr):
            r = FALSE
            for t in e.a.reshape(-1):
                r = tt.orc(r, tt.notc(tt.truthy(t)))
            for i in e.fam:
                if i is not None:
                    r = tt.anyc(i, r)
            return tt.notc(r)
        return self.I.truth(e)

    def equal(self, a, b):
        I = self.I
        for x, y in ((a, b), (b, a)):
            if isinstance(x, LibObj):
                m = getattr(self, f"eq_{x.kind}", None)
                if m is not None:
                    return m(x, y)
        if isinstance(a, LibObj) and isinstance(b, LibObj):
            return TRUE if a is b else FALSE if a.kind != b.kind else I.opqc("equality of " + a.kind)
        if isinstance(a, LibObj) and a.kind == "df" or isinstance(b, LibObj) and b.kind == "df":
            return I.opqc("data frame comparison")
        return FALSE

    def truth(self, v):
        m = getattr(self, f"t_{v.kind}", None)
        if m is not None:
            return m(v)
        return TRUE

    # ---------------------------------------------------------------- sequences
    def segments(self, v):
        I = self.I
        if isinstance(v, LDict):
            return [("one", v.keys_.get(k, k)) for k in v.cells] + I.segments(LList(self.parts(v, 0), I.ctx))
        if isinstance(v, str):
            return [("one", c) for c in v]
        if isinstance(v, Cls) and v.enum:
            return [("one", m) for k, m in v.members.items() if m.attrs["name"] == k]
        if isinstance(v, LibObj):
            m = getattr(self, f"seg_{v.kind}", None)
            if m is not None:
                return m(v)
        if isinstance(v, Obj):
            f, _ = v.cls.find("__iter__")
            if f is not MISSING:
                return I.segments(I.call(f, [v], {}))
        if v is None or is_scalar(v) and not (isinstance(v, T) and v.op == "fn"):
            I.raise_("TypeError", what="not iterable")
            return []
        return None

    def seg_range(self, v):
        lo, hi, st = v.d["lo"], v.d["hi"], v.d["st"]
        a, b, s = as_int(lo), as_int(hi), as_int(st)
        if a is not None and b is not None and s:
            r = range(a, b, s)
            if len(r) > 2000:
                return None
            return [("one", k) for k in r]
        if a == 0 and s == 1 and isinstance(hi, T) and hi.op == "fn" and hi.args[0] == "len":
            i = tt.index(hi.args[1][0].args[1])
            return [("fam", i, [i], None)]
        return None

    def rev(self, v):
        I = self.I
        segs = I.segments(v)
        if segs is None or any(s[0] == "fam" for s in segs):
            r = self.reorder(v, segs, "reversed")
            return LList([I.opq("reversed", v)], I.ctx) if r is None else r
        return LList(list(reversed(I.seg_items(segs))), I.ctx)

    # ----------------------------------------------------------------- builtins
    def b_len(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, PhiV):
            return I.dist(v, self.b_len)
        if isinstance(v, Arr):
            if v.a.ndim == 0:
                I.raise_("TypeError")
                return I.opq("len")
            return tt.famlen(v.fam[0]) if v.fam[0] is not None else v.a.shape[0]
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, LDict):
            return len(v.cells) if not v.tail.items else I.opq("len of dict")
        if isinstance(v, LList):
            n = 0
            for x in v.items:
                if isinstance(x, Guard):
                    n = tt.add(n, tt.phi(x.c, 1, 0))
                elif isinstance(x, Splice):
                    m = 0
                    for y in x.items:
                        m = tt.add(m, tt.phi(y.c, 1, 0) if isinstance(y, Guard) else 1)
                    if x.cond is not None:
                        m = tt.phi(x.cond, m, 0)
                    n = tt.add(n, tt.famlen(x.i) if tt.isc(m, 1) else tt.summ(x.i, m))
                else:
                    n = tt.add(n, 1)
            return I.cstval(tm(n))
        if isinstance(v, Obj):
            f, _ = v.cls.find("__len__")
            if f is not MISSING:
                return I.call(f, [v], {})
        if isinstance(v, LibObj):
            m = getattr(self, "len_" + v.kind, None)
            if m is not None:
                return m(v)
            segs = I.segments(v)
            if segs is not None:
                return self.b_len(LList(I.seg_items(segs), I.ctx))
        if isinstance(v, Cls) and v.enum:
            return len({id(m) for m in v.members.values()})
        if v is None or is_scalar(v) and not isinstance(v, T):
            I.raise_("TypeError")
        return I.opq("len", v if isinstance(v, T) else None)

    def b_range(self, a, b=None, c=1):
        a, b, c = (self.I.force(x) for x in (a, b, c))
        if b is None:
            a, b = 0, a
        return LibObj("range", self.I.ctx, lo=a, hi=b, st=c)

    def b_list(self, v=None):
        I = self.I
        if v is None:
            return LList([], I.ctx)
        return I.dist(v, self.list1)

    def list1(self, v):
        I = self.I
        segs = I.segments(v)
        if segs is None:
            return LList([I.opq("list", v)], I.ctx) if False else I.opq("list", v)
        return LList(I.seg_items(segs), I.ctx)

    def b_tuple(self, v=None):
        I = self.I
        if v is None:
            return ()
        l = I.tolist(v)
        if l is None:
            segs = I.segments(v)
            return I.opq("tuple", v) if segs is None else LList(I.seg_items(segs), I.ctx)
        return tuple(l)

    def b_set(self, v=None):
        I = self.I
        if v is None:
            return LList([], I.ctx, "set")
        segs = I.segments(v)
        if segs is None:
            return I.opq("set", v)
        items, seen = [], set()
        for x in I.seg_items(segs):
            k = key_of(x)
            if k is not MISSING:
                if k in seen:
                    continue
                seen.add(k)
            items.append(x)
        return LList(items, I.ctx, "set")

    b_frozenset = b_set

    def b_dict(self, v=None, **kw):
        d = LDict(self.I.ctx)
        if v is not None:
            self.dict_update(d, v)
        for k, x in kw.items():
            self.dict_set(d, k, x)
        return d

    def b_dict_fromkeys(self, v, x=None):
        d = LDict(self.I.ctx)
        segs = self.I.segments(v)
        if segs is None:
            return self.I.opq("dict.fromkeys", v, x)
        self.dict_update(d, LList([self.pair_of(y, x) for y in self.I.seg_items(segs)], self.I.ctx))
        return d

    def pair_of(self, y, x):
        """an element of a list, or a part of a list, with its elements paired with x"""
        if isinstance(y, Guard):
            return Guard(y.c, self.pair_of(y.v, x))
        if isinstance(y, Splice):
            return Splice(y.i, [self.pair_of(z, x) for z in y.items], y.cond)
        return (y, x)

    def b_iter(self, v):
        return v

    def b_next(self, v, default=MISSING):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, LList) and v.items:
            it = v.items[0]
            if not isinstance(it, (Guard, Splice)):
                if v.kind == "gen":
                    I.setcell(v.cells, "items", v.items[1:])
                return it
            if isinstance(it, Guard) and all(isinstance(x, Guard) for x in v.items):
                def go(n):
                    if n == len(v.items):
                        if default is not MISSING:
                            return default
                        I.raise_("StopIteration")
                        return MISSING
                    g = v.items[n]
                    return I.branch(g.c, lambda: g.v, lambda: go(n + 1))
                r = go(0)
                return I.opq("next") if r is MISSING else r
            if isinstance(it, Splice) and len(v.items) == 1 and len(it.items) == 1 and default is MISSING:
                y = it.items[0]
                if isinstance(y, Guard):
                    return self.first_match(it.i, y.c, y.v)
                return I.foreign(y, it.i, tm(0))
        if isinstance(v, LList) and not v.items:
            if default is not MISSING:
                return default
            I.raise_("StopIteration")
        return I.opq("next", v if isinstance(v, T) else None)

    def b_zip(self, *vs, strict=False):
        I = self.I
        segs = [I.segments(v) for v in vs]
        if any(s is None for s in segs):
            return I.opq("zip", *vs)
        n = {len(s) for s in segs}
        if len(n) == 1 and all(len({s[k][0] for s in segs}) == 1 for k in range(min(n))):
            out = []
            for row in zip(*segs):
                if row[0][0] == "one":
                    out.append(tuple(r[1] for r in row))
                elif row[0][0] == "fam" and all(r[1] is row[0][1] and len(r[2]) == 1 and r[3] is row[0][3] and
                                                not isinstance(r[2][0], Guard) for r in row):
                    out.append(Splice(row[0][1], [tuple(r[2][0] for r in row)], row[0][3]))
                elif row[0][0] == "fam" and all(r[1] is row[0][1] and len(r[2]) == len(row[0][2]) and r[3] is row[0][3]
                                                and not any(isinstance(q, Guard) for q in r[2]) for r in row):
                    out.append(Splice(row[0][1], [tuple(q) for q in zip(*[r[2] for r in row])], row[0][3]))
                else:
                    return I.opq("zip of unrelated collections", *vs)
            return LList(out, I.ctx, "gen")
        if all(s[0] == "one" for q in segs for s in q):
            if I.resolve(strict) is True:
                I.raise_("ValueError")
            return LList([tuple(r[1] for r in row) for row in zip(*segs)], I.ctx, "gen")
        return I.opq("zip of unrelated collections", *vs)

    def zipstar(self, v):
        '''zip(*v) for the rows of a collection'''
        I = self.I
        segs = I.segments(I.resolve(v))
        if not segs or len(segs) != 1 or segs[0][0] != "fam" or len(segs[0][2]) != 1:
            return None
        _, i, (row,), cond = segs[0]
        if isinstance(row, Guard):
            cond = row.c if cond is None else tt.andc(cond, row.c)
            row = row.v
        row = I.tolist(row)
        if row is None:
            return None
        some = tt.gt(tt.famlen(i), 0) if cond is None else tt.anyc(i, cond)
        return I.resolve(PhiV(some, LList([LList([Splice(i, [x], cond)], I.ctx) for x in row], I.ctx, "gen"),
                              LList([], I.ctx, "gen")))

    def b_enumerate(self, v, start=0):
        I = self.I
        segs = I.segments(v)
        if segs is None:
            return I.opq("enumerate", v)
        if all(s[0] == "one" for s in segs):
            return LList([(I.binop("Add", start, k), s[1]) for k, s in enumerate(segs)], I.ctx, "gen")
        if len(segs) == 1 and segs[0][0] == "fam" and len(segs[0][2]) == 1 and segs[0][3] is None and \
                not isinstance(segs[0][2][0], Guard):
            i = segs[0][1]
            return LList([Splice(i, [(I.binop("Add", start, i), segs[0][2][0])])], I.ctx, "gen")
        return I.opq("enumerate", v)

    def b_reversed(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, Arr) and v.fam[0] is None:
            return Arr(v.a[::-1], v.fam, v.dt)
        segs = I.segments(v)
        if segs is None or any(s[0] == "fam" for s in segs):
            return I.opq("reversed", v)
        return LList(list(reversed(I.seg_items(segs))), I.ctx, "gen")

    def b_sorted(self, v, key=None, reverse=False):
        I = self.I
        l = I.tolist(v)
        if l is not None and key is None and all(isinstance(x, (int, str)) for x in l):
            try:
                return LList(sorted(l, reverse=bool(reverse)), I.ctx)
            except TypeError:
                pass
        if l is not None and len(l) < 2:
            return LList(l, I.ctx)
        if l is not None and len(l) == 2 and key is None and all(is_scalar(x) for x in l):
            a, b = tt.minv(*l), tt.maxv(*l)
            return LList([b, a] if reverse is True else [a, b], I.ctx)
        r = self.sortfew(l, key, I.resolve(reverse)) if l is not None and len(l) < 5 else None
        if r is not None:
            return r
        segs = I.segments(v)
        if segs is not None and len(segs) == 1 and segs[0][0] == "fam":
            i = segs[0][1]
            ks = self.mapseq(lambda x: x if key is None else I.call(key, [x], {}), v)
            k = ks.items[0] if len(ks.items) == 1 else None
            k = k.items[0] if isinstance(k, Splice) and k.i is i and k.cond is None and len(k.items) == 1 else None
            while isinstance(k, tuple) and k and k[0] is not i:
                k = k[0]
            if k is not None and not (isinstance(k, tuple) and k and k[0] is i):
                r = self.reorder(v, segs, "sorted")
                if r is not None:
                    return r
        return I.opq("sorted", v)

    def sortfew(self, l, key, reverse):
        """a few elements in the order of a number: exchanged with their neighbour while that is out of order"""
        I = self.I
        if not isinstance(reverse, bool):
            return None
        try:
            ks = [x if key is None else I.resolve(I.call(key, [x], {})) for x in l]
        except (TypeError, AttributeError):
            return None
        if not all(isinstance(k, (int, Fraction, T)) and not isinstance(k, bool) for k in ks) or \
                any(isinstance(k, T) and (tt.taints(k) or tt.sort(k) != tt.NUM) for k in ks):
            return None
        out = list(zip(map(tm, ks), l))
        for n in range(len(out) - 1, 0, -1):
            for j in range(n):
                (a, x), (b, y) = out[j], out[j + 1]
                c = tt.gt(b, a) if reverse else tt.gt(a, b)
                if c is TRUE:
                    out[j], out[j + 1] = (b, y), (a, x)
                elif c is not FALSE:
                    out[j] = (tt.phi(c, b, a), I.merge(c, y, x))
                    out[j + 1] = (tt.phi(c, a, b), I.merge(c, x, y))
        return LList([x for _, x in out], I.ctx)

    def reorder(self, v, segs, tag):
        """the elements of a family of plain values in another order"""
        I = self.I
        if segs is None or len(segs) != 1 or segs[0][0] != "fam" or segs[0][3] is not None or len(segs[0][2]) != 1:
            return None
        i, (x,) = segs[0][1], segs[0][2]
        x = I.resolve(x)
        flat = list(x) if isinstance(x, tuple) else [x]
        if not all(isinstance(q, (Arr, T, str, int)) for q in map(I.resolve, flat)):
            return None
        return LList([Splice(i, [I.foreign(x, i, tt.fn("row:" + tag, i.args[3], i))], None)], I.ctx)

    def mapseq(self, f, v):
        """[f(x) for x in v] as a list"""
        I = self.I
        out = LList([], I.ctx)
        fr = Frame(None, None, I.loc[1], I.ctx)

        def body(x):
            r = f(x)
            I.live(lambda: I.list_append(out, r))
        segs = I.segments(v)
        if segs is None:
            segs = I.opaque_segs(v)
        I.run_segs(segs, body, fr)
        return out

    def b_map(self, f, *vs):
        I = self.I
        if len(vs) == 1:
            r = self.mapseq(lambda x: I.call(f, [x], {}), vs[0])
        else:
            z = self.b_zip(*vs)
            r = self.mapseq(lambda x: I.call(f, list(x), {}), z) if isinstance(z, LList) else z
        if isinstance(r, LList):
            r.kind = "gen"
        return r

    def b_filter(self, f, v):
        I = self.I
        out = LList([], I.ctx, "gen")
        fr = Frame(None, None, I.loc[1], I.ctx)

        def body(x):
            c = I.truth(x if f is None else I.call(f, [x], {}))
            I.branch(c, lambda: I.list_append(out, x), lambda: None)
        segs = I.segments(v)
        if segs is None:
            return I.opq("filter", v)
        I.run_segs(segs, body, fr)
        return out

    def b_sum(self, v, start=0):
        I = self.I
        segs = I.segments(v)
        if segs is None:
            return I.opq("sum", v)
        tot = start
        for s in segs:
            if s[0] == "one":
                tot = I.binop("Add", tot, s[1])
            elif s[0] == "guard":
                prev = tot
                tot = I.merge(s[1], I.binop("Add", prev, s[2]), prev)
                tot = I.force(tot)
            else:
                for x in s[2]:
                    c = s[3]
                    if isinstance(x, Guard):
                        c = x.c if c is None else tt.andc(c, x.c)
                        x = x.v
                    x = I.force(x)
                    if is_scalar(x):
                        e = x if c is None else tt.phi(c, x, 0)
                        tot = I.binop("Add", tot, tt.summ(s[1], e))
                    elif isinstance(x, Arr):
                        a = I.map1(lambda t: tt.summ(s[1], t if c is None else tt.phi(c, t, 0)), x)
                        tot = I.binop("Add", tot, a)
                    else:
                        return I.opq("sum", v)
        return tot

    def boolfold(self, v, isany):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, Arr) and v.a.ndim > 1:
            I.raise_("ValueError")
        segs = I.segments(v)
        if segs is None:
            return I.opqc("any/all", v)
        r = FALSE
        f = (lambda x: I.truth(x)) if isany else (lambda x: tt.notc(I.truth(x)))
        for s in segs:
            if s[0] == "one":
                r = tt.orc(r, f(s[1]))
            elif s[0] == "guard":
                r = tt.orc(r, tt.andc(s[1], f(s[2])))
            else:
                b = FALSE
                for x in s[2]:
                    b = tt.orc(b, tt.andc(x.c, f(x.v)) if isinstance(x, Guard) else f(x))
                if s[3] is not None:
                    b = tt.andc(s[3], b)
                r = tt.orc(r, tt.anyc(s[1], b))
        return I.pyb(r if isany else tt.notc(r))

    def b_any(self, v):
        return self.boolfold(v, True)

    def b_all(self, v):
        return self.boolfold(v, False)

    def minmax(self, args, kw, f):
        I = self.I
        if len(args) == 1:
            l = I.tolist(args[0])
            segs = I.segments(args[0]) if l is None and not kw else None
            if segs and len(segs) == 1 and segs[0][0] == "fam" and len(segs[0][2]) == 1 and segs[0][3] is None:
                x = I.force(segs[0][2][0])
                if is_scalar(x):
                    return tt.extreme("max" if f is tt.maxv else "min", segs[0][1], x)
        else:
            l = list(args)
        if not l or kw or not all(is_scalar(I.force(x)) for x in l):
            return I.opq("min/max", *args)
        r = I.force(l[0])
        for x in l[1:]:
            r = f(r, I.force(x))
        return I.cstval(tm(r))

    def b_max(self, *args, **kw):
        return self.minmax(args, kw, tt.maxv)

    def b_min(self, *args, **kw):
        return self.minmax(args, kw, tt.minv)

    def b_abs(self, v):
        return self.map(tt.absv, v, "abs")

    def b_pow(self, a, b):
        return self.I.binop("Pow", a, b)

    def b_divmod(self, a, b):
        return (self.I.binop("FloorDiv", a, b), self.I.binop("Mod", a, b))

    def b_round(self, v, n=None):
        return self.map(lambda t: tt.fn("round", t, n if n is not None else 0), v, "round")

    def b_float(self, v=0):
        I = self.I
        v = I.force(v)
        if isinstance(v, PhiV):
            return I.dist(v, self.b_float)
        if isinstance(v, str):
            try:
                return tt.frac(float(v)) if v.strip() not in ("nan", "inf", "-inf") else tt.const(tt.frac(float(v)))
            except ValueError:
                I.raise_("ValueError")
                return I.opq("float")
        if isinstance(v, T) and tt.sort(v) == tt.STR:
            return tt.fn("numof", v)
        if isinstance(v, bool):
            return int(v)
        if is_scalar(v):
            return v
        if isinstance(v, Arr) and v.a.size == 1 and not v.famaxes():
            return I.cstval(v.a.reshape(-1)[0])
        if isinstance(v, (Arr, LList, tuple)) or v is None:
            I.raise_("TypeError")
        return I.opq("float", v)

    def b_int(self, v=0, base=10):
        I = self.I
        v = I.force(v)
        if isinstance(v, bool):
            return int(v)
        if as_int(v) is not None:
            return as_int(v)
        if isinstance(v, T):
            if tt.sort(v) == tt.BOOL:
                return tt.phi(v, 1, 0)
            return v if self.integral(v) else tt.fn("int", v)
        if isinstance(v, (Fraction, float)):
            return int(v)
        return I.opq("int", v)

    def b_bool(self, v=False):
        return self.I.pyb(self.I.truth(v))

    def b_str(self, v=""):
        return self.strof(v)

    def b_repr(self, v):
        return self.strof(v)

    def b_format(self, v, spec=""):
        return tt.fn("str:fmt", *self.I.scalars(v)[:6])

    def b_print(self, *a, **k):
        self.I.live(lambda: self.I.event("print", args=a))
        return None

    def b_id(self, v):
        # identity is not value determined
        k = v.uid if hasattr(v, "uid") else 0
        return tt.fn("id", k, *self.I.scalars(v)[:4])

    def b_hash(self, v):
        return tt.fn("hash", *self.I.scalars(v)[:12])

    def b_callable(self, v):
        return isinstance(self.I.resolve(v), (Func, Bound, Partial, Cls, Lib, Method))

    def b_type(self, v, *a):
        v = self.I.resolve(v)
        if isinstance(v, (Obj, NT)):
            return v.cls
        n = {Arr: "numpy.ndarray", LDict: "builtins.dict", str: "builtins.str", tuple: "builtins.tuple",
             bool: "builtins.bool", int: "builtins.int", Fraction: "builtins.float"}.get(type(v))
        if isinstance(v, LList):
            n = {"list": "builtins.list", "set": "builtins.set"}.get(v.kind, "builtins.generator")
        if isinstance(v, T):
            n = "builtins.str" if tt.sort(v) == tt.STR else "builtins.float"
        if isinstance(v, LibObj):
            n = "libtype." + v.kind
        return Lib(n or "builtins.object")

    def b_getattr(self, o, name, default=MISSING):
        I = self.I
        o = I.resolve(o)
        if not isinstance(name, str):
            return I.opq("getattr")
        if default is not MISSING and isinstance(o, Obj):
            if o.attrs.get(name, MISSING) is MISSING and o.cls.find(name)[0] is MISSING:
                return default
        return I.dist(o, lambda x: I.getattr(x, name))

    def b_setattr(self, o, name, v):
        I = self.I
        if not isinstance(name, str):
            return I.opq("setattr")
        I.dist(o, lambda x: I.setattr(x, name, v))

    def b_hasattr(self, o, name):
        I = self.I
        o = I.resolve(o)
        if isinstance(o, Obj):
            return o.attrs.get(name, MISSING) is not MISSING or o.cls.find(name)[0] is not MISSING
        if isinstance(o, Arr):
            return name in ("shape", "ndim", "dtype", "T", "size", "tolist", "astype", "copy")
        if isinstance(o, (LList, tuple)):
            return name in ("__iter__", "__len__", "__getitem__", "append")
        return I.opqc("hasattr " + str(name))

    def b_vars(self, o):
        return self.I.getattr(o, "__dict__")

    def b_isinstance(self, v, c):
        return self.I.pyb(self.isinstance_(v, c))

    def b_issubclass(self, a, b):
        if isinstance(a, Cls):
            return b in a.mro()
        return self.I.opqc("issubclass")

    def b_slice(self, *a):
        a = list(a)
        if len(a) == 1:
            a = [None, a[0]]
        return ("slice",) + tuple(a + [None] * (3 - len(a)))

    def b_object(self):
        return LibObj("object", self.I.ctx)

    def b_super(self, *a):
        from .values import Super
        if len(a) == 2:
            return Super(a[1], a[0])
        return self.I.opq("super")

    NUMT = {"builtins.float", "numbers.Number", "numbers.Real", "numpy.floating", "numpy.float64", "numpy.number",
            "numpy.generic"}
    INTT = {"builtins.int", "numbers.Integral", "numpy.integer", "numpy.int64"}

    def isinstance_(self, v, c):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, PhiV):
            return I.simp(tt.phi(v.c, self.isinstance_(v.a, c), self.isinstance_(v.b, c)))
        c = I.resolve(c)
        if isinstance(c, tuple):
            r = FALSE
            for x in c:
                r = tt.orc(r, self.isinstance_(v, x))
            return r
        if c is None:
            return tt.const(v is None)
        if isinstance(c, Cls):
            return tt.const(isinstance(v, (Obj, NT)) and c in v.cls.mro())
        n = c.name if isinstance(c, Lib) else None
        if n == "builtins.object":
            return TRUE
        if isinstance(v, Obj):
            return tt.const(any(isinstance(b, Lib) and b.name == n for b in v.cls.mro())
                            or n == "builtins.str" and v.cls.strenum or n == "enum.Enum" and v.cls.enum)
        if isinstance(v, LibObj):
            if v.kind == "alien":
                return FALSE
            m = getattr(self, f"isa_{v.kind}", None)
            if m is not None:
                return tm(m(v, n))
            return I.opqc(f"isinstance {v.kind} {n}")
        if n is None:
            return I.opqc("isinstance")
        if isinstance(v, Arr):
            return tt.const(n in ("numpy.ndarray", "collections.abc.Sized", "collections.abc.Iterable",
                                  "typing.Iterable"))
        seq = ("collections.abc.Iterable", "collections.abc.Sized", "collections.abc.Collection", "typing.Iterable")
        if isinstance(v, LList):
            if v.kind == "masked":
                return tt.const(n in ("numpy.ndarray",) + seq)
            return tt.const(n == "builtins." + v.kind or n in seq or v.kind == "list" and n in
                            ("collections.abc.Sequence", "typing.Sequence", "collections.abc.MutableSequence"))
        if isinstance(v, tuple):
            return tt.const(n == "builtins.tuple" or n in seq or n in ("collections.abc.Sequence", "typing.Sequence"))
        if isinstance(v, LDict):
            return tt.const(n in ("builtins.dict", "collections.abc.Mapping", "typing.Mapping") or n in seq)
        if isinstance(v, str):
            return tt.const(n in ("builtins.str", "collections.abc.Sequence") or n in seq)
        if isinstance(v, bool):
            return tt.const(n in ("builtins.bool", "builtins.int", "numbers.Number"))
        if v is None:
            return tt.const(n in ("types.NoneType",))
        if isinstance(v, int):
            return tt.const(n in self.INTT or n in ("numbers.Number", "numbers.Real"))
        if isinstance(v, Fraction):
            return tt.const(n in self.NUMT)
        if isinstance(v, T):
            s = tt.sort(v)
            if v.op == "fn" and v.args[0].startswith("?"):
                return I.opqc("isinstance", v)
            if s == tt.STR:
                return tt.const(n == "builtins.str" or n in seq)
            if s == tt.BOOL:
                return tt.const(n in ("builtins.bool", "builtins.int", "numpy.bool_"))
            if n in self.NUMT:
                return TRUE
            if n in self.INTT:
                return TRUE if self.integral(v) else FALSE
            return FALSE
        if isinstance(v, (Func, Bound, Partial)):
            return tt.const(n in ("collections.abc.Callable", "typing.Callable", "types.FunctionType"))
        if isinstance(v, (Cls, Lib)):
            return tt.const(n == "builtins.type")
        return I.opqc("isinstance")

    # -------------------------------------------------------------------- with
    def enter(self, m):
        I = self.I
        m = I.resolve(m)
        if isinstance(m, Obj):
            f, _ = m.cls.find("__enter__")
            if f is not MISSING:
                return I.call(f, [m], {})
        if isinstance(m, LibObj) and m.kind in ("ctxgen", "closing"):
            return m.d.get("value")
        if isinstance(m, LList) and m.kind == "gen":
            return m.items[0] if m.items else None
        return m

    def leave(self, m, fr):
        I = self.I
        m = I.resolve(m)
        if isinstance(m, Obj):
            f, _ = m.cls.find("__exit__")
            if f is not MISSING:
                self.leaving(lambda t, v, tb: I.call(f, [m, t, v, tb], {}))
        elif isinstance(m, LibObj) and m.kind == "closing":
            self.leaving(lambda *a: (I.call(I.getattr(m.d["value"], "close"), [], {}), None)[1])
        elif isinstance(m, LibObj) and m.kind == "exitstack":
            for x in reversed(m.d["exits"].items):
                self.unwind(x)
            I.setcell(m.d["exits"].cells, "items", [])
        elif isinstance(m, LibObj) and m.kind == "suppress":
            c, v = I.exc["c"], I.exc["v"]
            if c is not FALSE and v is not None:
                k = I.exc_isa(v, m.d["types"])
                I.branch(tt.andc(c, k), lambda: (I.event("handle", name=I.exc_name(v), types=m.d["types"]),
                                                 I.setcell(I.exc, "c", FALSE)), lambda: None)

    def leaving(self, f):
        """f(type, exception, traceback) on the way out; the exception goes on unless f returns something true"""
        I = self.I
        c, v = I.simp(I.exc["c"]), I.exc["v"]
        I.setcell(I.exc, "c", FALSE)
        t = None if c is FALSE else I.merge(c, self.b_type(v) if v is not None else I.opq("type of an exception"), None)
        e = None if c is FALSE else I.merge(c, v if v is not None else I.opq("exception"), None)
        r = f(t, e, None if c is FALSE else I.merge(c, LibObj("traceback"), None))
        sw = I.simp(I.truth(r))
        new = I.exc["c"]
        I.setcell(I.exc, "c", tt.orc(new, tt.andc(c, tt.notc(sw))))
        if I.exc["v"] is None or new is FALSE:
            I.setcell(I.exc, "v", v)
        if sw is not FALSE and c is not FALSE:
            I.branch(tt.andc(c, sw), lambda: I.event("handle", name=I.exc_name(I.resolve(v)) if v is not None else "?any", types=None), lambda: None)

    def unwind(self, x):
        I = self.I
        if isinstance(x, Guard):
            I.branch(x.c, lambda: self.unwind(x.v), lambda: None)
        elif isinstance(x, tuple):
            f, a, k = x
            self.leaving(f) if a is None else self.leaving(lambda *_: (I.call(f, list(a), dict(k)), None)[1])
        else:
            I.opq("exits of a collection")

    def m_exitstack(self, o, name, args, kw):
        I = self.I
        if name == "callback":
            I.list_append(o.d["exits"], (args[0], tuple(args[1:]), kw))
            return args[0]
        if name == "push":
            I.list_append(o.d["exits"], ((lambda t, v, tb: I.call(args[0], [t, v, tb], {})), None, None))
            return args[0]
        if name == "enter_context":
            m = I.resolve(args[0])
            if isinstance(m, LibObj) and m.kind == "ctxcall":
                return I.opq("generator kept open")
            v = self.enter(m)
            if isinstance(m, Obj):
                f, _ = m.cls.find("__exit__")
                if f is not MISSING:
                    I.list_append(o.d["exits"], ((lambda t, v, tb: I.call(f, [m, t, v, tb], {})), None, None))
            elif isinstance(m, LibObj) and m.kind == "exitstack":
                return I.opq("stacks within stacks")
            return v
        if name == "close":
            for x in reversed(o.d["exits"].items):
                self.unwind(x)
            I.setcell(o.d["exits"].cells, "items", [])
            return None
        return MISSING

    # ------------------------------------------------------------ named tuples
    def nt_new(self, c, args, kw):
        o = Obj(c, self.I.ctx)
        self.dc_init(o, c, args, kw)
        return named(c, [o.attrs.get(f[0], None) for f in c.dc["fields"]])

    def nt_class(self, name, fields, defaults=None):
        I = self.I
        c = Cls(I.resolve(name), None)
        fs = I.resolve(fields)
        if isinstance(fs, str):
            fs = fs.replace(",", " ").split()
        else:
            fs = [I.resolve(x) for x in I.tolist(fs) or []]
            fs = [x if isinstance(x, str) else I.resolve(I.tolist(x)[0]) for x in fs]
        d = I.tolist(defaults) if defaults is not None else []
        d = [MISSING] * (len(fs) - len(d)) + list(d)
        c.nt, c.annot = True, list(zip(fs, d))
        return self.dataclass(c, {})

    def nt_attr(self, o, name):
        names = [f[0] for f in o.cls.dc["fields"]]
        if name in names:
            return o[names.index(name)]
        if name == "_fields":
            return tuple(names)
        if name == "_replace":
            return lambda I, a, k: self.nt_new(o.cls, [], {**dict(zip(names, o)), **k})
        if name == "_asdict":
            def asdict(I, a, k):
                d = LDict(I.ctx)
                for n, x in zip(names, o):
                    self.dict_set(d, n, x)
                return d
            return asdict
        f, _ = o.cls.find(name)
        if f is not MISSING:
            if isinstance(f, Func):
                if f.kind == "property":
                    return self.I.callfunc0(f, [o], {})
                if f.kind == "static":
                    return f
                return Bound(f, o.cls if f.kind == "class" else o)
            return f
        return o.cls if name == "__class__" else MISSING

    # ------------------------------------------------------------- dataclasses
    def dataclass(self, c, kw):
        fields = list(c.dc["fields"]) if c.dc else []
        names = [f[0] for f in fields]
        for n, dv in c.annot:
            init, default, fac = True, dv, None
            if isinstance(dv, LibObj) and dv.kind == "field":
                init = dv.d.get("init", True)
                default = dv.d.get("default", MISSING)
                fac = dv.d.get("default_factory")
                if default is not MISSING:
                    c.ns[n] = default
                else:
                    c.ns.pop(n, None)
            rec = (n, default, fac, init)
            if n in names:
                fields[names.index(n)] = rec
            else:
                fields.append(rec)
                names.append(n)
        c.dc = dict(fields=fields, frozen=self.I.resolve(kw.get("frozen", False)) is True,
                    eq=self.I.resolve(kw.get("eq", True)) is not False,
                    kw_only=self.I.resolve(kw.get("kw_only", False)) is True)
        return c

    def dc_init(self, o, c, args, kw):
        I = self.I
        dc = c.dc
        pos = [f for f in dc["fields"] if f[3]]
        vals = {}
        bad = bool(args) and dc.get("kw_only", False)
        for f, v in zip(pos, args):
            vals[f[0]] = v
        if len(args) > len(pos):
            bad = True
        for k, v in kw.items():
            if k not in [f[0] for f in pos] or k in vals:
                bad = True
            vals[k] = v
        for n, d, fac, init in dc["fields"]:
            if n not in vals:
                if fac is not None:
                    vals[n] = I.call(fac, [], {})
                elif d is not MISSING:
                    vals[n] = d
                elif init:
                    bad = True
        if bad:
            I.raise_("TypeError", what="arguments")
            return
        for k, v in vals.items():
            I.setcell(o.attrs, k, v)
        f, _ = c.find("__post_init__")
        if f is not MISSING:
            I.call(f, [o], {})

    # -------------------------------------------------------------------- enum
    def enum_call(self, c, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, Obj) and v.cls is c:
            return v
        if isinstance(v, PhiV):
            return I.dist(v, lambda x: self.enum_call(c, x))
        out, seen = None, FALSE
        for n, m in reversed(list(c.members.items())):
            e = I.simp(I.truth(I.equal(m.attrs["value"], v)))
            if e is TRUE:
                return m
            if e is FALSE:
                continue
            out = m if out is None else I.merge(e, m, out)
            seen = tt.orc(seen, e)
        f, _ = c.find("_missing_")
        if f is not MISSING:
            r = I.branch(seen, lambda: out, lambda: I.call(Bound(f, c), [v], {}))
            return r
        I.raise_("ValueError", tt.notc(seen))
        return out if out is not None else I.opq("enum value")
