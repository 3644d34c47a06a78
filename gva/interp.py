"""Abstract interpreter: Python source -> gated value graph.

The source is only parsed.  Every statement is interpreted over abstract
values; at a join the two abstract states are merged with gamma nodes, a loop
over a collection of unknown length is summarised from one generic iteration.
"""
import ast
import os
from fractions import Fraction

import numpy as np

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import (MISSING, NT, Arr, Bound, Cells, Cls, Frame, Func, Guard, LDict, Lib, LibObj, LList,
                     Method, ModuleV, Obj, Partial, PhiV, Splice, Super, as_int, is_scalar, like, named, oarr, root,
                     uid)


class LoadError(Exception):
    """a module of the program can not be imported"""


class AnalysisError(Exception):
    """the analysis cannot proceed (vanished anchor, unparsable source)"""


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError", "OSError": "Exception",
    "FileNotFoundError": "OSError", "FileExistsError": "OSError", "PermissionError": "OSError",
    "IsADirectoryError": "OSError", "NotADirectoryError": "OSError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "StopIteration": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "UnicodeDecodeError": "ValueError", "IOError": "OSError",
    "EnvironmentError": "OSError", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "Warning": "Exception", "UserWarning": "Warning",
    "MemoryError": "Exception",
    # libraries
    "confuse.ConfigError": "Exception", "confuse.ConfigValueError": "confuse.ConfigError",
    "confuse.ConfigTypeError": "confuse.ConfigValueError", "confuse.NotFoundError": "confuse.ConfigError",
    "confuse.ConfigReadError": "confuse.ConfigError",
    "numpy.linalg.LinAlgError": "ValueError", "scipy.spatial.QhullError": "RuntimeError", "typer.Exit": "RuntimeError",
    "typer.BadParameter": "Exception", "numpy.UFuncTypeError": "TypeError", "typer.Abort": "RuntimeError",
    "pandas.errors.EmptyDataError": "ValueError", "pandas.errors.ParserError": "ValueError",
}


class Interp:
    MAXDEPTH = 60

    def __init__(self, src=None, stubs=None, config=None, faults=False, iofaults=False, opts=None):
        from . import libs
        self.src = src or os.environ.get("GVA_SRC", "/repo")
        self.stubs = dict(stubs or {})
        self.config = config
        self.faults = faults            # a loop over a collection may fail half-way
        self.iofaults = iofaults        # input/output calls may fail
        self.faultkind = {}             # exception raised by a failing step, where not the usual one
        self.opts = dict(opts or {})
        self.modules = {}
        self.trail = []
        self.facts = []
        self.factset = {}
        self.kmemo, self.smemo = {}, {}
        self.propagating = 0
        self.leafmemo = {}
        self.exc = Cells(None, "exc")
        dict.__setitem__(self.exc, "c", FALSE)
        dict.__setitem__(self.exc, "v", None)
        self.ctx = ()
        self.events = []
        self.quiet = 0
        self.depth = 0
        self.loc = ("?", "?", 0)
        self.roots = {}
        self.protected = {}
        self.foreigns = {}
        self.mirrors = {}
        self.pushes = {}
        self.unmodelled = []
        self.visited = set()            # functions analysed
        self.callsites = set()
        self.fault_conds = []
        self.libs = libs.Libs(self)
        self.stmts = 0

    # ------------------------------------------------------------ modules
    def modpath(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return q if os.path.exists(q) else None
        return p + ".py" if os.path.exists(p + ".py") else None

    def load(self, name, main=False):
        m = self.modules.get(name)
        if m:
            return m
        path = self.modpath(name)
        if path is None:
            raise AnalysisError(f"module {name} not found")
        try:
            tree = ast.parse(open(path, encoding="utf-8").read(), path)
        except SyntaxError as e:
            raise AnalysisError(f"{path}: {e}")
        fr = Frame(None, None, "<module>")
        m = ModuleV(name, fr, path)
        fr.module = m
        v = fr.vars
        dict.__setitem__(v, "__name__", "__main__" if main else name)
        dict.__setitem__(v, "__file__", LibObj("strpath", t=tt.fn("str:file", name)))
        dict.__setitem__(v, "__package__", name if path.endswith("__init__.py") else name.rpartition(".")[0])
        self.modules[name] = m
        if "." in name:
            self.load(name.rpartition(".")[0])
        saved = self.loc, self.ctx, self.quiet
        self.ctx = ()
        mark = len(self.trail)
        facts, self.facts = self.facts, []
        fset, self.factset = self.factset, {}
        self.kmemo, self.smemo = {}, {}
        before = self.exc["c"]
        self.exec_block(tree.body, fr)
        if before is FALSE and self.exc["c"] is TRUE:
            nm = self.exc_name(self.resolve(self.exc["v"]))
            if nm in ("NameError", "KeyError", "TypeError", "ZeroDivisionError"):
                raise LoadError(f"importing {name} raises {nm}")
        self.facts, self.factset = facts, fset
        self.kmemo, self.smemo = {}, {}
        del self.trail[mark:]           # module state is not branch dependent
        self.loc, self.ctx, self.quiet = saved
        return m

    def get(self, dotted):
        """geec.polyhedron:Polyhedron.get_gravity"""
        mod, _, q = dotted.partition(":")
        m = self.load(mod)
        v = m.frame.vars.get(q.split(".")[0], MISSING)
        for part in q.split(".")[1:]:
            if isinstance(v, Cls):
                v = v.find(part)[0]
        if v is MISSING:
            raise AnalysisError(f"{dotted} not found")
        return v

    # -------------------------------------------------------------- state
    def setcell(self, cells, key, val):
        self.trail.append(("c", cells, key, cells.get(key, MISSING)))
        if val is MISSING:
            cells.pop(key, None)
        else:
            dict.__setitem__(cells, key, val)
        if isinstance(cells.owner, Obj) and cells.kind == "obj":
            o = cells.owner
            if o.mirror is not None:
                self.event("foreign_write", obj=o, attr=key, value=val)
            if isinstance(val, (Obj, PhiV)):
                self.event("ref_write", obj=o, attr=key, value=val)

    def arr(self, a, fam=None, dt="f8"):
        if not isinstance(a, np.ndarray):
            a = oarr(a)
        r = root(a)
        if id(r) not in self.roots:
            own = tuple(f for f in fam or () if f is not None and f not in self.ctx)
            self.roots[id(r)] = (r, uid(), self.ctx + own)
        return Arr(a, fam, dt)

    def arrtouch(self, a):
        r = root(a.a)
        if id(r) not in self.roots:
            self.roots[id(r)] = (r, uid(), self.ctx)
        self.trail.append(("a", r, None, r.copy()))
        return r

    def cellkey(self, e):
        return (e[0], id(e[1]), e[2])

    def cellget(self, e):
        if e[0] == "a":
            return e[1].copy()
        return e[1].get(e[2], MISSING)

    def collect(self, mark):
        d = {}
        for e in self.trail[mark:]:
            k = self.cellkey(e)
            if k not in d:
                d[k] = (e, self.cellget(e))
        return d

    def undo(self, mark):
        while len(self.trail) > mark:
            kind, c, k, old = self.trail.pop()
            if kind == "a":
                c[...] = old
            elif old is MISSING:
                c.pop(k, None)
            else:
                dict.__setitem__(c, k, old)

    def rawset(self, e, val):
        if e[0] == "a":
            self.trail.append(("a", e[1], None, e[1].copy()))
            e[1][...] = val
        else:
            self.trail.append(("c", e[1], e[2], e[1].get(e[2], MISSING)))
            if val is MISSING:
                e[1].pop(e[2], None)
            else:
                dict.__setitem__(e[1], e[2], val)

    # -------------------------------------------------------------- facts
    def push(self, c):
        mark = len(self.facts)
        self._assume(tm(c))
        return mark

    def _assume(self, c):
        if c.op == "and":
            self._assume(c.args[0])
            self._assume(c.args[1])
            return
        self.facts.append(c)
        self.factset[c] = self.factset.get(c, 0) + 1
        self.kmemo, self.smemo = {}, {}
        # unit propagation
        if self.propagating > 3:
            return
        self.propagating += 1
        try:
            for f in list(self.factset):
                if f.op == "not" and f.args[0].op == "and" and len(tt.conj(f.args[0])) < 16:
                    r = self.simp(f.args[0], skip=f)
                    if r is not f.args[0]:
                        for n in self.leaves(tt.notc(r)):
                            if n is not f and n.op != "c" and n not in self.factset:
                                self._assume(n)
        finally:
            self.propagating -= 1

    def leaves(self, c):
        r = self.leafmemo.get(c)
        if r is None:
            r = self.leafmemo[c] = self.leaves(c.args[0]) + self.leaves(c.args[1]) if c.op == "and" else [c]
        return r

    def pop(self, mark):
        if len(self.facts) > mark:
            self.kmemo, self.smemo = {}, {}
        while len(self.facts) > mark:
            c = self.facts.pop()
            n = self.factset[c] - 1
            if n:
                self.factset[c] = n
            else:
                del self.factset[c]

    def known(self, c, skip=None):
        if c.op == "c":
            return bool(c.args[1])
        if not self.factset:
            return None
        key = (c, skip)
        if key in self.kmemo:
            return self.kmemo[key]
        r = self.known1(c, skip)
        self.kmemo[key] = r
        return r

    def known1(self, c, skip):
        if c in self.factset and c is not skip:
            return True
        n = tt.notc(c)
        if n in self.factset and n is not skip:
            return False
        if c.op == "not":
            r = self.known(c.args[0], skip)
            return None if r is None else not r
        if c.op == "and":
            a = self.known(c.args[0], skip)
            if a is False:
                return False
            b = self.known(c.args[1], skip)
            if b is False:
                return False
            if a and b:
                return True
        return None

    def simp(self, c, skip=None):
        c = tm(c)
        if not self.factset or c.op == "c":
            return c
        key = (c, skip)
        r = self.smemo.get(key)
        if r is None:
            r = self.smemo[key] = self.simp1(c, skip)
        return r

    def simp1(self, c, skip):
        k = self.known(c, skip)
        if k is not None:
            return TRUE if k else FALSE
        if c.op == "not":
            return tt.notc(self.simp(c.args[0], skip))
        if c.op == "and":
            return tt.andc(self.simp(c.args[0], skip), self.simp(c.args[1], skip))
        if c.op == "phi":
            return tt.phi(self.simp(c.args[0]), self.simp(c.args[1]), self.simp(c.args[2]))
        return c

    def pathcond(self):
        r = TRUE
        for f in self.facts:
            r = tt.andc(r, f)
        return r

    def resolve(self, v):
        while isinstance(v, PhiV):
            c = self.simp(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                break
        return v

    # -------------------------------------------------------------- merge
    def branch(self, c, f1, f2):
        c = self.simp(c)
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        mark = len(self.trail)
        t0 = uid()
        fm = self.push(c)
        v1 = f1()
        self.pop(fm)
        d1 = self.collect(mark)
        self.undo(mark)
        fm = self.push(tt.notc(c))
        v2 = f2()
        self.pop(fm)
        d2 = self.collect(mark)
        self.undo(mark)
        for k in list(d1) + [k for k in d2 if k not in d1]:
            e = (d1.get(k) or d2.get(k))[0]
            base = self.cellget(e)
            x = d1[k][1] if k in d1 else base
            y = d2[k][1] if k in d2 else base
            if e[0] == "c" and e[1].kind == "list" and self.born(e) > t0 and (k in d1) != (k in d2):
                # a list made on one of the two paths is only seen from there
                self.rawset(e, x if k in d1 else y)
                continue
            self.rawset(e, self.mergecell(c, e, x, y))
        return self.merge(c, v1, v2)

    def mergecell(self, c, e, x, y):
        if e[0] == "a":
            out = np.empty(x.shape, dtype=object)
            fx, fy, fo = x.reshape(-1), y.reshape(-1), out.reshape(-1)
            for k in range(fo.size):
                fo[k] = self.mergescalar(c, fx[k], fy[k])
            return out
        if e[1].kind == "list" and e[2] == "items":
            if x is MISSING or y is MISSING:
                return y if x is MISSING else x
            return self.mergeitems(c, x, y)
        if e[1].kind == "dictsym":
            n = 0
            while n < len(x) and n < len(y) and x[n] is y[n]:
                n += 1
            return x[:n] + [(k, v, tt.andc(c, q)) for k, v, q in x[n:]] + \
                [(k, v, tt.andc(tt.notc(c), q)) for k, v, q in y[n:]]
        if e[1] is self.exc and e[2] == "v":
            # only meaningful where an exception is pending
            if x is None or x is MISSING or y is None or y is MISSING:
                return y if x is None or x is MISSING else x
            return self.excmerge(c, x, y)
        return self.merge(c, x, y)

    def excmap(self, v):
        """name of the exception -> (condition, exception)"""
        m = getattr(v, "exmap", None)
        if m is not None:
            return m
        if isinstance(v, PhiV):
            a, b = self.excmap(v.a), self.excmap(v.b)
            return {k: (tt.phi(v.c, a[k][0] if k in a else FALSE, b[k][0] if k in b else FALSE), (a.get(k) or b.get(k))[1])
                    for k in list(a) + [k for k in b if k not in a]}
        return {self.exc_name(v): (TRUE, v)}

    def excmerge(self, c, x, y):
        if x is y:
            return x
        a, b = self.excmap(x), self.excmap(y)
        m = {k: (tt.phi(c, a[k][0] if k in a else FALSE, b[k][0] if k in b else FALSE), (a.get(k) or b.get(k))[1])
             for k in list(a) + [k for k in b if k not in a]}
        ls = list(m.values())
        r = ls[-1][1]
        for q, v in reversed(ls[:-1]):
            r = PhiV(q, v, r)
        if isinstance(r, PhiV):
            r.exmap = m
        return r

    def mergescalar(self, c, x, y):
        if x is y:
            return x
        if x is None or y is None or x is MISSING or y is MISSING:
            return y if x is None or x is MISSING else x
        if is_scalar(x) and is_scalar(y):
            return tt.phi(c, x, y)
        return self.opq("merge")

    def mergeitems(self, c, x, y):
        n = 0
        while n < len(x) and n < len(y) and x[n] is y[n]:
            n += 1
        if len(x) == len(y) and not any(isinstance(u, (Guard, Splice)) for u in x[n:] + y[n:]):
            return x[:n] + [self.merge(c, u, v) for u, v in zip(x[n:], y[n:])]
        return x[:n] + [self._guarded(c, u) for u in x[n:]] + [self._guarded(tt.notc(c), u) for u in y[n:]]

    def _guarded(self, c, u):
        if isinstance(u, Guard):
            return Guard(tt.andc(c, u.c), u.v)
        if isinstance(u, Splice):
            return Splice(u.i, u.items, c if u.cond is None else tt.andc(c, u.cond))
        return Guard(c, u)

    def merge(self, c, x, y):
        if x is y:
            return x
        if x is MISSING:
            return y
        if y is MISSING:
            return x
        if is_scalar(x) and is_scalar(y):
            return tt.phi(c, x, y)
        if isinstance(x, str) and isinstance(y, str) and x == y:
            return x
        if isinstance(x, Arr) and isinstance(y, Arr) and x.same(y) and x.fam == y.fam:
            return x
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and \
                not any(isinstance(v, (str, int)) for v in x[:0]):
            if getattr(x, "cls", None) is getattr(y, "cls", None):
                return like(x, [self.merge(c, a, b) for a, b in zip(x, y)])
        if isinstance(x, PhiV) and x.c is c:
            x = x.a
        if isinstance(y, PhiV) and y.c is c:
            y = y.b
        if x is y:
            return x
        return PhiV(c, x, y)

    def force(self, v):
        """PhiV of arrays/scalars -> one array/scalar"""
        v = self.resolve(v)
        if not isinstance(v, PhiV):
            return v
        t = self.optional(v, {})
        if t is not None:
            c, x = t
            c = self.simp(c)
            if x is not None:
                return x if c is FALSE else None if c is TRUE else PhiV(c, None, x)
            return None
        a, b = self.force(v.a), self.force(v.b)
        if is_scalar(a) and is_scalar(b):
            return tt.phi(v.c, a, b)
        return PhiV(v.c, a, b)

    def optional(self, v, memo):
        """(condition that v is None, v otherwise) for alternatives that are None or arrays of one shape
        (or None or scalars); None if v is anything else"""
        if isinstance(v, PhiV):
            k = id(v)
            if k in memo:
                return memo[k][1]
            c = self.simp(v.c)
            if c.op == "c":
                r = self.optional(v.a if c.args[1] else v.b, memo)
            else:
                a, b = self.optional(v.a, memo), self.optional(v.b, memo)
                r = None
                if a is not None and b is not None:
                    x = self.forcemerge(v.c, a[1], b[1])
                    if x is not MISSING:
                        r = (tt.phi(v.c, a[0], b[0]), x)
            memo[k] = (v, r)
            return r
        if v is None:
            return (TRUE, None)
        if isinstance(v, Arr) or is_scalar(v):
            return (FALSE, v)
        return None

    def forcemerge(self, c, a, b):
        if a is None or b is None:
            return b if a is None else a
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.same(b) and a.fam == b.fam:
                return a
            if a.a.shape == b.a.shape and a.fam == b.fam:
                out = np.empty(a.a.shape, dtype=object)
                fa, fb = a.a.reshape(-1), b.a.reshape(-1)
                out.reshape(-1)[:] = [self.mergescalar(c, p, q) for p, q in zip(fa, fb)]
                return self.arr(out, a.fam, a.dt if a.dt == b.dt else "f8")
            return MISSING
        if is_scalar(a) and is_scalar(b):
            return tt.phi(c, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Arr) and isinstance(y, T) and tt.taints(y):
                # an array or something unmodelled
                out = np.empty(x.a.shape, dtype=object)
                fx = x.a.reshape(-1)
                out.reshape(-1)[:] = [self.mergescalar(c, p, y) if x is a else self.mergescalar(c, y, p) for p in fx]
                return self.arr(out, x.fam, x.dt)
        return MISSING

    def dist(self, v, f):
        """apply f under every alternative of v"""
        v = self.resolve(v)
        if isinstance(v, PhiV):
            return self.branch(v.c, lambda: self.dist(v.a, f), lambda: self.dist(v.b, f))
        return f(v)

    # ------------------------------------------------------------- events
    def event(self, kind, **d):
        if self.quiet:
            return
        d["kind"], d["loc"], d["path"] = kind, self.loc, tuple(self.facts)
        d["exc"] = self.exc["c"]
        d["ctx"] = self.ctx
        self.events.append(d)

    def effects(self, mark=0):
        """effects on files: opening a file and writing into it is one write, writing aside and renaming too"""
        out = []
        for x in self.events[mark:]:
            f = x.get("file")
            if isinstance(f, tuple) and len(f) > 1 and list(f[1]) == ["/dev/null"]:
                continue
            if x["kind"] == "rename":
                hit = [y for y in out if y["kind"] == "write" and y["file"] == x["file"]]
                if hit:
                    for y in hit:
                        out[out.index(y)] = dict(y, file=x["to"], path=x["path"])
                    continue
            elif x["kind"] == "write" and x.get("stream") is not None and x.get("how") != "create":
                hit = [y for y in out if y.get("stream") is x["stream"] and y.get("how") == "create"]
                if hit and all(c in hit[0]["path"] or c in x["path"] and c.op == "not" and c.args[0].op == "fn" and
                               c.args[0].args[0] in ("fails:write", "fails:open") for c in x["path"]):
                    out.remove(hit[0])
            elif x["kind"] not in ("write", "delete"):
                continue
            out.append(x)
        return out

    def opq(self, tag, *vals):
        ts = []
        for v in vals:
            ts += self.scalars(v)
        f, fn, ln = self.loc
        self.unmodelled.append(f"{tag} in {fn} ({os.path.basename(f)})")
        return tt.opaque(f"{tag}@{os.path.basename(f)}:{fn}", *ts[:40])

    def opqc(self, tag, *vals):
        t = self.opq("cond:" + tag, *vals)
        return t

    def misshapen(self, name, what, *xs):
        """raise for operands whose shapes do not fit, which says nothing about a value without a model"""
        def unknown(x):
            if isinstance(x, Arr):
                return x.a.size and all(isinstance(q, T) and unknown(q) for q in x.a.reshape(-1)[:4])
            if isinstance(x, T) and x.op == "phi":
                return unknown(x.args[1]) or unknown(x.args[2])
            return isinstance(x, T) and x.op == "fn" and x.args[0].startswith("?")
        self.raise_(name, self.opqc(what) if any(unknown(x) for x in xs) else TRUE, what=what)

    def scalars(self, v, depth=3):
        """scalar terms inside a value (used as arguments of unmodelled calls)"""
        if is_scalar(v) or isinstance(v, str):
            return [tm(v)]
        if depth == 0 or v is None:
            return []
        if isinstance(v, Arr):
            return [tm(x) for x in v.a.reshape(-1)[:9] if x is not None]
        if isinstance(v, PhiV):
            return [tm(v.c)] + self.scalars(v.a, depth - 1) + self.scalars(v.b, depth - 1)
        if isinstance(v, (tuple, list)):
            return [t for x in v for t in self.scalars(x, depth - 1)]
        if isinstance(v, LList):
            return [t for x in v.items for t in self.scalars(x.v if isinstance(x, Guard) else x, depth - 1)]
        if isinstance(v, Splice):
            return [tt.lam(v.i, self.scalars(v.items, depth - 1))]
        if isinstance(v, LibObj) and isinstance(v.d.get("t"), T):
            return [v.d["t"]]
        return []

    # ---------------------------------------------------------- exceptions
    def raise_(self, name, cond=TRUE, **info):
        """raise a library exception under cond"""
        e = LibObj("exc", name=name, **info)

        def go():
            self.event("raise", name=name)
            self.setcell(self.exc, "c", TRUE)
            self.setcell(self.exc, "v", e)
        self.branch(tt.andc(tt.notc(self.exc["c"]), cond), go, lambda: None)

    def live(self, f, dead=None):
        """run f unless an exception is pending"""
        c = self.simp(self.exc["c"])
        if c is FALSE:
            return f()
        return self.branch(c, lambda: dead, f)

    def exc_name(self, v):
        if isinstance(v, LibObj) and v.kind == "exc":
            return v.d["name"]
        if isinstance(v, Obj):
            return v.cls.name
        if isinstance(v, Lib):
            return v.name.replace("builtins.", "")
        if isinstance(v, Cls):
            return v.name
        return "Exception"

    def exc_isa(self, v, types):
        """condition: exception value v is an instance of one of types"""
        v = self.resolve(v)
        if isinstance(v, PhiV):
            return tt.phi(v.c, self.exc_isa(v.a, types), self.exc_isa(v.b, types))
        if types is None:
            return TRUE
        ts = types if isinstance(types, tuple) else (types,)
        names = set()
        if isinstance(v, Obj):
            for c in v.cls.mro():
                names.add(c.name.replace("builtins.", ""))
            names |= {"Exception", "BaseException"}
        elif isinstance(v, LibObj) and v.kind == "exc":
            n = v.d["name"]
            if n == "?any":
                return TRUE if any(self.exc_name(t) in ("Exception", "BaseException") for t in ts) \
                    else self.opqc("exctype")
            while n:
                names.add(n)
                n = BUILTIN_EXC.get(n, "Exception" if n not in BUILTIN_EXC else None)
        else:
            return TRUE
        for t in ts:
            if isinstance(t, Cls):
                if t.name in names:
                    return TRUE
            elif isinstance(t, Lib):
                if t.name.replace("builtins.", "") in names:
                    return TRUE
        return FALSE

    # ---------------------------------------------------------- statements
    def abrupt(self, fr):
        c = fr.ctl
        r = tt.orc(tt.orc(c["ret"], c["brk"]), tt.orc(c["cont"], self.exc["c"]))
        return self.simp(r)

    def exec_block(self, stmts, fr):
        for k, st in enumerate(stmts):
            self.exec_stmt(st, fr)
            ab = self.abrupt(fr)
            if ab is TRUE:
                return
            if ab is not FALSE:
                rest = stmts[k + 1:]
                if rest:
                    self.branch(ab, lambda: None, lambda: self.exec_block(rest, fr))
                return

    def exec_stmt(self, st, fr):
        self.stmts += 1
        self.loc = (fr.module.path if fr.module else "?", fr.fname, st.lineno)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.opq("stmt:" + type(st).__name__)
            return
        m(st, fr)

    def s_Expr(self, st, fr):
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)

        def go():
            for t in st.targets:
                self.assign(t, v, fr)
        self.live(go)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            v = self.eval(st.value, fr)
            self.live(lambda: self.assign(st.target, v, fr))

    def s_AugAssign(self, st, fr):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.eval(st.value, fr)
            self.live(lambda: self.assign(t, self.inplace(op, cur, v), fr))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)

            def one(o1):
                cur = self.getattr(o1, t.attr)
                v = self.eval(st.value, fr)

                def go():
                    r = self.inplace(op, cur, v)
                    self.setattr(o1, t.attr, r)
                self.live(go)
            self.dist(o, one)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.evalindex(t.slice, fr)

            def one(o1):
                cur = self.getitem(o1, i)
                v = self.eval(st.value, fr)

                def go():
                    r = self.inplace(op, cur, v)
                    if not (isinstance(r, Arr) and isinstance(self.resolve(cur), Arr) and r.same(self.resolve(cur))
                            and isinstance(o1, Arr) and root(r.a) is root(o1.a)):
                        self.setitem(o1, i, r)
                self.live(go)
            self.dist(o, one)

    def inplace(self, op, cur, v):
        cur = self.resolve(cur)
        if isinstance(cur, PhiV):
            return self.branch(cur.c, lambda: self.inplace(op, cur.a, v), lambda: self.inplace(op, cur.b, v))
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            r = self.force(r)
            if isinstance(r, Arr) and r.a.shape == cur.a.shape:
                if cur.dt == "i8" and r.dt in ("f8", "f4", "cfg"):
                    self.raise_("numpy.UFuncTypeError")
                elif cur.dt == "cfg" and r.dt == "f8" and not isinstance(v, int):
                    self.raise_("numpy.UFuncTypeError", tt.fn("cond:intcfg"))
                self.live(lambda: self.arrstore(cur, r.a))
                return cur
            self.taint_array(cur, "in-place " + op)
            return cur
        if isinstance(cur, LList) and op == "Add" and cur.kind == "list":
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, LList) and op == "BitOr" and cur.kind == "set":
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, LDict) and op == "BitOr":
            self.libs.dict_update(cur, v)
            return cur
        if isinstance(cur, (Obj, NT)):
            f, _ = cur.cls.find("__i" + self.DUNDER.get(op, "?") + "__")
            if f is not MISSING:
                return self.call(Bound(f, cur), [v], {})
        return self.binop(op, cur, v)

    def arrstore(self, view, data):
        """write data (broadcast) into the memory of view"""
        data = np.broadcast_to(data, view.a.shape) if isinstance(data, np.ndarray) else data
        new = np.empty(view.a.shape, dtype=object)
        new[...] = data
        if view.dt in ("f4", "i8", "f2"):
            w = {"f4": "float32", "i8": "int", "f2": "float16"}[view.dt]
            nf = new.reshape(-1)
            for k in range(nf.size):
                x = nf[k]
                if view.dt == "i8" and as_int(x) is not None:
                    continue
                if isinstance(x, T) and x.op == "fn" and x.args[0] in (w, "simp", "neigh", "vert"):
                    continue
                if view.dt == "i8" and isinstance(x, T) and self.libs.integral(x):
                    continue
                nf[k] = tt.fn(w, x)
        changed = any(a is not b and not (tm(a) is tm(b) if is_scalar(a) and is_scalar(b) else False)
                      for a, b in zip(view.a.reshape(-1), new.reshape(-1)))
        r = root(view.a)
        if changed:
            if id(r) in self.protected:
                self.event("mutate", label=self.protected[id(r)])
            self.arrtouch(view)
            view.a[...] = new

    def taint_array(self, a, why):
        r = root(a.a)
        self.arrtouch(a)
        for k in range(a.a.size):
            idx = np.unravel_index(k, a.a.shape)
            a.a[idx] = self.opq(why, tm(k))
        if id(r) in self.protected:
            self.event("mutate", label=self.protected[id(r)])

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.dist(o, lambda o1: self.setattr(o1, t.attr, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.evalindex(t.slice, fr)
            self.dist(o, lambda o1: self.setitem(o1, i, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def bind(self, name, v, fr):
        f = fr
        if name in fr.globals_:
            f = fr.module.frame
        elif name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.vars:
                f = f.parent
            f = f or fr.module.frame
        self.setcell(f.vars, name, v)

    def unpack(self, elts, v, fr):
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.resolve(v)
        if isinstance(v, PhiV):
            v = self.force(v)
        if isinstance(v, PhiV):
            parts = [self.dist(v, lambda x, k=k: self.unpack_vals(x, len(elts))[k]) for k in range(len(elts))]
        elif star:
            vals = self.tolist(v)
            k = star[0]
            n = len(elts) - k - 1
            mid = vals[k:len(vals) - n]
            parts = vals[:k] + [LList(mid, self.ctx)] + (vals[len(vals) - n:] if n else [])
        else:
            parts = self.unpack_vals(v, len(elts))
        for e, p in zip(elts, parts):
            self.assign(e, p, fr)

    def unpack_vals(self, v, n):
        if isinstance(v, T):
            return [self.opq("unpack", v, k) for k in range(n)]
        vals = self.tolist(v)
        if vals is None:
            return [self.opq("unpack", v, k) for k in range(n)]
        if len(vals) != n:
            self.raise_("ValueError")
            vals = (vals + [self.opq("unpack")] * n)[:n]
        return vals

    def tolist(self, v):
        """python list of the elements, or None if not enumerable"""
        segs = self.segments(v)
        if segs is None:
            return None
        out = []
        for s in segs:
            if s[0] != "one":
                return None
            out.append(s[1])
        return out

    def s_Return(self, st, fr):
        v = self.eval(st.value, fr) if st.value is not None else None

        def go():
            self.setcell(fr.ctl, "ret", TRUE)
            self.setcell(fr.ctl, "retval", v)
        self.live(go)

    def s_Break(self, st, fr):
        self.setcell(fr.ctl, "brk", TRUE)

    def s_Continue(self, st, fr):
        self.setcell(fr.ctl, "cont", TRUE)

    def s_If(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        self.live(lambda: self.branch(c, lambda: self.exec_block(st.body, fr),
                                      lambda: self.exec_block(st.orelse, fr)))

    def s_Assert(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        self.raise_("AssertionError", tt.notc(c))

    def s_Raise(self, st, fr):
        if st.exc is None:
            v = fr.vars.get("%exc")
            f = fr
            while v is None and f.parent is not None:
                f = f.parent
                v = f.vars.get("%exc")
        else:
            v = self.eval(st.exc, fr)
            if st.cause is not None:
                self.eval(st.cause, fr)
            if isinstance(v, (Lib, Cls)):
                v = self.call(v, [], {})

        def go():
            self.event("raise", name=self.exc_name(v))
            self.setcell(self.exc, "c", TRUE)
            self.setcell(self.exc, "v", v)
        self.live(go)

    def s_Try(self, st, fr):
        self.setcell(fr.vars, "%try", (fr.vars.get("%try", 0) or 0) + 1)
        self.exec_block(st.body, fr)
        E = self.simp(self.exc["c"])
        if st.orelse:
            ab = self.abrupt(fr)
            self.branch(ab, lambda: None, lambda: self.exec_block(st.orelse, fr))
        if E is not FALSE and st.handlers:
            v = self.exc["v"]

            def handle():
                self.handlers(st.handlers, v, fr)
            self.branch(E, handle, lambda: None)
        if st.finalbody:
            saved = [(fr.ctl, k, fr.ctl.get(k, MISSING)) for k in ("ret", "brk", "cont", "retval")]
            saved += [(self.exc, k, self.exc[k]) for k in ("c", "v")]
            for c, k, old in saved:
                self.setcell(c, k, FALSE if k in ("ret", "brk", "cont", "c") else old)
            faults, self.faults = self.faults, False
            self.exec_block(st.finalbody, fr)
            self.faults = faults
            ab = self.abrupt(fr)
            if ab is TRUE:
                return
            # otherwise the pending outcome resumes
            def restore():
                for c, k, old in saved:
                    self.setcell(c, k, old)
            self.branch(ab, lambda: None, restore)

    s_TryStar = s_Try

    def handlers(self, hs, v, fr):
        if not hs:
            return
        h = hs[0]
        types = None if h.type is None else self.eval(h.type, fr)
        c = self.exc_isa(v, types)

        def take():
            self.setcell(self.exc, "c", FALSE)
            self.event("handle", name=self.exc_name(v), types=types)
            old = fr.vars.get("%exc", MISSING)
            self.setcell(fr.vars, "%exc", v)
            if h.name:
                self.setcell(fr.vars, h.name, v)
            self.exec_block(h.body, fr)
            self.setcell(fr.vars, "%exc", old)
        self.branch(c, take, lambda: self.handlers(hs[1:], v, fr))

    def s_With(self, st, fr):
        def run(k):
            if k == len(st.items):
                self.live(lambda: self.exec_block(st.body, fr))
                return
            it = st.items[k]
            m = self.eval(it.context_expr, fr)

            def body(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                run(k + 1)
            self.managed(m, body, fr)
        run(0)

    def managed(self, m, body, fr):
        """the body of a with statement, between entering and leaving what manages it"""
        m = self.resolve(m)
        if isinstance(m, LibObj) and m.kind == "ctxcall":
            self.within = body          # the body stands where the generator yields
            self.callfunc0(m.d["f"], m.d["args"], m.d["kw"])
            return
        v = self.libs.enter(m)
        body(v)
        faults, self.faults = self.faults, False
        self.libs.leave(m, fr)
        self.faults = faults

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.setcell(fr.vars, t.id, MISSING)
            elif isinstance(t, ast.Attribute):
                self.dist(self.eval(t.value, fr), lambda o: self.setcell(o.attrs, t.attr, MISSING)
                          if isinstance(o, Obj) else None)
            elif isinstance(t, ast.Subscript):
                o = self.resolve(self.eval(t.value, fr))
                i = self.evalindex(t.slice, fr)
                self.libs.delitem(o, i)

    def s_Import(self, st, fr):
        for a in st.names:
            if self.modpath(a.name):
                self.load(a.name)
                if a.asname:
                    self.bind(a.asname, self.modules[a.name], fr)
                else:
                    self.bind(a.name.split(".")[0], self.load(a.name.split(".")[0]), fr)
            elif a.asname:
                self.bind(a.asname, Lib(self.canon(a.name)), fr)
            else:
                self.bind(a.name.split(".")[0], Lib(self.canon(a.name.split(".")[0])), fr)

    def canon(self, n):
        return n

    def s_ImportFrom(self, st, fr):
        mod = st.module or ""
        if st.level:
            base = fr.module.name.split(".")
            if not fr.module.path.endswith("__init__.py"):
                base = base[:-1]
            if st.level > 1:
                base = base[:-(st.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in st.names:
            nm = a.asname or a.name
            if self.modpath(mod):
                m = self.load(mod)
                if a.name == "*":
                    for k, v in list(m.frame.vars.items()):
                        if not k.startswith("_"):
                            self.bind(k, v, fr)
                elif a.name in m.frame.vars:
                    self.bind(nm, m.frame.vars[a.name], fr)
                elif self.modpath(mod + "." + a.name):
                    self.bind(nm, self.load(mod + "." + a.name), fr)
                else:
                    self.bind(nm, self.opq(f"import {mod}.{a.name}"), fr)
            else:
                self.bind(nm, Lib(mod + "." + a.name), fr)

    # ---------------------------------------------------------- definitions
    def s_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            v = self.decorate(dv, v)
        self.bind(st.name, v, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def mkfunc(self, node, fr, name):
        qual = name if fr.fname in ("<module>",) else f"{fr.fname}.{name}"
        f = Func(node, fr, qual)
        a = node.args
        f.defaults = [self.eval(d, fr) for d in a.defaults]
        f.kwdefaults = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return f

    def decorate(self, d, v):
        n = d.name if isinstance(d, Lib) else None
        if n == "builtins.property" or n in ("functools.cached_property",):
            v.kind = "property"
            v.cached = LDict() if n != "builtins.property" else None
            return v
        if n == "builtins.staticmethod":
            v.kind = "static"
            return v
        if n == "builtins.classmethod":
            v.kind = "class"
            return v
        if n in ("functools.lru_cache", "functools.cache"):
            v.cached = []
            return v
        if isinstance(d, LibObj) and d.kind == "deco":
            k = d.d["what"]
            if k == "cache":
                v.cached = []
                return v
            if k == "wraps":
                if isinstance(v, Func):
                    v.wrapped = d.d["f"]
                return v
            if k == "typer":
                d.d["app"].d[d.d["reg"]].append(v if d.d["reg"] == "callbacks" else (d.d["name"], v))
                return v
            if k == "swallow":
                if self.resolve(d.d["kw"].get("reraise", False)) is not True and isinstance(v, Func):
                    v.swallow = d.d["kw"]
                return v
            if k == "dataclass":
                return self.libs.dataclass(v, d.d["kw"])
            if k == "setter":
                d.d["prop"].fset = v
                return d.d["prop"]
            return v
        if n == "contextlib.contextmanager" and isinstance(v, Func):
            v.ctxman = True
            return v
        if n == "dataclasses.dataclass":
            return self.libs.dataclass(v, {})
        if n == "loguru.logger.catch" and isinstance(v, Func):
            v.swallow = {}
            return v
        if n and (n.startswith("numba") or n.startswith("typing") or n.startswith("line_profiler")
                  or n in ("enum.unique", "abc.abstractmethod")):
            return v
        if isinstance(d, (Func, Bound, Partial)):
            return self.call(d, [v], {})
        if isinstance(d, Lib) and isinstance(v, Func):
            self.opq(f"decorator {n}")
        return v

    def s_ClassDef(self, st, fr):
        c = Cls(st.name, fr.module)
        c.node, direct = st, False
        c.bases = [self.eval(b, fr) for b in st.bases]
        for b in c.bases:
            if isinstance(b, Cls):
                c.enum |= b.enum
                c.strenum |= b.strenum
                if b.dc and not c.dc:
                    c.dc = b.dc
                c.nt |= b.nt
            elif isinstance(b, Lib):
                if b.name in ("enum.Enum", "enum.StrEnum", "enum.IntEnum", "enum.Flag"):
                    c.enum = True
                if b.name in ("enum.StrEnum", "builtins.str"):
                    c.strenum = True
                if b.name == "typing.NamedTuple":
                    c.nt = direct = True
        if not c.enum:
            c.strenum = False
        sub = Frame(fr, fr.module, st.name)
        sub.cls = c
        order = []
        for b in st.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.mkfunc(b, fr, b.name)
                f.name = f"{st.name}.{b.name}"
                f.cls = c
                f.frame = fr
                v = f
                for d in reversed(b.decorator_list):
                    if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter") and \
                            isinstance(d.value, ast.Name) and d.value.id in sub.vars:
                        p = sub.vars[d.value.id]
                        if d.attr == "setter":
                            p.fset = v
                        v = p
                        continue
                    v = self.decorate(self.eval(d, sub), v)
                dict.__setitem__(sub.vars, b.name, v)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                dv = self.eval(b.value, sub) if b.value is not None else MISSING
                order.append((b.target.id, dv))
                if dv is not MISSING:
                    dict.__setitem__(sub.vars, b.target.id, dv)
            else:
                self.exec_stmt(b, sub)
        c.ns = dict(sub.vars)
        c.annot = order
        if c.enum:
            byval = {}
            for b in st.body:
                if isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                    n = b.targets[0].id
                    val = c.ns.get(n)
                    if n.startswith("__") or isinstance(val, Func):
                        continue
                    if isinstance(val, LibObj) and val.kind == "auto":
                        val = n.lower() if c.strenum else len(byval) + 1
                    k = val if isinstance(val, (str, int)) else id(val)
                    if k in byval:
                        m = byval[k]
                    else:
                        m = Obj(c)
                        dict.__setitem__(m.attrs, "name", n)
                        dict.__setitem__(m.attrs, "value", val)
                        byval[k] = m
                    c.members[n] = m
                    c.ns[n] = m
        if direct:
            self.libs.dataclass(c, {})
        v = c
        for d in reversed(st.decorator_list):
            v = self.decorate(self.eval(d, fr), v)
        self.bind(st.name, v, fr)

    # --------------------------------------------------------------- match
    def s_Match(self, st, fr):
        subj = self.eval(st.subject, fr)

        def run(cases):
            if not cases:
                return
            cs = cases[0]
            c = self.pattern(cs.pattern, subj, fr)

            def take():
                if cs.guard is not None:
                    g = self.truth(self.eval(cs.guard, fr))
                    self.branch(g, lambda: self.exec_block(cs.body, fr), lambda: run(cases[1:]))
                else:
                    self.exec_block(cs.body, fr)
            self.branch(c, take, lambda: run(cases[1:]))
        self.live(lambda: run(st.cases))

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", v, p.value))
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                r = tt.orc(r, self.pattern(q, v, fr))
            return r
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, v, fr)
            if p.name:
                self.bind(p.name, v, fr)
            return c
        if isinstance(p, ast.MatchSequence):
            vals = self.tolist(v)
            if vals is None:
                return self.opqc("match")
            if len(vals) != len(p.patterns):
                return FALSE
            r = TRUE
            for q, x in zip(p.patterns, vals):
                r = tt.andc(r, self.pattern(q, x, fr))
            return r
        if isinstance(p, ast.MatchClass):
            r = self.truth(self.libs.isinstance_(v, self.eval(p.cls, fr)))
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                r = tt.andc(r, self.pattern(q, self.getattr(v, k), fr))
            return r
        return self.opqc("match")

    # --------------------------------------------------------------- loops
    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)

        def loop(it1):
            segs = self.segments(it1)
            if segs is None:
                segs = self.opaque_segs(it1)
            self.run_segs(segs, lambda v: self.loop_body(st, v, fr), fr)
            if st.orelse:
                done = tt.orc(self.exc["c"], tt.orc(fr.ctl["ret"], fr.ctl.get("%brk", FALSE)))
                self.branch(done, lambda: None, lambda: self.exec_block(st.orelse, fr))
        self.live(lambda: self.dist(it, loop))

    def opaque_segs(self, it):
        t = self.opq("iterate", it)
        j = tt.fresh_index("?" + str(uid()))
        return [("fam", j, [self.opq("element", t, j)], None)]

    def loop_body(self, st, v, fr):
        self.assign(st.target, v, fr)
        self.exec_block(st.body, fr)

    def run_segs(self, segs, body, fr):
        """body(v) for every element; honours break/continue/return of frame fr"""
        oldbrk = fr.ctl["brk"]

        def run(k):
            while k < len(segs):
                s = segs[k]
                if s[0] == "one":
                    body(s[1])
                elif s[0] == "guard":
                    self.branch(s[1], lambda: body(s[2]), lambda: None)
                else:
                    self.fam_loop(s[1], s[2], s[3], body, fr)
                self.setcell(fr.ctl, "cont", FALSE)
                k += 1
                ab = self.simp(tt.orc(self.exec_pending(fr), fr.ctl["brk"]))
                if ab is TRUE:
                    return
                if ab is not FALSE:
                    self.branch(ab, lambda: None, lambda: run(k))
                    return
        run(0)
        dict.__setitem__(fr.ctl, "%brk", fr.ctl["brk"])
        self.setcell(fr.ctl, "brk", oldbrk)

    def exec_pending(self, fr):
        return tt.orc(fr.ctl["ret"], self.exc["c"])

    def owned(self, e, i):
        """cell belongs to the generic element of index i"""
        if e[0] == "a":
            return i in self.roots[id(e[1])][2]
        return i in e[1].ctx

    def before(self, e, mark):
        """value the cell had at the mark"""
        for f in self.trail[mark:]:
            if f[1] is e[1] and f[2] == e[2]:
                return f[3]
        return MISSING

    def born(self, e):
        return self.roots[id(e[1])][1] if e[0] == "a" else e[1].uid

    def fam_loop(self, i, items, cond, body, fr):
        if i in self.ctx:
            j = tt.fresh_index(i.args[3])
            items = [self.foreign(x, i, j) for x in items]
            cond = None if cond is None else tt.subst(cond, {i: j})
            i = j

        def once():
            for x in items:
                if isinstance(x, Guard):
                    c = x.c if cond is None else tt.andc(cond, x.c)
                    self.branch(c, lambda: body(x.v), lambda: None)
                elif cond is not None:
                    self.branch(cond, lambda: body(x), lambda: None)
                else:
                    body(x)
                self.setcell(fr.ctl, "cont", FALSE)
        self.fam_run(i, once, fr)

    def fam_run(self, i, once, fr):
        if self.exc["c"] is not FALSE and self.simp(self.exc["c"]) is FALSE:
            self.setcell(self.exc, "c", FALSE)
        ctx = self.ctx
        now = uid()
        mark = len(self.trail)
        # discovery pass: which cells does one iteration write?
        self.quiet += 1
        self.ctx = ctx + (i,)
        once()
        self.ctx = ctx
        self.quiet -= 1
        dA = self.collect(mark)
        self.undo(mark)
        ctlids = {id(fr.ctl), id(self.exc)}
        carried, mine, foreign = [], [], []
        for k, (e, val) in dA.items():
            if e[0] == "c" and id(e[1]) in ctlids:
                continue
            if self.owned(e, i):
                mine.append((e, val))
                if e[0] == "c" and isinstance(e[1].owner, Obj) and e[1].owner.mirror and \
                        e[1].owner.mirror[1] is i:
                    foreign.append((e, val))
            elif self.born(e) < now and not (e[0] == "c" and e[1].get(e[2], MISSING) is val):
                carried.append((e, val))
        # interference: elements written through other elements of the family
        entry = {}
        for e, val in foreign:
            tmpl = e[1].owner.mirror[0]
            key = (tmpl.uid, e[2])
            base = tmpl.attrs.get(e[2], MISSING)
            sk = self.skel(self.resolve(val))
            sb = self.skel(base) if base is not MISSING else ("none",)
            j = self.sjoin(sk, sb) if sk and sb else None
            if sk is None or sk[0] == "k" or j is None:
                continue
            if key not in self.pushes:
                core = sk[1] if sk[0] == "opt" else sk
                if core[0] == "none":
                    continue
                pv, syms = self.smake(core, "push")
                # attributes stored together, under one condition, arrive together
                when = (tmpl.uid, tt.notc(self.isnone(val)))
                cond = next((q["cond"] for q in self.pushes.values() if q["when"] == when), None)
                self.pushes[key] = dict(cond=tt.fresh("pushed", tt.BOOL) if cond is None else cond, when=when, value=pv, syms=syms, obj=tmpl, attr=e[2],
                                        i=i)
            p = self.pushes[key]
            pv = self.copyval(p["value"])
            entry[(tmpl, e[2])] = PhiV(p["cond"], pv, None if base is MISSING else base)
        sks = {}
        for it in range(3):
            self.undo(mark)
            for (tmpl, a), v in entry.items():
                self.rawset(("c", tmpl.attrs, a), v)
            plan = []
            for e, val in carried:
                base = self.cellget(e)
                k = self.cellkey(e)
                if e[0] == "a":
                    syms = np.empty(base.shape, dtype=object)
                    for q in range(syms.size):
                        syms.reshape(-1)[q] = tt.fresh("carry")
                    self.rawset(e, syms)
                    plan.append(("arr", e, base, syms))
                elif e[1].kind == "list" and e[2] == "items":
                    m = LibObj("mark")
                    if base is MISSING:
                        continue
                    self.rawset(e, [m])
                    plan.append(("list", e, base, m))
                elif base is MISSING:
                    plan.append(("new", e, base, None))
                else:
                    s0 = sks.get(k) or self.skel(base)
                    s1 = self.skel(val)
                    s = self.sjoin(s0, s1) if s0 and s1 else None
                    if s is None:
                        plan.append(("opq", e, base, None))
                        self.rawset(e, self.opq("loop-carried", base))
                    elif s[0] == "k":
                        plan.append(("same", e, base, None))
                    else:
                        sks[k] = s
                        cvv, syms = self.smake(s, "carry")
                        self.rawset(e, cvv)
                        plan.append(("skel", e, base, (s, syms)))
            mark2 = len(self.trail)
            if it < 2:
                self.quiet += 1
            self.ctx = ctx + (i,)
            once()
            self.ctx = ctx
            if it < 2:
                self.quiet -= 1
            dB = self.collect(mark2)
            # is the carried shape stable?
            stable = True
            known = {self.cellkey(e) for e, _ in carried} | {self.cellkey(e) for e, _ in mine}
            for k, (e, val) in dB.items():
                if e[0] == "c" and (id(e[1]) in ctlids or k not in known and self.before(e, mark2) is val):
                    continue
                if k not in known and self.born(e) < now and not self.owned(e, i):
                    carried.append((e, val))
                    stable = False
                elif k in sks:
                    s = self.sjoin(sks[k], self.skel(val) or ("?",))
                    if s != sks[k]:
                        stable = False
                        carried = [(e2, (val if self.cellkey(e2) == k else v2)) for e2, v2 in carried]
                        if s is None:
                            sks.pop(k)
            if stable and it == 2:
                break
            if stable:
                # final, recorded pass
                self.undo(mark2)
                self.ctx = ctx + (i,)
                once()
                self.ctx = ctx
                dB = self.collect(mark2)
                break
        ctl = {k: fr.ctl.get(k, MISSING) for k in ("ret", "brk", "retval")}
        ec, ev_ = self.exc["c"], self.exc["v"]
        after = {k: v for k, (e, v) in dB.items()}
        cellsB = {k: e for k, (e, v) in dB.items()}
        self.undo(mark)
        stop = self.simp(tt.orc(ctl["brk"], ctl["ret"]))
        if ec is not FALSE:
            # what follows the loop only sees iterations that did not raise
            fm = self.push(tt.notc(ec))
            after = {k: self.settle(v) for k, v in after.items()}
            self.pop(fm)
        # slots
        carries, inits, steps, outs = [], [], [], []
        for kind, e, base, x in plan:
            k = self.cellkey(e)
            if kind == "arr":
                val = after.get(k)
                bf, sf = base.reshape(-1), x.reshape(-1)
                vf = sf if val is None else val.reshape(-1)
                outs.append((kind, e, base, (len(carries), base.shape)))
                carries += list(sf)
                inits += list(bf)
                steps += list(vf)
            elif kind == "skel":
                s, syms = x
                val = after.get(k, MISSING)
                st = list(syms) if val is MISSING else self.sflat(s, val)
                outs.append((kind, e, base, (len(carries), s)))
                carries += list(syms)
                inits += self.sflat(s, base)
                steps += st
            else:
                outs.append((kind, e, base, x))
        cset = set(carries)
        inits = [tm(0) if v is None else v for v in inits]
        steps = [tm(0) if v is None else tm(v) for v in steps]

        def slot(q):
            if steps[q] is carries[q]:
                return inits[q]
            if stop is FALSE:
                e = tt.lin(steps[q], carries[q])
                if e is not None and not (e.fs & cset):
                    return tt.add(inits[q], tt.summ(i, e))
            return self.mkloop(i, carries, inits, steps, stop, q)

        fault = None
        if self.faults and not self.quiet:
            fault = tt.fresh("fault", tt.BOOL)
            self.fault_conds.append(fault)
        for kind, e, base, x in outs:
            k = self.cellkey(e)
            if kind == "arr":
                q, shp = x
                new = np.empty(shp, dtype=object)
                nf = new.reshape(-1)
                for r in range(nf.size):
                    nf[r] = slot(q + r)
                if id(e[1]) in self.protected and k in after:
                    pass
                self.rawset(e, new)
            elif kind == "skel":
                q, s = x
                n = self.slen(s)
                self.rawset(e, self.sunflat(s, [slot(q + r) for r in range(n)]))
            elif kind == "list":
                val = after.get(k)
                if val is None:
                    self.rawset(e, base)
                elif val and val[0] is x and not any(v is x for v in val[1:]):
                    new = val[1:]
                    if stop is not FALSE:
                        new = [self.opq("list filled by an interrupted loop")]
                    self.rawset(e, base + ([Splice(i, new)] if new else []))
                else:
                    self.rawset(e, [self.opq("list rewritten in a loop")])
            elif kind == "new":
                val = after.get(k, MISSING)
                self.rawset(e, self.lastval(i, val, carries, inits, steps, stop))
            elif kind == "opq":
                self.rawset(e, self.opq("loop-carried", base))
            else:
                self.rawset(e, base)
        for k, e in cellsB.items():
            if e[0] == "c" and id(e[1]) in ctlids:
                continue
            if self.owned(e, i):
                val = after[k]
                base = self.cellget(e)
                val = self.decarry(val, cset)
                if stop is not FALSE:
                    val = self.merge(self.opqc("reached"), val, base) if e[0] == "c" else val
                if fault is not None and e[0] == "c" and base is not MISSING and \
                        not (e[1].kind in ("frame", "ctl")):
                    reached = tt.fn("cond:reached", fault, i, e[1].uid, str(e[2]))
                    sk = self.skel(val) if e[1].kind != "list" else None
                    core = None if sk is None else sk[1] if sk[0] == "opt" else sk
                    if core is not None and core[0] in ("a", "n"):
                        # whatever the interrupted iteration left
                        left = self.smake(core, "left")[0]
                    else:
                        left = val
                    val = self.mergecell(fault, e, self.mergecell(reached, e, left, base), val)
                self.rawset(e, val)
            elif self.born(e) >= now and e[0] == "c" and e[1].kind in ("frame", "ctl"):
                pass
            elif self.born(e) >= now:
                self.rawset(e, after[k])
        # control
        if ec is not FALSE:
            if ec.fs & cset:
                ec = self.opqc("raise in loop", ec)
            self.setcell(self.exc, "v", self.decarry(ev_, cset))
            self.setcell(self.exc, "c", tt.anyc(i, ec) if i in ec.fs or ec is TRUE else ec)
        if fault is not None:
            self.setcell(self.exc, "c", tt.orc(self.exc["c"], fault))
            if self.exc["v"] is None:
                self.setcell(self.exc, "v", LibObj("exc", name="?any"))
            else:
                self.setcell(self.exc, "v", self.excmerge(fault, LibObj("exc", name="?any"), self.exc["v"]))
        if ctl["ret"] is not FALSE:
            rc = ctl["ret"]
            if rc.fs & cset:
                rc = self.opqc("return in loop", rc)
            self.setcell(fr.ctl, "ret", tt.anyc(i, rc) if i in rc.fs or rc is TRUE else rc)
            self.setcell(fr.ctl, "retval", self.lastval(i, ctl["retval"], carries, inits, steps, stop))
        if ctl["brk"] is not FALSE:
            bc = ctl["brk"]
            if bc.fs & cset:
                bc = self.opqc("break in loop", bc)
            # break only ends this loop; recorded for for/else
            self.setcell(fr.ctl, "brk", tt.anyc(i, bc) if i in bc.fs or bc is TRUE else bc)

    def settle(self, v):
        """v simplified under the current facts, one level deep"""
        if isinstance(v, PhiV):
            return self.resolve(v)
        if isinstance(v, T) and v.op == "phi":
            return self.simp(v)
        if isinstance(v, np.ndarray):
            out = v.copy()
            f = out.reshape(-1)
            for k in range(f.size):
                if isinstance(f[k], T) and f[k].op == "phi":
                    f[k] = self.simp(f[k])
            return out
        if isinstance(v, list):
            out = []
            for x in v:
                while isinstance(x, Guard):
                    c = self.simp(x.c)
                    if c is not TRUE:
                        x = Guard(c, x.v)
                        break
                    x = x.v
                out.append(self.settle(x) if not isinstance(x, list) else x)
            return out
        if isinstance(v, tuple):
            return like(v, [self.settle(x) for x in v])
        return v

    def mkloop(self, i, carries, inits, steps, stop, q):
        """loop node restricted to the slots that slot q depends on"""
        need, todo = {q}, [q]
        pos = {c: n for n, c in enumerate(carries)}
        extra = {pos[c] for c in stop.fs if c in pos}
        todo += list(extra)
        need |= extra
        while todo:
            n = todo.pop()
            for c in steps[n].fs:
                if c in pos and pos[c] not in need:
                    need.add(pos[c])
                    todo.append(pos[c])
        idx = sorted(need)
        return tt.loop(i, [carries[n] for n in idx], [inits[n] for n in idx], [steps[n] for n in idx], stop,
                       idx.index(q))

    def lastval(self, i, val, carries, inits, steps, stop):
        """value a variable first bound in the loop has after it"""
        val = self.resolve(val)
        if val is MISSING or val is None or isinstance(val, (str, Func, Cls, Lib)):
            return val
        s = self.skel(val)
        if s is None or s[0] == "k":
            f = self.scalars(val)
            if not any(i in t.fs for t in f) and not isinstance(val, (Obj, LList, LDict, Arr, LibObj)):
                return val
            if isinstance(val, (Obj, LibObj)) and i in val.ctx:
                # the last (or first matching) element
                return self.foreign(val, i, self.mkloop(
                    i, carries + [tt.sym("last")], inits + [tm(0)], steps + [tt.phi(TRUE, i, i)], stop, len(carries)))
            return val
        fl = self.sflat(s, val)
        out = []
        for t in fl:
            t = tm(t)
            if i not in t.fs and not (t.fs & set(carries)):
                out.append(t)
                continue
            c = tt.fresh("last")
            out.append(self.mkloop(i, carries + [c], inits + [tm(0)], steps + [t], stop, len(carries)))
        return self.sunflat(s, out)

    def decarry(self, val, cset):
        if isinstance(val, T):
            return self.opq("loop-carried element value", val) if val.fs & cset else val
        if isinstance(val, np.ndarray):
            out = val.copy()
            f = out.reshape(-1)
            for k in range(f.size):
                if isinstance(f[k], T) and f[k].fs & cset:
                    f[k] = self.opq("loop-carried element value")
            return out
        if isinstance(val, PhiV):
            c = val.c
            if c.fs & cset:
                c = self.opqc("loop-carried element value")
            a, b = self.decarry(val.a, cset), self.decarry(val.b, cset)
            return val if a is val.a and b is val.b and c is val.c else PhiV(c, a, b)
        if isinstance(val, tuple):
            return like(val, [self.decarry(x, cset) for x in val])
        return val

    # skeletons of loop-carried values
    def skel(self, v):
        v = self.resolve(v)
        if v is None:
            return ("none",)
        if is_scalar(v):
            return ("n", tt.sort(tm(v)))
        if isinstance(v, Arr):
            return ("a", v.a.shape, v.fam, v.dt)
        if isinstance(v, tuple):
            s = tuple(self.skel(x) for x in v)
            return None if any(x is None for x in s) else ("t", s, getattr(v, "cls", None))
        if isinstance(v, PhiV):
            f = self.force(v)
            if not isinstance(f, PhiV):
                return self.skel(f)
            a, b = self.skel(v.a), self.skel(v.b)
            return self.sjoin(a, b) if a and b else None
        return ("k", v)

    def sjoin(self, a, b):
        if a == b:
            return a
        if a is None or b is None:
            return None
        if a[0] == "none" and b[0] in ("n", "a", "t", "opt"):
            return b if b[0] == "opt" else ("opt", b)
        if b[0] == "none" and a[0] in ("n", "a", "t", "opt"):
            return a if a[0] == "opt" else ("opt", a)
        if a[0] == "opt" or b[0] == "opt":
            x = a[1] if a[0] == "opt" else a
            y = b[1] if b[0] == "opt" else b
            s = self.sjoin(x, y)
            return ("opt", s) if s else None
        if a[0] == "n" and b[0] == "n":
            return ("n", tt.NUM)
        if a[0] == "a" and b[0] == "a" and a[1:3] == b[1:3]:
            return ("a", a[1], a[2], "f8")
        if {a[0], b[0]} == {"n", "a"}:
            return b if b[0] == "a" else a
        if a[0] == "t" and b[0] == "t" and len(a[1]) == len(b[1]) and a[2] is b[2]:
            s = tuple(self.sjoin(x, y) for x, y in zip(a[1], b[1]))
            return None if any(x is None for x in s) else ("t", s, a[2])
        if a[0] == "k" and b[0] == "k" and a[1] is b[1]:
            return a
        return None

    def slen(self, s):
        if s[0] == "n":
            return 1
        if s[0] == "a":
            return int(np.prod(s[1]))
        if s[0] == "opt":
            return 1 + self.slen(s[1])
        if s[0] == "t":
            return sum(self.slen(x) for x in s[1])
        return 0

    def smake(self, s, name):
        syms = []

        def go(s):
            if s[0] == "n":
                x = tt.fresh(name, s[1])
                syms.append(x)
                return x
            if s[0] == "a":
                a = np.empty(s[1], dtype=object)
                for k in range(a.size):
                    x = tt.fresh(name)
                    syms.append(x)
                    a.reshape(-1)[k] = x
                return self.arr(a, s[2], s[3])
            if s[0] == "opt":
                c = tt.fresh(name, tt.BOOL)
                syms.append(c)
                return PhiV(c, go(s[1]), None)
            if s[0] == "t":
                return named(s[2], [go(x) for x in s[1]]) if s[2] is not None else tuple(go(x) for x in s[1])
            if s[0] == "k":
                return s[1]
            return None
        return go(s), syms

    def sflat(self, s, v):
        v = self.resolve(v)
        if s[0] == "n":
            v = self.force(v)
            return [tm(v)] if is_scalar(v) else [self.opq("carried", v)]
        if s[0] == "a":
            v = self.force(v)
            if is_scalar(v):
                return [tm(v)] * self.slen(s)
            if isinstance(v, Arr) and v.a.shape == s[1]:
                return [tm(x) if x is not None else tm(0) for x in v.a.reshape(-1)]
            return [self.opq("carried", v)] * self.slen(s)
        if s[0] == "opt":
            c = tt.notc(self.isnone(v))
            if c is FALSE:
                return [FALSE] + [tm(0)] * self.slen(s[1])
            return [c] + self.sflat(s[1], self.nonnull(v))
        if s[0] == "t":
            if not isinstance(v, tuple):
                return [self.opq("carried", v)] * self.slen(s)
            return [t for x, y in zip(s[1], v) for t in self.sflat(x, y)]
        return []

    def nonnull(self, v):
        v = self.resolve(v)
        if isinstance(v, PhiV):
            a, b = self.nonnull(v.a), self.nonnull(v.b)
            if a is None:
                return b
            if b is None:
                return a
            return PhiV(v.c, a, b)
        return v

    def sunflat(self, s, ts):
        ts = list(ts)

        def go(s):
            if s[0] == "n":
                return ts.pop(0)
            if s[0] == "a":
                a = np.empty(s[1], dtype=object)
                for k in range(a.size):
                    a.reshape(-1)[k] = ts.pop(0)
                return self.arr(a, s[2], s[3])
            if s[0] == "opt":
                c = ts.pop(0)
                v = go(s[1])
                return self.resolve(PhiV(c, v, None)) if c.op != "c" else (v if c.args[1] else None)
            if s[0] == "t":
                return named(s[2], [go(x) for x in s[1]]) if s[2] is not None else tuple(go(x) for x in s[1])
            if s[0] == "k":
                return s[1]
            return None
        return go(s)

    def copyval(self, v):
        if isinstance(v, Arr):
            return self.arr(v.a.copy(), v.fam, v.dt)
        if isinstance(v, tuple):
            return like(v, [self.copyval(x) for x in v])
        if isinstance(v, PhiV):
            return PhiV(v.c, self.copyval(v.a), self.copyval(v.b))
        return v

    def s_While(self, st, fr, depth=0):
        # counting loop over a collection: while k < len(xs): ...; k += 1
        fam = self.counting(st, fr)
        if fam is not None:
            name, i = fam
            self.fam_run_counting(st, fr, name, i)
            return
        n = 0
        while True:
            c = self.simp(self.truth(self.eval(st.test, fr)))
            if c is FALSE:
                break
            if c is TRUE:
                n += 1
                if n > 400:
                    self.opq("while loop")
                    break
                self.exec_block(st.body, fr)
                self.setcell(fr.ctl, "cont", FALSE)
                ab = self.simp(tt.orc(self.exec_pending(fr), fr.ctl["brk"]))
                if ab is TRUE:
                    break
                if ab is not FALSE:
                    self.branch(ab, lambda: None, lambda: self.s_While(st, fr, depth))
                    self.setcell(fr.ctl, "brk", FALSE)
                    return
                continue
            if depth < 3:
                # the first turns one by one: exact where the loop ends within them
                def turn():
                    self.exec_block(st.body, fr)
                    self.setcell(fr.ctl, "cont", FALSE)
                    ab = tt.orc(self.exec_pending(fr), fr.ctl["brk"])
                    self.branch(ab, lambda: None, lambda: self.s_While(st, fr, depth + 1))
                self.branch(c, turn, lambda: None)
                break
            # unknown trip count: everything the body writes is unknown if the loop is entered
            mark = len(self.trail)
            self.quiet += 1
            fm = self.push(c)
            self.exec_block(st.body, fr)
            self.pop(fm)
            self.quiet -= 1
            d = self.collect(mark)
            self.undo(mark)
            for k, (e, val) in d.items():
                base = self.cellget(e)
                if e[0] == "c" and e[1] is fr.ctl:
                    continue
                if e[0] == "c" and e[1] is self.exc and e[2] == "c":
                    self.rawset(e, tt.orc(base, tt.andc(c, self.opqc("raise in while"))))
                elif e[0] == "a":
                    new = base.copy()
                    for q in range(new.size):
                        idx = np.unravel_index(q, new.shape)
                        new[idx] = tt.phi(c, self.opq("while", q), base[idx]) if is_scalar(base[idx]) else base[idx]
                    self.rawset(e, new)
                elif e[0] == "c" and e[1].kind == "list":
                    self.rawset(e, [self.opq("list changed in while loop")])
                elif is_scalar(val):
                    h = self.opq("while", c)
                    self.rawset(e, h if base is MISSING or not is_scalar(base) else tt.phi(c, h, base))
                elif isinstance(val, Arr):
                    a = np.empty(val.a.shape, dtype=object)
                    for q in range(a.size):
                        a.reshape(-1)[q] = self.opq("while", c, q)
                    h = self.arr(a, val.fam, val.dt)
                    self.rawset(e, h if base is MISSING else self.merge(c, h, base))
                else:
                    self.rawset(e, base if base is not MISSING else self.opq("while", c))
            break
        self.setcell(fr.ctl, "brk", FALSE)

    def counting(self, st, fr):
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, (ast.Gt, ast.NotEq)) and isinstance(r, ast.Name):
            l, r = r, l
            op = ast.Lt() if isinstance(op, ast.Gt) else op
        if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(l, ast.Name)):
            return None
        if l.id not in fr.vars or as_int(fr.vars[l.id]) != 0:
            return None
        n = self.resolve(self.eval(r, fr))
        if not (isinstance(n, T) and n.op == "fn" and n.args[0] == "len"):
            return None
        # the counter is incremented by one exactly once, at the top level of the body
        incs = [s for s in st.body if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)
                and s.target.id == l.id and isinstance(s.op, ast.Add)
                and isinstance(s.value, ast.Constant) and s.value.value == 1]
        stores = [x for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == l.id
                  and isinstance(x.ctx, ast.Store)]
        if len(incs) != 1 or len(stores) != 1:
            return None
        if any(isinstance(x, ast.Continue) for x in ast.walk(st)):
            return None
        return l.id, tt.index(n.args[1][0].args[1])

    def fam_run_counting(self, st, fr, name, i):
        if i in self.ctx:
            i = tt.fresh_index(i.args[3])

        def once():
            self.bind(name, i, fr)
            self.exec_block(st.body, fr)
        self.fam_run(i, once, fr)
        self.bind(name, tt.famlen(i), fr)
        self.setcell(fr.ctl, "brk", FALSE)

    # ---------------------------------------------- other elements of a family
    def foreign(self, v, i, j):
        """v, a value of the element of index i, as seen for the element j"""
        if j is i:
            return v
        if isinstance(v, T):
            return tt.subst(v, {i: tm(j)})
        if isinstance(v, tuple):
            return like(v, [self.foreign(x, i, j) for x in v])
        if isinstance(v, PhiV):
            return self.resolve(PhiV(tt.subst(v.c, {i: tm(j)}), self.foreign(v.a, i, j), self.foreign(v.b, i, j)))
        if isinstance(v, Arr):
            a = np.empty(v.a.shape, dtype=object)
            f = a.reshape(-1)
            for k, x in enumerate(v.a.reshape(-1)):
                f[k] = tt.subst(x, {i: tm(j)}) if isinstance(x, T) else x
            return self.arr(a, v.fam, v.dt)
        if isinstance(v, Obj):
            if i not in v.ctx:
                return v
            key = (v.uid, i, tm(j))
            o = self.foreigns.get(key)
            if o is None:
                o = Obj(v.cls, self.ctx)
                o.mirror = (v, i, tm(j))
                self.foreigns[key] = o
                self.mirrors.setdefault(v.uid, []).append(o)
                for k, x in v.attrs.items():
                    dict.__setitem__(o.attrs, k, self.foreign(x, i, j))
            return o
        if isinstance(v, LList):
            if i not in v.ctx:
                return v
            return LList([self.foreign(x, i, j) for x in v.items], self.ctx, v.kind)
        if isinstance(v, Guard):
            return Guard(tt.subst(v.c, {i: tm(j)}), self.foreign(v.v, i, j))
        if isinstance(v, Splice):
            if v.i is i:
                return v
            return Splice(v.i, [self.foreign(x, i, j) for x in v.items],
                          None if v.cond is None else tt.subst(v.cond, {i: tm(j)}))
        if isinstance(v, LDict) and i in v.ctx:
            d = LDict(self.ctx)
            d.keys_ = dict(v.keys_)
            for k, x in v.cells.items():
                dict.__setitem__(d.cells, k, self.foreign(x, i, j))
            return d
        if isinstance(v, LibObj) and i in v.ctx:
            o = LibObj(v.kind, self.ctx)
            for k, x in v.d.items():
                dict.__setitem__(o.d, k, self.foreign(x, i, j))
            return o
        return v

    # --------------------------------------------------------- expressions
    def lookup(self, name, fr):
        f = fr
        if name in fr.globals_:
            f = fr.module.frame
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        m = fr.module.frame if fr.module else None
        if m is not None and name in m.vars:
            return m.vars[name]
        if name in self.libs.BUILTINS:
            return Lib("builtins." + name)
        if name in BUILTIN_EXC:
            return Lib(name)
        self.raise_("NameError", what=name)
        return self.opq("name " + name)

    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.opq("expr:" + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            v = tt.frac(v)
            if isinstance(v, tuple):
                return tt.const(v)
            if v != 0 and abs(v) <= Fraction(1, 10 ** 12):
                return tt.EPS           # a tolerance at rounding level
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.dist(o, lambda x: self.getattr(x, e.attr))

    def e_Tuple(self, e, fr):
        return tuple(self.elems(e.elts, fr))

    def e_List(self, e, fr):
        return LList(self.elems(e.elts, fr, True), self.ctx)

    def e_Set(self, e, fr):
        return LList(self.elems(e.elts, fr), self.ctx, "set")

    def elems(self, elts, fr, raw=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.resolve(self.eval(x.value, fr))
                segs = self.segments(v)
                if segs is None:
                    out.append(self.opq("star", v))
                    continue
                out += self.seg_items(segs)
            else:
                out.append(self.eval(x, fr))
        return out

    def seg_items(self, segs):
        out = []
        for s in segs:
            if s[0] == "one":
                out.append(s[1])
            elif s[0] == "guard":
                out.append(Guard(s[1], s[2]))
            else:
                out.append(Splice(s[1], list(s[2]), s[3]))
        return out

    def e_Dict(self, e, fr):
        d = LDict(self.ctx)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.libs.dict_update(d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.libs.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, fr)
                spec = x.format_spec is not None or x.conversion not in (-1, 115)
                parts.append(("fmt", v) if spec else v)
        if all(isinstance(p, (str, int)) and not isinstance(p, tuple) for p in parts):
            return "".join(str(p) for p in parts)
        return self.libs.strjoin(parts)

    def e_FormattedValue(self, e, fr):
        return self.eval(e.value, fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            return self.pyb(tt.notc(self.truth(v)))
        return self.unop(op, v)

    def pyb(self, c):
        c = tm(c)
        return c.args[1] if c.op == "c" else c

    def unop(self, op, v):
        v = self.force(v)
        if isinstance(v, PhiV):
            return self.dist(v, lambda x: self.unop(op, x))
        if isinstance(v, Arr):
            f = {"USub": tt.neg, "UAdd": lambda x: x, "Invert": tt.notc}[op]
            return self.map1(f, v)
        if isinstance(v, (Obj, NT)):
            f, _ = v.cls.find({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if f is not MISSING:
                return self.call(f, [v], {})
        if op == "USub":
            return -v if isinstance(v, (int, Fraction)) and not isinstance(v, T) else \
                tt.neg(v) if is_scalar(v) else self.opq("neg", v)
        if op == "Invert":
            return self.pyb(tt.notc(v)) if isinstance(v, T) else ~v if isinstance(v, int) else self.opq("~", v)
        return v

    def map1(self, f, v, dt=None):
        a = np.empty(v.a.shape, dtype=object)
        src, dst = v.a.reshape(-1), a.reshape(-1)
        for k in range(dst.size):
            dst[k] = f(src[k])
        return self.arr(a, v.fam, dt or v.dt)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.eval(e.values[k], fr)
            if k == len(e.values) - 1:
                return v
            c = self.simp(self.truth(v))
            if c is TRUE:
                return go(k + 1) if isand else v
            if c is FALSE:
                return v if isand else go(k + 1)
            if isand:
                return self.branch(c, lambda: go(k + 1), lambda: v if not isinstance(v, T) or
                                   tt.sort(v) != tt.BOOL else False)
            return self.branch(c, lambda: v if not isinstance(v, T) or tt.sort(v) != tt.BOOL else True,
                               lambda: go(k + 1))
        r = go(0)
        return self.pyb(r) if isinstance(r, T) else r

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        return self.branch(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, "<lambda>")

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            elif isinstance(res, Arr) or isinstance(c, Arr):
                res = self.opq("chained array comparison")
            else:
                res = self.pyb(tt.andc(self.truth(res), self.truth(c)))
            left = right
        return res

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_Slice(self, e, fr):
        g = lambda x: None if x is None else self.eval(x, fr)
        return ("slice", g(e.lower), g(e.upper), g(e.step))

    def evalindex(self, s, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.eval(x, fr) for x in s.elts) if not any(isinstance(x, ast.Slice) for x in s.elts) \
                else ("idx",) + tuple(self.eval(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.evalindex(e.slice, fr)
        if isinstance(o, PhiV) and (isinstance(o.a, PhiV) or isinstance(o.b, PhiV)):
            o = self.force(o)
        return self.dist(o, lambda x: self.getitem(x, i))

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, "set")

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, "gen")

    def e_DictComp(self, e, fr):
        d = LDict(self.ctx)
        sub = self.subframe(fr)

        def emit():
            k = self.eval(e.key, sub)
            v = self.eval(e.value, sub)
            self.live(lambda: self.libs.dict_set(d, k, v))
        self.comp_gen(e.generators, 0, sub, emit)
        return d

    def subframe(self, fr):
        sub = Frame(fr, fr.module, fr.fname, self.ctx)
        sub.func, sub.self_ = fr.func, fr.self_
        return sub

    def comp(self, e, fr, kind):
        out = LList([], self.ctx, kind)
        sub = self.subframe(fr)

        def emit():
            v = self.eval(e.elt, sub)
            self.live(lambda: self.list_append(out, v))
        self.comp_gen(e.generators, 0, sub, emit)
        return out

    def comp_gen(self, gens, k, sub, emit):
        if k == len(gens):
            emit()
            return
        g = gens[k]
        it = self.eval(g.iter, sub)

        def body(v):
            self.assign(g.target, v, sub)

            def conds(n):
                if n == len(g.ifs):
                    self.comp_gen(gens, k + 1, sub, emit)
                    return
                c = self.truth(self.eval(g.ifs[n], sub))
                self.branch(c, lambda: conds(n + 1), lambda: None)
            conds(0)

        def loop(it1):
            segs = self.segments(it1)
            if segs is None:
                segs = self.opaque_segs(it1)
            self.run_segs(segs, body, sub)
        self.live(lambda: self.dist(it, loop))

    def list_append(self, l, v):
        self.setcell(l.cells, "items", l.items + [v])

    def list_extend(self, l, v):
        v = self.resolve(v)
        segs = self.segments(v)
        items = [self.opq("extend", v)] if segs is None else self.seg_items(segs)
        self.setcell(l.cells, "items", l.items + items)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f is not None and "%yield" not in f.vars and "%with" not in f.vars:
            f = f.parent
        if f is not None and "%with" in f.vars:
            self.live(lambda: f.vars["%with"](v))
        elif f is not None:
            self.list_append(f.vars["%yield"], v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f is not None and "%yield" not in f.vars:
            f = f.parent
        if f is not None:
            self.list_extend(f.vars["%yield"], v)
        return None

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.vars:
            f = fr
            while f is not None and f.func is None:
                f = f.parent
            if f is not None and f.func.cls is not None:
                return Super(f.self_, f.func.cls)
        fn = self.eval(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.eval(a.value, fr))
                l = self.tolist(v)
                if l is None:
                    args.append(Splice_arg(v))
                else:
                    args += l
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                v = self.resolve(v)
                if isinstance(v, LDict):
                    for kk, vv in v.cells.items():
                        kw[v.keys_.get(kk, kk)] = vv
                else:
                    self.opq("**kwargs")
            else:
                kw[k.arg] = v
        self.loc = (fr.module.path if fr.module else "?", fr.fname, e.lineno)
        self.callsites.add((self.loc[0], e.lineno, e.col_offset))
        return self.live(lambda: self.call(fn, args, kw))

    # -------------------------------------------------------------- calls
    def call(self, f, args, kw):
        f = self.resolve(f)
        if isinstance(f, PhiV):
            return self.branch(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, Func):
            return self.callfunc(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Lib):
            return self.libs.call(f.name, args, kw)
        if isinstance(f, Method):
            return self.libs.method(f.obj, f.name, args, kw)
        if isinstance(f, LibObj):
            return self.libs.callobj(f, args, kw)
        if isinstance(f, Obj):
            m, _ = f.cls.find("__call__")
            if m is not MISSING:
                return self.call(m, [f] + list(args), kw)
        if callable(f) and not isinstance(f, (T, ModuleV)):
            return f(self, args, kw)
        if f is None:
            self.raise_("TypeError")
            return self.opq("call None")
        if isinstance(f, T):
            self.event("lost", what=str(f.args[0]))
        return self.opq("call", f if isinstance(f, T) else None, *args)

    def callfunc(self, f, args, kw):
        if getattr(f, "swallow", None) is not None:
            before = self.exc["c"]
            r = self.callfunc1(f, args, kw)
            c = tt.andc(self.exc["c"], tt.notc(before))
            d = f.swallow.get("default")

            def sw():
                self.event("handle", name=self.exc_name(self.resolve(self.exc["v"])), types=None)
                self.setcell(self.exc, "c", FALSE)
                return d
            return self.branch(c, sw, lambda: r)
        return self.callfunc1(f, args, kw)

    def callfunc1(self, f, args, kw):
        if f.ctxman:
            return LibObj("ctxcall", self.ctx, f=f, args=list(args), kw=dict(kw))
        if f.cached is not None and f.kind != "property":
            return self.call_cached(f, args, kw)
        return self.callfunc0(f, args, kw)

    def call_cached(self, f, args, kw):
        vals = [self.resolve(x) for x in list(args) + [kw[k] for k in sorted(kw)]]
        if any(isinstance(x, (Arr, LList, LDict)) for x in vals):
            self.raise_("TypeError")
            return self.opq("call of a cached function", *args)
        known = []
        for old, res in f.cached:
            if len(old) == len(vals):
                c = TRUE
                for x, y in zip(old, vals):
                    c = tt.andc(c, TRUE if x is y else self.truth(self.compare("Eq", x, y)))
                known.append((self.simp(c), res))

        def miss():
            r = self.callfunc0(f, args, kw)
            self.live(lambda: f.cached.append((vals, r)))
            return r

        def look(k):
            if k == len(known):
                return miss()
            c, res = known[k]
            if c is TRUE:
                return res
            return look(k + 1) if c is FALSE else self.branch(c, lambda: res, lambda: look(k + 1))
        return look(0)

    def callfunc0(self, f, args, kw):
        if self.depth > self.MAXDEPTH:
            return self.opq("recursion", *args)
        self.visited.add(f"{f.frame.module.name}.{f.name}" if f.frame.module else f.name)
        a = f.node.args
        fr = Frame(f.frame, f.frame.module, f.name, self.ctx)
        fr.func = f
        loc = self.loc
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        bad = False
        for k, v in enumerate(args):
            if isinstance(v, Splice_arg):
                bad = True
                break
            if k < len(pos):
                vals[pos[k]] = v
            elif a.vararg is None:
                bad = True
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in pos or k in kwo:
                if k in vals:
                    bad = True
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            d = LDict(self.ctx)
            for k, v in extra.items():
                self.libs.dict_set(d, k, v)
            vals[a.kwarg.arg] = d
        elif extra:
            bad = True
        n = len(f.defaults)
        for p, d in zip(pos[len(pos) - n:], f.defaults):
            vals.setdefault(p, d)
        for p, d in f.kwdefaults.items():
            vals.setdefault(p, d)
        for p in pos + kwo:
            if p not in vals:
                bad = True
                vals[p] = self.opq("missing argument " + p)
        if bad:
            self.raise_("TypeError", what="arguments")
            return self.opq("bad call", *[x for x in args if not isinstance(x, Splice_arg)])
        for k, v in vals.items():
            dict.__setitem__(fr.vars, k, v)
        if pos:
            fr.self_ = vals[pos[0]]
        st = self.stubs.get(f.name)
        if st is not None:
            return st(self, f, [vals[p] for p in pos])
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            gen = is_generator(f.node)
            if gen and f.ctxman:
                dict.__setitem__(fr.vars, "%with", self.within)
            elif gen:
                dict.__setitem__(fr.vars, "%yield", LList([], self.ctx, "gen"))
            self.exec_block(f.node.body, fr)
        finally:
            self.depth -= 1
            self.loc = loc
        if gen and f.ctxman:
            return None
        if gen:
            return fr.vars["%yield"]
        fm = self.push(tt.notc(self.exc["c"])) if self.simp(self.exc["c"]) not in (TRUE, FALSE) else None
        rc = self.simp(fr.ctl["ret"])
        if fm is not None:
            self.pop(fm)
        rv = fr.ctl.get("retval", MISSING)
        if rc is TRUE:
            return None if rv is MISSING else rv
        if rc is FALSE:
            return None
        return self.merge(rc, None if rv is MISSING else rv, None)

    def instantiate(self, c, args, kw):
        st = self.stubs.get(c.name)
        if st is not None:
            return st(self, c, args, kw)
        if c.enum:
            return self.libs.enum_call(c, args[0] if args else None)
        if c.nt and c.find("__new__")[0] is MISSING:
            return self.libs.nt_new(c, args, kw)
        o = Obj(c, self.ctx)
        if c.dc is not None and c.find("__init__")[0] is MISSING:
            self.libs.dc_init(o, c, args, kw)
            return o
        f, _ = c.find("__init__")
        if f is not MISSING:
            self.call(f, [o] + list(args), kw)
            return o
        for b in c.mro():
            if isinstance(b, Lib):
                self.libs.base_init(o, b, args, kw)
                break
        return o

    # ---------------------------------------------------------- attributes
    def getattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, PhiV):
            return self.dist(o, lambda x: self.getattr(x, name))
        if isinstance(o, ModuleV):
            v = o.frame.vars.get(name, MISSING)
            if v is MISSING and self.modpath(o.name + "." + name):
                return self.load(o.name + "." + name)
            if v is MISSING:
                self.raise_("AttributeError", what=name)
                return self.opq("attribute " + name)
            return v
        if isinstance(o, Lib):
            return self.libs.attr(o, name)
        if isinstance(o, Obj):
            return self.objattr(o, name)
        if isinstance(o, NT):
            r = self.libs.nt_attr(o, name)
            if r is not MISSING:
                return r
        if isinstance(o, Cls):
            return self.clsattr(o, name)
        if isinstance(o, Super):
            for b in o.cls.mro()[1:]:
                if isinstance(b, Cls) and name in b.ns:
                    v = b.ns[name]
                    if isinstance(v, Func) and v.kind != "static":
                        return Bound(v, o.obj)
                    return v
                if isinstance(b, Lib):
                    if name in ("__init__", "__new__"):
                        obj = o.obj
                        return lambda I, a, k: self.libs.base_init(obj, b, a, k)
                    return self.libs.attr(b, name)
            if name == "__init__":
                return lambda I, a, k: None
            return self.opq("super." + name)
        if isinstance(o, Func):
            if name == "__name__":
                return o.name.split(".")[-1]
            if name == "setter":
                return LibObj("deco", what="setter", prop=o)
            if name in ("py_func",):
                return o
            if name == "cache_clear":
                o2 = o
                return lambda I, a, k: o2.cached.clear() if o2.cached is not None else None
        if isinstance(o, Bound) and name == "__func__":
            return o.func
        return self.libs.getattr(o, name)

    def objattr(self, o, name):
        v = o.attrs.get(name, MISSING)
        if v is not MISSING:
            return v
        f, _ = o.cls.find(name)
        if f is not MISSING:
            if isinstance(f, Func):
                if f.kind == "property":
                    if f.cached is not None:
                        r = self.call(Bound_raw(f), [o], {})
                        self.setcell(o.attrs, name, r)
                        return r
                    return self.callfunc0(f, [o], {})
                if f.kind == "static":
                    return f
                if f.kind == "class":
                    return Bound(f, o.cls)
                return Bound(f, o)
            if isinstance(f, Lib) and False:
                return f
            return f
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            d = LDict(self.ctx)
            for k, x in o.attrs.items():
                self.libs.dict_set(d, k, x)
            return d
        if o.cls.enum and o.cls.strenum:
            return Method(o.attrs["value"], name)
        for b in o.cls.mro():
            if isinstance(b, Lib):
                r = self.libs.inherited(o, b, name)
                if r is not MISSING:
                    return r
        g, _ = o.cls.find("__getattr__")
        if g is not MISSING:
            return self.call(g, [o, name], {})
        self.raise_("AttributeError", what=name)
        return self.opq("attribute " + name)

    def clsattr(self, c, name):
        f, _ = c.find(name)
        if f is not MISSING:
            if isinstance(f, Func) and f.kind == "class":
                return Bound(f, c)
            return f
        if c.nt and name == "_make":
            return lambda I, a, k: self.instantiate(c, self.tolist(a[0]) or [Splice_arg(a[0])], {})
        if c.nt and name == "_fields":
            return tuple(f[0] for f in c.dc["fields"])
        if c.enum:
            if name == "__members__":
                d = LDict(self.ctx)
                for k, m in c.members.items():
                    self.libs.dict_set(d, k, m)
                return d
            if name == "_member_names_":
                return LList([k for k, m in c.members.items() if m.attrs["name"] == k], self.ctx)
            if name == "_value2member_map_":
                d = LDict(self.ctx)
                for k, m in c.members.items():
                    self.libs.dict_set(d, m.attrs["value"], m)
                return d
        if name == "__name__":
            return c.name
        if name == "__init__":
            for b in c.mro():
                if isinstance(b, Lib):
                    return lambda I, a, k: self.libs.base_init(a[0], b, a[1:], k)
        for b in c.mro():
            if isinstance(b, Lib):
                return self.libs.attr(b, name)
        self.raise_("AttributeError", what=name)
        return self.opq("attribute " + name)

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Obj):
            f, _ = o.cls.find(name)
            if isinstance(f, Func) and f.kind == "property":
                if f.fset is not None:
                    self.call(f.fset, [o, v], {})
                else:
                    self.raise_("AttributeError", what=name)
                return
            s, _ = o.cls.find("__setattr__")
            if s is not MISSING:
                self.call(s, [o, name, v], {})
                return
            if o.cls.dc and o.cls.dc.get("frozen"):
                self.raise_("AttributeError", what=name)
                return
            self.event("attr_write", obj=o, attr=name, value=v)
            self.setcell(o.attrs, name, v)
        elif isinstance(o, ModuleV):
            self.setcell(o.frame.vars, name, v)
        elif isinstance(o, Cls):
            self.event("cls_write", cls=o, attr=name)
            o.ns[name] = v
        else:
            self.libs.setattr(o, name, v)

    # --------------------------------------------------------------- values
    def truth(self, v):
        v = self.resolve(v)
        if v is None:
            return FALSE
        if isinstance(v, bool):
            return tt.const(v)
        if isinstance(v, (int, Fraction, float, str)):
            return tt.const(bool(v))
        if isinstance(v, T):
            return tt.truthy(v)
        if isinstance(v, PhiV):
            return tt.phi(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, tuple):
            return tt.const(len(v) > 0)
        if isinstance(v, LList):
            c = FALSE
            for x in v.items:
                if isinstance(x, Guard):
                    c = tt.orc(c, x.c)
                elif isinstance(x, Splice):
                    k = tt.gt(tt.famlen(x.i), 0)
                    c = tt.orc(c, k if x.cond is None else tt.anyc(x.i, x.cond))
                else:
                    return TRUE
            return c
        if isinstance(v, LDict):
            return tt.const(bool(v.cells) or bool(v.tail.items))
        if isinstance(v, Arr):
            if v.a.size == 1 and not v.famaxes():
                return self.truth(v.a.reshape(-1)[0])
            self.raise_("ValueError", what="truth value of an array")
            return self.opqc("truth of array")
        if isinstance(v, LibObj):
            return self.libs.truth(v)
        if isinstance(v, Obj):
            f, _ = v.cls.find("__bool__")
            if f is not MISSING:
                return self.truth(self.call(f, [v], {}))
            if v.cls.strenum:
                return self.truth(v.attrs["value"])
            f, _ = v.cls.find("__len__")
            if f is not MISSING:
                return self.truth(self.call(f, [v], {}))
        return TRUE

    def isnone(self, v):
        v = self.resolve(v)
        if v is None:
            return TRUE
        if isinstance(v, PhiV):
            return self.simp(tt.phi(v.c, self.isnone(v.a), self.isnone(v.b)))
        if isinstance(v, T) and v.op == "fn" and v.args[0].startswith("?"):
            return self.opqc("isnone", v)
        return FALSE

    def same(self, a, b):
        """identity"""
        a, b = self.resolve(a), self.resolve(b)
        if a is None:
            return self.isnone(b)
        if b is None:
            return self.isnone(a)
        if isinstance(a, PhiV):
            return self.simp(tt.phi(a.c, self.same(a.a, b), self.same(a.b, b)))
        if isinstance(b, PhiV):
            return self.same(b, a)
        if a is b:
            return TRUE
        if isinstance(a, Obj) and isinstance(b, Obj) and a.mirror and b.mirror and a.mirror[0] is b.mirror[0]:
            return tt.eq(a.mirror[2], b.mirror[2])
        if isinstance(a, Obj) and isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if x.mirror and x.mirror[0] is y:
                    return tt.eq(x.mirror[1], x.mirror[2])
            return FALSE
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return tt.const(type(a) is type(b) and a == b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return tt.const(a.same(b))
        if isinstance(a, T) or isinstance(b, T):
            if is_scalar(a) and is_scalar(b):
                return tt.eq(tm(a), tm(b))
            return FALSE
        if isinstance(a, Lib) and isinstance(b, Lib):
            return tt.const(a.name == b.name)
        return FALSE

    def equal(self, a, b):
        """== as a condition term (or Arr for arrays)"""
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, PhiV):
            f = self.force(a)
            if isinstance(f, PhiV):
                return self.simp(tt.phi(a.c, self.truth(self.equal(a.a, b)), self.truth(self.equal(a.b, b))))
            a = f
        if isinstance(b, PhiV):
            f = self.force(b)
            if isinstance(f, PhiV):
                return self.equal(b, a)
            b = f
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                return FALSE
            return self.elementwise(tt.eq, a, b, dt="b1")
        if a is b:
            return TRUE
        if isinstance(a, Obj) and a.cls.strenum:
            a = a.attrs["value"]
        if isinstance(b, Obj) and b.cls.strenum:
            b = b.attrs["value"]
        if a is None or b is None:
            return self.same(a, b)
        if isinstance(a, LibObj) or isinstance(b, LibObj):
            return self.libs.equal(a, b)
        sc = lambda x: is_scalar(x) or isinstance(x, str)
        if sc(a) and sc(b):
            return tt.eq(a, b)
        seq = (tuple, LList)
        if isinstance(a, seq) and isinstance(b, seq):
            la, lb = self.tolist(a), self.tolist(b)
            if la is None or lb is None:
                return self.opqc("list equality")
            if len(la) != len(lb) or isinstance(a, tuple) != isinstance(b, tuple):
                return FALSE
            r = TRUE
            for x, y in zip(la, lb):
                r = tt.andc(r, self.truth(self.equal(x, y)))
            return r
        if isinstance(a, Obj) and isinstance(b, Obj):
            f, _ = a.cls.find("__eq__")
            if f is not MISSING:
                return self.truth(self.call(f, [a, b], {}))
            dc = a.cls.dc or next((self.libs.LIBDC[x.name] for x in a.cls.mro()
                                   if isinstance(x, Lib) and x.name in self.libs.LIBDC), None)
            if dc and a.cls is b.cls and dc.get("eq", True):
                r = TRUE
                for fld in dc["fields"]:
                    x, y = a.attrs.get(fld[0]), b.attrs.get(fld[0])
                    r = tt.andc(r, self.truth(self.equal(x, y)))
                return r
            return self.same(a, b)
        if isinstance(a, LDict) and isinstance(b, LDict):
            return self.opqc("dict equality")
        if isinstance(a, T) and a.op == "fn" and a.args[0].startswith("?") or \
                isinstance(b, T) and b.op == "fn" and b.args[0].startswith("?"):
            return self.opqc("equality", a if isinstance(a, T) else b)
        return FALSE

    def compare(self, op, a, b):
        if op == "Is":
            return self.pyb(self.same(a, b))
        if op == "IsNot":
            return self.pyb(tt.notc(self.same(a, b)))
        if op in ("In", "NotIn"):
            c = self.libs.contains(b, a)
            return self.pyb(c if op == "In" else tt.notc(c))
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if isinstance(r, Arr):
                return self.map1(tt.notc, r) if op == "NotEq" else r
            return self.pyb(r if op == "Eq" else tt.notc(r))
        a, b = self.force(a), self.force(b)
        if isinstance(a, PhiV):
            return self.dist(a, lambda x: self.compare(op, x, b))
        if isinstance(b, PhiV):
            return self.dist(b, lambda x: self.compare(op, a, x))
        f = {"Gt": tt.gt, "Lt": tt.lt, "GtE": tt.ge, "LtE": tt.le}[op]
        if isinstance(a, LList) and isinstance(b, LList) and a.kind == b.kind == "set":
            x, y = (self.libs.subset(a, b), self.libs.subset(b, a)) if op[0] == "L" else \
                (self.libs.subset(b, a), self.libs.subset(a, b))
            return x if op.endswith("E") else self.pyb(tt.andc(tm(x), tt.notc(tm(y))))
        for x, y, m in ((a, b, op), (b, a, {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE"}[op])):
            if isinstance(x, (Obj, NT)):
                g, _ = x.cls.find({"Gt": "__gt__", "Lt": "__lt__", "GtE": "__ge__", "LtE": "__le__"}[m])
                if g is not MISSING:
                    return self.call(g, [x, y], {})
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise(f, a, b, dt="b1")
        if is_scalar(a) and is_scalar(b):
            return self.pyb(f(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return {"Gt": a > b, "Lt": a < b, "GtE": a >= b, "LtE": a <= b}[op]
        if a is None or b is None or isinstance(a, Obj) and isinstance(b, Obj) and not a.cls.strenum and not b.cls.strenum \
                and all(x.cls.find(m)[0] is MISSING for x in (a, b) for m in ("__lt__", "__gt__", "__le__", "__ge__")) \
                and not any((x.cls.dc or {}).get("order") for x in (a, b)) \
                and not any("total_ordering" in ast.unparse(d) for x in (a, b) for d in getattr(x.cls.node, "decorator_list", [])):
            self.raise_("TypeError")
        return self.opqc("compare", a, b)

    BIN = {"Add": tt.add, "Sub": tt.sub, "Mult": tt.mul, "Div": tt.div, "Pow": tt.power,
           "Mod": lambda a, b: Interp.intop("mod", a, b), "FloorDiv": lambda a, b: Interp.intop("floordiv", a, b),
           "BitAnd": lambda a, b: tt.andc(a, b), "BitOr": lambda a, b: tt.orc(a, b),
           "BitXor": lambda a, b: tt.notc(tt.eq(a, b)),
           "LShift": lambda a, b: tt.opaque("shift", a, b), "RShift": lambda a, b: tt.opaque("shift", a, b)}

    @staticmethod
    def intop(op, a, b):
        x, y = tt.cv(tm(a)), tt.cv(tm(b))
        if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and y != 0:
            return tm(x % y if op == "mod" else x // y)
        return tt.fn(op, a, b)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow",
              "FloorDiv": "floordiv", "Mod": "mod", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, PhiV):
            a = self.force(a)
            if isinstance(a, PhiV):
                return self.dist(a, lambda x: self.binop(op, x, b))
        if isinstance(b, PhiV):
            b = self.force(b)
            if isinstance(b, PhiV):
                return self.dist(b, lambda x: self.binop(op, a, x))
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, T) and not isinstance(b, T):
                try:
                    if op == "Div":
                        if b == 0:
                            self.raise_("ZeroDivisionError")
                            return self.opq("division by zero")
                        r = Fraction(a) / Fraction(b)
                        return int(r) if r.denominator == 1 else r
                    if op == "Pow":
                        return self.cstval(tt.power(a, b))
                    import operator as o
                    return {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Mod": o.mod, "FloorDiv": o.floordiv,
                            "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor, "LShift": o.lshift,
                            "RShift": o.rshift}[op](a, b)
                except Exception:
                    return self.opq(op, a, b)
            return self.cstval(self.BIN[op](a, b))
        if isinstance(a, (Obj, NT)) or isinstance(b, (Obj, NT)):
            for x, y, nm in ((a, b, "__"), (b, a, "__r")):
                if isinstance(x, (Obj, NT)):
                    if nm == "__r" and isinstance(a, Arr) and "__array_ufunc__" not in x.cls.ns and \
                            "__array_priority__" not in x.cls.ns:
                        break
                    f, _ = x.cls.find(nm + self.DUNDER.get(op, "?") + "__")
                    if f is not MISSING:
                        return self.call(f, [x, y], {})
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == "MatMult":
                return self.libs.np_dot(a, b)
            return self.elementwise(self.BIN[op], a, b, op=op)
        if op == "MatMult":
            return self.libs.np_dot(a, b)
        if isinstance(a, LList) and a.kind == "masked" and is_scalar(b):
            return self.map_masked(a, lambda x: self.binop(op, x, b))
        if isinstance(b, LList) and b.kind == "masked" and is_scalar(a):
            return self.map_masked(b, lambda x: self.binop(op, a, x))
        r = self.libs.binop(op, a, b)
        if r is not NotImplemented:
            return r
        if a is None or b is None:
            self.raise_("TypeError")
        return self.opq(op, a, b)

    def map_masked(self, l, f):
        def one(x):
            if isinstance(x, Guard):
                return Guard(x.c, one(x.v))
            if isinstance(x, Splice):
                return Splice(x.i, [one(y) for y in x.items], x.cond)
            return f(x)
        return LList([one(x) for x in l.items], self.ctx, "masked")

    def cstval(self, t):
        if isinstance(t, T) and t.op == "c" and isinstance(t.args[1], (int, Fraction, bool)):
            return t.args[1]
        return t

    def famalign(self, arrs):
        """family axes of a broadcast result, or None"""
        n = max(x.a.ndim for x in arrs)
        out = [None] * n
        for x in arrs:
            off = n - x.a.ndim
            for k, f in enumerate(x.fam):
                if f is None:
                    continue
                if out[off + k] is None:
                    out[off + k] = f
                elif out[off + k] is not f:
                    return None
        for x in arrs:
            off = n - x.a.ndim
            for k in range(x.a.ndim):
                if out[off + k] is not None and x.fam[k] is None and x.a.shape[k] > 1:
                    return None
        return tuple(out)

    def elementwise(self, f, a, b, dt=None, op=None):
        a1 = a if isinstance(a, Arr) else self.libs.asarr(a)
        b1 = b if isinstance(b, Arr) else self.libs.asarr(b)
        if a1 is None or b1 is None:
            if a is None or b is None:
                self.raise_("TypeError")
            return self.opq("array op", a, b)
        fam = self.famalign([a1, b1])
        if fam is None:
            return self.opq("array op on unrelated collections", a1, b1)
        try:
            r = np.frompyfunc(f, 2, 1)(a1.a, b1.a)
        except ValueError:
            self.misshapen("ValueError", "broadcast", a1, b1)
            return self.opq("broadcast", a1, b1)
        r = r if isinstance(r, np.ndarray) else oarr(r)
        if dt is None:
            ds = {x.dt for x, o in ((a1, a), (b1, b)) if isinstance(o, Arr)}
            ic = lambda o: isinstance(o, Arr) and o.dt == "i8" or isinstance(o, int) or \
                isinstance(o, LList) and False
            if op == "Div":
                dt = "f8" if ds != {"f4"} else "f4"
            elif ic(a) and ic(b):
                dt = "i8"
            elif ds == {"f4"}:
                dt = "f4"
            elif ds == {"cfg"} and (isinstance(a, int) or isinstance(b, int) or isinstance(a, Arr) and
                                    isinstance(b, Arr)):
                dt = "cfg"
            else:
                dt = "f8"
        if dt == "f4":
            r = np.frompyfunc(lambda x: x if isinstance(x, T) and x.op == "fn" and x.args[0] == "float32"
                              else tt.fn("float32", x), 1, 1)(r)
            r = r if isinstance(r, np.ndarray) else oarr(r)
        if r.ndim == 0:
            return self.cstval(r[()])
        return self.arr(r, fam, dt)

    # ------------------------------------------------------------ sequences
    def segments(self, v):
        v = self.resolve(v)
        if isinstance(v, tuple):
            if v and v[0] == "slice" and len(v) == 4:
                return None
            return [("one", x) for x in v]
        if isinstance(v, LList):
            out = []
            for x in v.items:
                if isinstance(x, Guard):
                    c = self.simp(x.c)
                    if c is TRUE:
                        out.append(("one", x.v))
                    elif c is not FALSE:
                        out.append(("guard", x.c, x.v))
                elif isinstance(x, Splice):
                    out.append(("fam", x.i, x.items, x.cond))
                elif isinstance(x, LibObj) and x.kind == "mark":
                    return None
                else:
                    out.append(("one", x))
            return out
        if isinstance(v, Arr):
            if v.a.ndim == 0:
                return None
            if v.fam[0] is not None:
                return [("fam", v.fam[0], [self.sub(v, 0)], None)]
            return [("one", self.sub(v, k)) for k in range(v.a.shape[0])]
        if isinstance(v, PhiV):
            f = self.force(v)
            if not isinstance(f, PhiV):
                return self.segments(f)
            a, b = self.segments(v.a), self.segments(v.b)
            if a is not None and b is not None and len(a) == len(b) and \
                    all(s[0] == "one" for s in a + b):
                return [("one", self.merge(v.c, x[1], y[1])) for x, y in zip(a, b)]
            return None
        return self.libs.segments(v)

    def sub(self, v, k):
        """v[k] along a plain axis, or the generic element of a family axis (a view)"""
        x = v.a[k]
        if v.a.ndim == 1:
            return self.cstval(x)
        return Arr(x, v.fam[1:], v.dt)

    BROKEN = (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError)

    def getitem(self, o, i):
        try:
            return self.libs.getitem(o, i)
        except self.BROKEN:
            if os.environ.get("VERIF_DEBUG"):
                raise
            return self.opq("subscript")

    def setitem(self, o, i, v):
        try:
            self.libs.setitem(o, i, v)
        except self.BROKEN:
            if os.environ.get("VERIF_DEBUG"):
                raise
            o = self.resolve(o)
            if isinstance(o, Arr):
                self.taint_array(o, "assignment")
            else:
                self.event("lost", what="assignment")


class Splice_arg:
    def __init__(self, v):
        self.v = v


class Bound_raw(Func):
    """call a cached property's function without its property kind"""
    def __init__(self, f):
        self.__dict__.update(f.__dict__)
        self.cached = None


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False
