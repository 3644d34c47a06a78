"""Library model: everything that is neither numpy nor a builtin."""
from fractions import Fraction

import numpy as np

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import (MISSING, Arr, Bound, Cls, Frame, Func, Guard, LDict, Lib, LibObj, LList, Method, Obj, Partial,
                     PhiV, Splice, as_int, is_scalar, like, oarr)
from .libcfg import Cfg
from .libgeo import Geo
from .libpath import Paths
from .libdf import Frames

NOOP = ("loguru.", "rich.", "atexit.", "warnings.", "logging.", "typer.echo", "typer.secho", "line_profiler.")
IDDECO = ("numba.jit", "numba.njit", "numba.vectorize", "numba.guvectorize", "typing.overload", "functools.wraps",
          "typing.no_type_check", "line_profiler.profile")


class LibX(Cfg, Geo, Paths, Frames):
    def init_x(self):
        self.hulls = []
        self.pathterms = {}
        self.arfams = {}
        self.csvs = {}
        dc = dict(fields=self.LIBDC_FIELDS, eq=True)
        self.LIBDC = {n: dc for n in self.ELLNAMES}
        self.X = {
            "functools.partial": lambda f, *a, **k: Partial(f, list(a), k),
            "functools.reduce": self.reduce_,
            "functools.lru_cache": lambda *a, **k: self.mkdeco("cache", a),
            "functools.cache": lambda *a, **k: self.mkdeco("cache", a),
            "functools.wraps": lambda *a, **k: LibObj("deco", what="id"),
            "dataclasses.dataclass": lambda *a, **k: self.dataclass(a[0], k) if a else
            LibObj("deco", what="dataclass", kw=k),
            "dataclasses.field": lambda **k: LibObj("field", **k),
            "collections.namedtuple": lambda n, f, rename=False, defaults=None, module=None: self.nt_class(n, f, defaults),
            "typing.NamedTuple": lambda n, f=(): self.nt_class(n, f),
            "dataclasses.replace": self.dc_replace,
            "dataclasses.astuple": lambda o: tuple(o.attrs[f[0]] for f in o.cls.dc["fields"]),
            "dataclasses.fields": lambda o: self.I.opq("dataclass fields"),
            "dataclasses.asdict": self.dc_asdict,
            "copy.copy": lambda v: self.clone(v, False),
            "copy.deepcopy": lambda v, memo=None: self.clone(v, True),
            "itertools.chain": lambda *v: self.chain(list(v)),
            "itertools.chain.from_iterable": lambda v: self.chain(self.I.tolist(v)),
            "itertools.pairwise": self.pairwise,
            "itertools.product": self.product,
            "itertools.combinations": self.combinations,
            "itertools.permutations": self.permutations,
            "itertools.starmap": lambda f, v: self.mapseq(lambda x: self.I.call(f, self.I.tolist(x), {}), v),
            "itertools.islice": self.islice,
            "itertools.repeat": lambda v, n=None: LList([v] * as_int(n), self.I.ctx) if as_int(n) is not None
            else LibObj("repeat", v=v),
            "itertools.cycle": lambda v: self.I.opq("cycle"),
            "contextlib.suppress": lambda *t: LibObj("suppress", types=tuple(t)),
            "contextlib.nullcontext": lambda v=None: LibObj("ctxgen", value=v),
            "contextlib.closing": lambda v: LibObj("closing", value=v),
            "contextlib.ExitStack": lambda: LibObj("exitstack", self.I.ctx, exits=LList([], self.I.ctx)),
            "collections.defaultdict": self.defaultdict,
            "collections.OrderedDict": self.b_dict,
            "collections.deque": lambda v=None, maxlen=None: self.b_list(v),
            "operator.attrgetter": lambda *n: (lambda I, a, k: self.dotted(a[0], n[0])),
            "operator.itemgetter": lambda *n: (lambda I, a, k: I.getitem(a[0], n[0]) if len(n) == 1 else
                                               tuple(I.getitem(a[0], q) for q in n)),
            "operator.methodcaller": lambda n, *b, **c: (lambda I, a, k: I.call(I.getattr(a[0], n), list(b), c)),
            "enum.Enum": self.enum_new, "enum.StrEnum": self.enum_new,
            "enum.auto": lambda: LibObj("auto"),
            "enum.unique": lambda c: c,
            "sys.exit": lambda *a: self.I.raise_("SystemExit", args=tuple(a)),
            "typing.cast": lambda t, v: v,
            "typer.Typer": lambda *a, **k: LibObj("typer", commands=[], callbacks=[], other=[k["callback"]] if k.get("callback") else []),
            "typer.run": lambda f: None,
            "typer.Argument": lambda *a, **k: LibObj("param", cls="Argument", args=a, kw=k),
            "typer.Option": lambda *a, **k: LibObj("param", cls="Option", args=a, kw=k),
            "typer.echo": lambda *a, **k: self.b_print(*a, **k), "typer.secho": lambda *a, **k: self.b_print(*a, **k),
            "rich.print": lambda *a, **k: self.b_print(*a, **k), "click.echo": lambda *a, **k: self.b_print(*a, **k),
            "sys.stdout.write": lambda *a, **k: self.b_print(*a, **k),
            "loguru.logger.add": self.log_add, "loguru.logger.remove": self.log_remove,
            "types.SimpleNamespace": self.namespace,
            "types.MappingProxyType": lambda v: v,
            "time.time": lambda: tt.fn("?time"), "time.perf_counter": lambda: tt.fn("?time"),
            "concurrent.futures.ThreadPoolExecutor": lambda *a, **k: LibObj("executor", self.I.ctx),
            "concurrent.futures.thread.ThreadPoolExecutor": lambda *a, **k: LibObj("executor", self.I.ctx),
            "multiprocessing.pool.ThreadPool": lambda *a, **k: LibObj("executor", self.I.ctx),
            "multiprocessing.dummy.Pool": lambda *a, **k: LibObj("executor", self.I.ctx),
            "threading.Lock": lambda: LibObj("lock"), "threading.RLock": lambda: LibObj("lock"),
        }
        ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "iadd": "Add", "pow": "Pow",
               "matmul": "MatMult", "neg": None}
        for n, o in ops.items():
            if o:
                self.X["operator." + n] = (lambda o: lambda a, b: self.I.binop(o, a, b))(o)
        self.X["operator.neg"] = lambda a: self.I.unop("USub", a)
        self.X["operator.getitem"] = lambda a, i: self.I.getitem(a, i)
        self.X["operator.setitem"] = lambda a, i, v: self.I.setitem(a, i, v)
        for n in ("eq", "ne", "lt", "gt", "le", "ge"):
            o = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "gt": "Gt", "le": "LtE", "ge": "GtE"}[n]
            self.X["operator." + n] = (lambda o: lambda a, b: self.I.compare(o, a, b))(o)
        self.init_df()

    # the log: handler 0 is there from the start, and can be taken away once
    def loghandlers(self):
        I = self.I
        if getattr(I, "loghandlers", None) is None:
            I.loghandlers = LibObj("loghandlers", (), first=tt.TRUE)
        return I.loghandlers.d

    def log_add(self, sink, **k):
        self.I.event("sink", sink=sink)
        return LibObj("loghandler")

    def log_remove(self, handler=None):
        I = self.I
        d = self.loghandlers()
        h = I.resolve(handler)
        if h == 0 and not isinstance(h, (tt.T, LibObj)):
            I.raise_("ValueError", tt.notc(d["first"]))
        elif h is not None:
            return
        I.live(lambda: I.setcell(d, "first", tt.FALSE))

    # --------------------------------------------------------------- dispatch
    def xcall(self, name, args, kw):
        I = self.I
        f = self.X.get(name)
        if f is not None:
            return self.safe(f, name, args, kw)
        if name == "loguru.logger.catch":
            return LibObj("deco", what="swallow", kw=kw) if not (args and isinstance(args[0], Func)) \
                else I.decorate(LibObj("deco", what="swallow", kw={}), args[0])
        if name.startswith(NOOP):
            return None if not name.startswith("loguru.logger.opt") and not name.startswith("loguru.logger.bind") \
                and not name.startswith("logging.getLogger") else LibObj("noop")
        if name == "functools.wraps":
            return LibObj("deco", what="wraps", f=args[0] if args else kw.get("wrapped"))
        if name in IDDECO or name.startswith("numba"):
            if args and isinstance(args[0], Func):
                return args[0]
            return LibObj("deco", what="id")
        for pre, m in (("confuse", self.cfg_call), ("pymap3d", self.geo_call), ("pygeodesy", self.geo_call),
                       ("os.", self.os_call), ("shutil.", self.os_call), ("importlib", self.os_call),
                       ("pathlib.", self.path_call), ("yaml.", self.yaml_)):
            if name.startswith(pre):
                try:
                    return m(name, args, kw)
                except (TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
                    if I.opts.get("debug"):
                        raise
                    return I.opq(f"{name} ({type(e).__name__})", *args)
        if name.startswith("datetime.") or name.startswith("time."):
            return tt.fn("?time")
        return MISSING

    def path_call(self, name, args, kw):
        if name in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
            return self.path_new(*args)
        return self.os_call(name, args, kw)

    def xattr(self, lib, name):
        full = f"{lib.name}.{name}"
        if name == "models" and lib.name in self.ELLNAMES:
            return LibObj("models")
        if full in ("sys.argv",):
            return self.I.opq("sys.argv")
        return MISSING

    def xgetitem(self, lib, i):
        I = self.I
        if lib.name == "numpy.mgrid":
            return self.np_mgrid(i)
        if lib.name in ("typing.Annotated", "typing_extensions.Annotated"):
            l = list(i[1:]) if isinstance(i, tuple) and i and i[0] == "idx" else list(i) if isinstance(i, tuple) else [i]
            return LibObj("annotated", type=I.resolve(l[0]), meta=[I.resolve(q) for q in l[1:]])
        if lib.name == "typing.Optional":
            return i
        if lib.name in ("numpy.c_", "numpy.r_"):
            l = list(i[1:]) if isinstance(i, tuple) and i and i[0] == "idx" else list(i) if isinstance(i, tuple) else [i]
            return self.column_stack(LList(l)) if lib.name == "numpy.c_" else self.concat(LList(
                [q if isinstance(self.asarr(q), Arr) and self.asarr(q).a.ndim else LList([q]) for q in l]), 0)
        if lib.name in ("numpy.s_", "numpy.index_exp"):
            return i
        if lib.name == "os.environ":
            return tt.fn("str:env", *([i] if isinstance(i, (str, T)) else []))
        return MISSING

    # -------------------------------------------------------------- utilities
    def mkdeco(self, what, a):
        if a and isinstance(a[0], Func):
            a[0].cached = []
            return a[0]
        return LibObj("deco", what=what)

    def call_deco(self, o, *args, **kw):
        return self.I.decorate(o, args[0]) if args else self.I.opq("decorator")

    def m_typer(self, o, name, args, kw):
        if name in ("command", "callback"):
            n = self.I.resolve(args[0] if args else kw.get("name")) if name == "command" else None
            return LibObj("deco", what="typer", app=o, reg=name + "s", name=n)
        o.d["other"].append(name)
        return None

    def call_typer(self, o, *args, **kw):
        self.I.event("app", app=o)
        return None

    def m_noop(self, o, name, args, kw):
        return None

    def g_noop(self, o, name):
        return LibObj("noop")

    def call_noop(self, o, *args, **kw):
        return None

    def m_executor(self, o, name, args, kw):
        """calls by the threads of a pool: they may come in any order, which the model takes to be that of submission"""
        I = self.I
        if name in ("map", "imap"):
            return self.b_map(args[0], *args[1:])
        if name == "starmap":
            return self.mapseq(lambda x: I.call(args[0], I.tolist(x), {}), args[1])
        if name in ("submit", "apply_async"):
            if name == "apply_async":
                args = [args[0]] + list(I.tolist(args[1]) if len(args) > 1 else [])
            c, v = I.exc["c"], I.exc["v"]
            r = I.call(args[0], list(args[1:]), kw)
            f = LibObj("future", I.ctx, r=r, c=tt.andc(I.exc["c"], tt.notc(c)), v=I.exc["v"])
            I.setcell(I.exc, "c", c)
            I.setcell(I.exc, "v", v)
            return f
        if name in ("shutdown", "close", "join", "terminate"):
            return None
        return MISSING

    def m_future(self, o, name, args, kw):
        I = self.I
        if name in ("result", "get"):
            def go():
                I.setcell(I.exc, "c", TRUE)
                I.setcell(I.exc, "v", o.d["v"])
            I.branch(tt.andc(tt.notc(I.exc["c"]), o.d["c"]), go, lambda: None)
            return o.d["r"]
        if name in ("done", "cancelled", "running"):
            return name == "done"
        return MISSING

    def m_lock(self, o, name, args, kw):
        return None

    def dotted(self, o, n):
        for p in n.split("."):
            o = self.I.getattr(o, p)
        return o

    def reduce_(self, f, v, init=MISSING):
        I = self.I
        segs = I.segments(v)
        if segs is None:
            return I.opq("reduce", v)
        if init is MISSING:
            if not segs or segs[0][0] != "one":
                return I.opq("reduce", v)
            init, segs = segs[0][1], segs[1:]
        fr = Frame(None, None, I.loc[1], I.ctx)
        dict.__setitem__(fr.vars, "acc", init)

        def body(x):
            def step():
                v = I.call(f, [fr.vars["acc"], x], {})
                I.live(lambda: I.setcell(fr.vars, "acc", I.resolve(v)))
            I.live(step)
        I.run_segs(segs, body, fr)
        return fr.vars["acc"]

    def clone(self, v, deep, memo=None):
        I = self.I
        memo = {} if memo is None else memo
        v = I.resolve(v)
        if id(v) in memo:
            return memo[id(v)]
        sub = (lambda x: self.clone(x, True, memo)) if deep else (lambda x: x)
        if isinstance(v, Arr):
            r = I.arr(v.a.copy(), v.fam, v.dt)
        elif isinstance(v, LList):
            r = LList([], I.ctx, v.kind)
            memo[id(v)] = r
            its = []
            for x in v.items:
                if isinstance(x, Guard):
                    its.append(Guard(x.c, sub(x.v)))
                elif isinstance(x, Splice):
                    if deep and any(not (is_scalar(y) or isinstance(y, (Arr, str))) for y in x.items):
                        return I.opq("deep copy of a collection")
                    its.append(Splice(x.i, [sub(y) for y in x.items], x.cond))
                else:
                    its.append(sub(x))
            dict.__setitem__(r.cells, "items", its)
        elif isinstance(v, LDict):
            r = LDict(I.ctx)
            memo[id(v)] = r
            for k, x in v.cells.items():
                r.keys_[k] = v.keys_.get(k, k)
                dict.__setitem__(r.cells, k, sub(x))
            dict.__setitem__(r.tail.cells, "items", list(v.tail.items))
        elif isinstance(v, tuple):
            return like(v, [sub(x) for x in v])
        elif isinstance(v, PhiV):
            return PhiV(v.c, self.clone(v.a, deep, memo), self.clone(v.b, deep, memo))
        elif isinstance(v, Obj):
            if v.cls.enum:
                return v
            f, _ = v.cls.find("__deepcopy__" if deep else "__copy__")
            if f is not MISSING:
                return I.call(f, [v] + ([LDict()] if deep else []), {})
            r = Obj(v.cls, I.ctx)
            memo[id(v)] = r
            for k, x in v.attrs.items():
                dict.__setitem__(r.attrs, k, sub(x))
        elif isinstance(v, LibObj):
            r = LibObj(v.kind, I.ctx, **dict(v.d))
        else:
            return v
        memo[id(v)] = r
        return r

    def dc_replace(self, o, **kw):
        I = self.I
        o = I.resolve(o)
        if isinstance(o, PhiV):
            return I.dist(o, lambda x: self.dc_replace(x, **kw))
        vals = {f[0]: o.attrs.get(f[0]) for f in o.cls.dc["fields"] if f[3]}
        vals.update(kw)
        return I.instantiate(o.cls, [], vals)

    def dc_asdict(self, o):
        d = LDict(self.I.ctx)
        for f in o.cls.dc["fields"]:
            self.dict_set(d, f[0], o.attrs[f[0]])
        return d

    def namespace(self, **kw):
        o = Obj(Cls("SimpleNamespace", None), self.I.ctx)
        for k, v in kw.items():
            dict.__setitem__(o.attrs, k, v)
        return o

    def chain(self, vs):
        I = self.I
        out = []
        for v in vs or []:
            segs = I.segments(v)
            if segs is None:
                return I.opq("chain")
            out += I.seg_items(segs)
        return LList(out, I.ctx, "gen")

    def conc(self, v):
        segs = self.I.segments(v)
        if segs is None or any(s[0] != "one" for s in segs):
            return None
        return [s[1] for s in segs]

    def combo(self, name, f, *vs):
        ls = [self.conc(v) for v in vs]
        if any(l is None for l in ls):
            return self.I.opq(name, *vs)
        return LList([tuple(x) for x in f(*ls)], self.I.ctx, "gen")

    def pairwise(self, v):
        import itertools
        return self.combo("pairwise", itertools.pairwise, v)

    def product(self, *vs, repeat=1):
        import itertools
        return self.combo("product", lambda *l: itertools.product(*l, repeat=as_int(repeat)), *vs)

    def combinations(self, v, n):
        import itertools
        return self.combo("combinations", lambda l: itertools.combinations(l, as_int(n)), v)

    def permutations(self, v, n=None):
        import itertools
        return self.combo("permutations", lambda l: itertools.permutations(l, as_int(n)), v)

    def islice(self, v, *a):
        l = self.conc(v)
        b = [None if q is None else as_int(q) for q in a]
        if l is None:
            return self.I.opq("islice", v)
        return LList(l[slice(*b)], self.I.ctx, "gen")

    def defaultdict(self, f=None, *a, **k):
        d = self.b_dict(*a, **k)
        d.default = f
        return d

    # ------------------------------------------------------------------ enum
    def enum_new(self, name, members=None, **kw):
        I = self.I
        m = I.resolve(members)
        if isinstance(m, LibObj) and m.kind == "models":
            return LibObj("modelenum")
        c = Cls(name if isinstance(name, str) else "Enum", None)
        c.enum = True
        pairs = None
        if isinstance(m, LDict):
            pairs = [(m.keys_.get(k, k), v) for k, v in m.cells.items()]
        elif isinstance(m, str):
            pairs = [(n, k + 1) for k, n in enumerate(m.replace(",", " ").split())]
        elif isinstance(m, LList) and m.plain():
            if all(isinstance(x, str) for x in m.items):
                pairs = [(n, k + 1) for k, n in enumerate(m.items)]
            elif all(isinstance(x, tuple) and len(x) == 2 for x in m.items):
                pairs = list(m.items)
        if pairs is None:
            return I.opq("enum")
        for n, v in pairs:
            o = Obj(c)
            dict.__setitem__(o.attrs, "name", n)
            dict.__setitem__(o.attrs, "value", v)
            c.members[n] = o
            c.ns[n] = o
        return c
