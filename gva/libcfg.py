"""Model of confuse: layered configuration, views, templates."""
from fractions import Fraction

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import MISSING, Arr, Cls, LDict, Lib, LibObj, LList, Obj, PhiV, Splice, as_int, is_scalar


class NotFound(Exception):
    pass


class NotColl(Exception):
    pass


class Cfg:
    TEMPLATES = {"confuse.Optional": "optional", "confuse.String": "string", "confuse.Number": "number",
                 "confuse.Integer": "integer", "confuse.Choice": "choice", "confuse.OneOf": "oneof",
                 "confuse.Filename": "path", "confuse.Path": "path", "confuse.TypeTemplate": "type",
                 "confuse.Template": "any", "confuse.Sequence": "sequence", "confuse.StrSeq": "strseq"}

    # ------------------------------------------------------------- sources
    def cfg_call(self, name, args, kw):
        I = self.I
        if name in ("confuse.LazyConfig", "confuse.Configuration"):
            o = LibObj("config", I.ctx, sources=(), app=args[0] if args else kw.get("appname"),
                       modname=args[1] if len(args) > 1 else kw.get("modname"), lazy=name.endswith("LazyConfig"),
                       mat=False, prefix=(), suffix=())
            if name == "confuse.Configuration" and I.resolve(args[2] if len(args) > 2 else kw.get("read", True)) is True:
                self.cfg_read(o, True, True)
            return o
        if name == "confuse.YamlSource":
            return LibObj("source", name="file", path=args[0], optional=I.resolve(kw.get("optional", False)))
        if name in ("confuse.ConfigSource", "confuse.ConfigSource.of"):
            return LibObj("source", name="data", data=args[0])
        k = self.TEMPLATES.get(name)
        if k is not None:
            return LibObj("tmpl", t=k, args=tuple(args), kw=dict(kw))
        if name == "confuse.as_template":
            return self.astmpl(args[0])
        return MISSING

    def cfg_read(self, o, user=True, defaults=True):
        I = self.I
        if user and I.iofaults:
            I.raise_(I.faultkind.get("config", "confuse.ConfigReadError"), tt.fn("fails:config", "user"))
        I.setcell(o.d, "mat", True)
        s = ()
        if user:
            s += ("user",)
        if defaults and o.d["modname"] is not None:
            s += ("default",)
            I.event("cfg_default", modname=o.d["modname"], app=o.d["app"])
        I.event("cfg_read", user=user, defaults=defaults, app=o.d["app"])
        I.setcell(o.d, "sources", o.d["sources"] + tuple(self.cfg_now(x) for x in s))

    def cfg_now(self, s):
        """what a file holds at this time (the files of an earlier run may have held other values)"""
        a = (self.I.config or {}).get("alias")
        return s if a is None else f"{a}:{s}"

    def cfg_src(self, v):
        v = self.I.resolve(v)
        if isinstance(v, LibObj) and v.kind == "source":
            if v.d["name"] == "file":
                self.cfg_filesrc(v.d["path"], v.d["optional"])
                return self.cfg_now("cli")
            return self.cfg_src(v.d["data"])
        return LibObj("source", name="data", data=v)

    def cfg_filesrc(self, path, optional=False):
        I = self.I
        I.event("cfg_file", file=self.canonpath(path))
        if not optional:
            self.iofail("open", path)

    def m_config_read(self, o, user=True, defaults=True):
        self.cfg_read(o, self.I.truth(user) is TRUE, self.I.truth(defaults) is TRUE)

    def m_config_set(self, o, v):
        I = self.I
        s = self.cfg_src(v)
        if o.d["lazy"] and not o.d["mat"]:
            I.setcell(o.d, "prefix", (s,) + o.d["prefix"])
        else:
            I.setcell(o.d, "sources", (s,) + o.d["sources"])

    def m_config_add(self, o, v):
        I = self.I
        s = self.cfg_src(v)
        if o.d["lazy"] and not o.d["mat"]:
            I.setcell(o.d, "suffix", o.d["suffix"] + (s,))
        else:
            I.setcell(o.d, "sources", o.d["sources"] + (s,))

    def m_config_set_file(self, o, filename, base_for_paths=False):
        I = self.I
        self.cfg_filesrc(filename)
        I.live(lambda: self._prepend(o, self.cfg_now("cli")))

    def _prepend(self, o, s):
        I = self.I
        if o.d["lazy"] and not o.d["mat"]:
            I.setcell(o.d, "prefix", (s,) + o.d["prefix"])
        else:
            I.setcell(o.d, "sources", (s,) + o.d["sources"])

    def m_config_clear(self, o):
        for k in ("sources", "prefix", "suffix"):
            self.I.setcell(o.d, k, ())

    def m_config_config_dir(self, o):
        return tt.fn("str:config_dir")

    def m_config_user_config_path(self, o):
        return tt.fn("str:user_config")

    def g_config(self, o, name):
        if name == "_package_path":
            return tt.fn("str:pkgpath", *( [tm(o.d["modname"])] if isinstance(o.d["modname"], (str, T)) else []))
        if name == "sources":
            return LList([LibObj("source", name="data", data=None) for _ in o.d["sources"]])
        return MISSING

    # --------------------------------------------------------------- views
    def rootview(self, o):
        return LibObj("view", cfg=o, keys=())

    def gi_config(self, o, k):
        I = self.I
        s = I.resolve(o.d["sources"])
        if isinstance(s, PhiV):
            def snap(x):
                return lambda: self.gi_config(LibObj("config", I.ctx, **{**dict(o.d), "sources": x}), k)
            return I.branch(s.c, snap(s.a), snap(s.b))
        return LibObj("view", cfg=o, keys=(k,))

    def gi_view(self, o, k):
        return LibObj("view", cfg=o.d["cfg"], keys=o.d["keys"] + (k,))

    def m_config(self, o, name, args, kw):
        return self.method(self.rootview(o), name, args, kw) if name in \
            ("get", "keys", "items", "values", "exists", "first", "all_contents", "flatten", "as_str") else MISSING

    def seg_config(self, o):
        return self.seg_view(self.rootview(o))

    def in_config(self, o, k):
        return self.in_view(self.rootview(o), k)

    def cfg_sources(self, cfg):
        I = self.I
        if cfg.d["lazy"] and not cfg.d["mat"]:
            self.cfg_read(cfg)
            I.setcell(cfg.d, "sources", cfg.d["prefix"] + cfg.d["sources"] + cfg.d["suffix"])
        out = []
        for s in I.resolve(cfg.d["sources"]):
            if isinstance(s, str):
                x = (I.config or {}).get("sources", {}).get(s, MISSING)
                if x is not MISSING and x is not None:
                    out.append(x)
            else:
                out.append(self.pyconf(s.d["data"]))
        return out

    def pyconf(self, v):
        v = self.I.resolve(v)
        if isinstance(v, LDict):
            return {v.keys_.get(k, k): self.pyconf(x) for k, x in v.cells.items() if x is not MISSING}
        return v

    def raws(self, view):
        """values of a view in the sources, highest priority first"""
        vals = self.cfg_sources(view.d["cfg"])
        for key in view.d["keys"]:
            key = self.I.resolve(key)
            out = []
            for v in vals:
                if isinstance(v, dict):
                    if isinstance(key, str) or isinstance(key, int):
                        if key in v:
                            out.append(v[key])
                        continue
                    raise NotColl()
                if isinstance(v, (list, tuple, LList)):
                    items = v.items if isinstance(v, LList) else list(v)
                    if len(items) == 1 and isinstance(items[0], Splice):
                        sp = items[0]
                        if isinstance(key, T) and key is sp.i:
                            out.append(sp.items[0])
                            continue
                        out.append(("pick", sp, key))
                        continue
                    if isinstance(key, str):
                        raise NotColl()
                    k = as_int(key)
                    if k is None:
                        raise NotColl()
                    if -len(items) <= k < len(items):
                        out.append(items[k])
                    continue
                if isinstance(v, tuple) and v and v[0] == "pick":
                    raise NotColl()
                if isinstance(v, str) and isinstance(key, int):
                    raise NotColl()
                raise NotColl()
            vals = [self.pick(x) for x in out]
        return vals

    def pick(self, x):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "pick":
            _, sp, key = x

            def go(v):
                if isinstance(v, dict):
                    return {k: go(y) for k, y in v.items()}
                return self.I.foreign(v, sp.i, tm(key))
            return go(sp.items[0])
        return x

    def cfgval(self, v):
        I = self.I
        if isinstance(v, dict):
            d = LDict(I.ctx)
            for k, x in v.items():
                self.dict_set(d, k, self.cfgval(x))
            return d
        if isinstance(v, list):
            return LList([self.cfgval(x) for x in v], I.ctx)
        if isinstance(v, LList):
            return LList(v.items, I.ctx)
        return v

    def first(self, view):
        """raw value of the highest source; raises NotFound/NotColl"""
        r = self.raws(view)
        if not r:
            raise NotFound()
        return r[0]

    def vget(self, view, f):
        """run f(raw value); configuration errors become exceptions of the program"""
        I = self.I
        srcs = I.resolve(view.d["cfg"].d["sources"])
        if isinstance(srcs, PhiV):
            return I.branch(srcs.c, lambda: self.vget(view, f), lambda: self.vget(view, f))
        for k in view.d["keys"]:
            kk = I.resolve(k)
            if isinstance(kk, PhiV):
                return I.dist(kk, lambda q: self.vget(LibObj("view", cfg=view.d["cfg"], keys=tuple(
                    q if z is k else z for z in view.d["keys"])), f))
        name = ".".join(str(k) if isinstance(k, (str, int)) else "#" for k in view.d["keys"])
        I.event("cfg_get", keys=tuple(view.d["keys"]))
        try:
            return f(self.first(view))
        except NotFound:
            I.raise_("confuse.NotFoundError", key=name)
        except NotColl:
            I.raise_("confuse.ConfigTypeError", key=name)
        return I.opq("missing configuration value " + name)

    def m_view_get(self, o, template=MISSING):
        if template is MISSING or template is None:
            return self.vget(o, self.cfgval)
        return self.apply(self.astmpl(template), o)

    def m_view_first(self, o):
        return self.vget(o, lambda v: (self.cfgval(v), LibObj("source", name="data", data=None)))

    def m_view_as_str(self, o):
        return self.apply(self.astmpl(Lib("builtins.str")), o)

    def m_view_as_number(self, o):
        return self.apply(self.astmpl(Lib("builtins.float")), o)

    def m_view_as_filename(self, o):
        return self.apply(LibObj("tmpl", t="path", args=(), kw={}), o)

    def m_view_as_path(self, o):
        return self.path_new(self.apply(LibObj("tmpl", t="path", args=(), kw={}), o))

    def m_view_as_choice(self, o, choices):
        return self.apply(LibObj("tmpl", t="choice", args=(choices,), kw={}), o)

    def m_view_exists(self, o):
        try:
            self.first(o)
            return True
        except NotFound:
            return False
        except NotColl:
            self.I.raise_("confuse.ConfigTypeError")
            return False

    def m_view_keys(self, o):
        try:
            ks = []
            for v in self.raws(o):
                if not isinstance(v, dict):
                    raise NotColl()
                ks += [k for k in v if k not in ks]
            return LList(ks, self.I.ctx)
        except NotColl:
            self.I.raise_("confuse.ConfigTypeError")
            return LList([], self.I.ctx)

    def m_view_items(self, o):
        return LList([(k, self.gi_view(o, k)) for k in self.m_view_keys(o).items], self.I.ctx)

    def m_view_values(self, o):
        return LList([self.gi_view(o, k) for k in self.m_view_keys(o).items], self.I.ctx)

    def m_view_sequence(self, o):
        return LList(self.I.seg_items(self.seqview(o)), self.I.ctx)

    def m_view_flatten(self, o, redact=False):
        return self.vget(o, self.cfgval)

    def m_view_get_root(self, o):
        return o.d["cfg"]

    def g_view(self, o, name):
        if name == "key":
            return o.d["keys"][-1] if o.d["keys"] else MISSING
        return MISSING

    def t_view(self, o):
        return self.I.truth(self.vget(o, self.cfgval))

    def str_view(self, o):
        return self.strof(self.vget(o, self.cfgval))

    def in_view(self, o, k):
        return tm(self.m_view_exists(self.gi_view(o, k)))

    def isa_view(self, v, n):
        return n in ("confuse.Subview", "confuse.ConfigView", "confuse.core.Subview", "confuse.core.ConfigView")

    def isa_config(self, v, n):
        return n in ("confuse.Configuration", "confuse.ConfigView", "confuse.RootView") or \
            v.d["lazy"] and n == "confuse.LazyConfig"

    def seg_view(self, o):
        try:
            vs = self.raws(o)
        except NotColl:
            vs = []
        if vs and all(isinstance(v, dict) for v in vs):
            return [("one", k) for k in self.m_view_keys(o).items]
        return self.seqview(o)

    def seqview(self, o):
        I = self.I
        try:
            v = self.first(o)
        except NotFound:
            return []
        except NotColl:
            I.raise_("confuse.ConfigTypeError")
            return []
        if isinstance(v, LList):
            if len(v.items) == 1 and isinstance(v.items[0], Splice):
                i = v.items[0].i
                return [("fam", i, [self.gi_view(o, i)], None)]
            v = v.items
        if not isinstance(v, (list, tuple)):
            I.raise_("confuse.ConfigTypeError")
            return []
        return [("one", self.gi_view(o, k)) for k in range(len(v))]

    # ----------------------------------------------------------- templates
    def astmpl(self, t):
        I = self.I
        t = I.resolve(t)
        mk = lambda k, *a, **kw: LibObj("tmpl", t=k, args=a, kw=kw)
        if isinstance(t, LibObj) and t.kind == "tmpl":
            return t
        if isinstance(t, Lib):
            n = t.name.replace("builtins.", "")
            k = {"int": "integer", "float": "number", "str": "string", "dict": "dict", "list": "list"}.get(n)
            if k:
                return mk(k)
            if n == "bool":
                return mk("type", t)
            if n == "confuse.REQUIRED":
                return mk("any")
            k = self.TEMPLATES.get(t.name)
            return mk(k) if k else mk("?", t)
        if t is None:
            return mk("any", None)
        if isinstance(t, LList):
            return mk("choice" if t.kind == "set" else "oneof", t)
        if isinstance(t, bool):
            return mk("integer", t)
        if isinstance(t, int):
            return mk("integer", t)
        if isinstance(t, Fraction):
            return mk("number", t)
        if isinstance(t, str):
            return mk("string", t)
        if isinstance(t, LDict):
            return mk("mapping", t)
        if isinstance(t, Cls):
            return mk("choice", t) if t.enum else mk("type", t)
        return mk("?", t)

    def tdefault(self, t):
        k, a, kw = t.d["t"], t.d["args"], t.d["kw"]
        if "default" in kw:
            return kw["default"]
        pos = 1 if k in ("choice", "oneof", "type") else 0
        if k in ("string", "number", "integer", "any", "path", "choice", "oneof", "type") and len(a) > pos:
            d = a[pos]
            if isinstance(d, Lib) and d.name == "confuse.REQUIRED":
                return MISSING
            return d
        return MISSING

    def apply(self, t, view):
        I = self.I
        k = t.d["t"]
        if k == "?":
            return I.opq("configuration template")
        if k == "mapping":
            d = LDict(I.ctx)
            m = t.d["args"][0]
            for kk, sub in m.cells.items():
                key = m.keys_.get(kk, kk)
                self.dict_set(d, key, self.apply(self.astmpl(sub), self.gi_view(view, key)))
            return d
        if k == "optional":
            sub = self.astmpl(t.d["args"][0])
            a = t.d["args"]
            default = a[1] if len(a) > 1 else t.d["kw"].get("default")
            if default is None:
                default = self.tdefault(sub)
                default = None if default is MISSING else default
            allow = a[2] if len(a) > 2 else t.d["kw"].get("allow_missing", True)
            try:
                v = self.first(view)
            except NotFound:
                if I.resolve(allow) is True:
                    return default
                v = 0
            except NotColl:
                v = 0
            if v is None:
                return default
            return self.apply(sub, view)
        default = self.tdefault(t)
        if default is not MISSING:
            try:
                self.first(view)
            except NotFound:
                return default
            except NotColl:
                pass
        if k == "oneof":
            return self.vget(view, lambda v: self.oneof(t, view))
        if k in ("sequence", "strseq"):
            return I.opq("configuration sequence template")
        return self.vget(view, lambda v: self.convert(t, v))

    def oneof(self, t, view):
        I = self.I
        cands = I.tolist(t.d["args"][0]) or []
        for c in cands:
            mark = len(I.events)
            trail = len(I.trail)
            um = list(I.unmodelled)
            before = I.exc["c"]
            r = self.apply(self.astmpl(c), view)
            e = I.simp(I.exc["c"])
            if e is I.simp(before) or e is FALSE:
                return r
            if e is TRUE:
                v = I.resolve(I.exc["v"])
                if "confuse" not in I.exc_name(v):
                    return r
                I.undo(trail)
                del I.events[mark:]
                I.unmodelled[:] = um
                continue
            return I.opq("configuration alternatives")
        I.raise_("confuse.ConfigTypeError")
        return I.opq("configuration value")

    def yaml_(self, name, args, kw):
        """reading and writing YAML texts that are known"""
        import yaml
        I = self.I

        def lift(v):
            if isinstance(v, dict):
                d = LDict(I.ctx)
                for k, x in v.items():
                    self.dict_set(d, k, lift(x))
                return d
            if isinstance(v, list):
                return LList([lift(x) for x in v], I.ctx, "list")
            return Fraction(repr(v)) if isinstance(v, float) else v

        def lower(v):
            v = I.resolve(v)
            if isinstance(v, LDict) and not v.tail.items:
                return {lower(v.keys_.get(k, k)): lower(x) for k, x in v.cells.items() if x is not MISSING}
            if isinstance(v, (LList, tuple)):
                return [lower(x) for x in I.tolist(v)]
            if isinstance(v, Fraction):
                return float(v)
            if v is None or isinstance(v, (str, int)):
                return v
            raise TypeError("not a known value")
        x = I.resolve(args[0])
        n = name.split(".")[-1]
        if n in ("safe_load", "load", "full_load"):
            return lift(yaml.safe_load(x)) if isinstance(x, str) else I.opq("yaml", x)
        if n in ("safe_dump", "dump") and len(args) == 1:
            return yaml.safe_dump(lower(x), **{k: lower(v) for k, v in kw.items() if k != "Dumper"})
        return I.opq("yaml")

    def convert(self, t, v):
        I = self.I
        k = t.d["t"]
        num = is_scalar(v) and not (isinstance(v, T) and tt.sort(v) != tt.NUM)
        isstr = isinstance(v, str) or isinstance(v, T) and tt.sort(v) == tt.STR
        opaque = isinstance(v, T) and v.op == "fn" and v.args[0].startswith("?")

        def bad(ok):
            if not ok and not opaque:
                I.raise_("confuse.ConfigTypeError")
                return True
            return False
        if k == "any":
            return self.cfgval(v)
        if k == "number":
            return I.opq("bad configuration value") if bad(num) else v
        if k == "integer":
            if bad(num):
                return I.opq("bad configuration value")
            return self.b_int(v)
        if k == "string":
            if t.d["kw"].get("pattern") is not None:
                return I.opq("string pattern", v)
            return I.opq("bad configuration value") if bad(isstr) else v
        if k == "path":
            # relative to the configuration directory
            return I.opq("bad configuration value") if bad(isstr) else tt.fn("str:cfgpath", v)
        if k in ("list", "dict"):
            ok = isinstance(v, (list, LList, tuple)) or isstr if k == "list" else isinstance(v, dict)
            return I.opq("bad configuration value") if bad(ok) else self.cfgval(v)
        if k == "type":
            c = I.simp(self.isinstance_(self.cfgval(v), t.d["args"][0]))
            if c is not TRUE:
                I.raise_("confuse.ConfigTypeError", tt.notc(c))
            return self.cfgval(v)
        if k == "choice":
            ch = I.resolve(t.d["args"][0])
            if isinstance(ch, Cls):
                r = self.enum_call(ch, v)
                e = I.resolve(I.exc["v"]) if I.simp(I.exc["c"]) is TRUE else None
                if isinstance(e, LibObj) and e.d.get("name") == "ValueError":
                    dict.__setitem__(e.d, "name", "confuse.ConfigValueError")
                return r
            c = I.truth(self.contains(ch, v))
            I.raise_("confuse.ConfigValueError", tt.notc(c))
            return self.dict_get(ch, v) if isinstance(ch, LDict) else v
        return I.opq("configuration template", *([v] if is_scalar(v) else []))
