"""Model of paths, files and tables (pathlib, os.path, pandas, shutil)."""
import os
import posixpath
from fractions import Fraction

import numpy as np

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import MISSING, Arr, LDict, Lib, LibObj, LList, Obj, PhiV, as_int, is_scalar, oarr


class Paths:
    # ------------------------------------------------------- canonical form
    # ("path", parts, exp): parts are strings, terms, ("suffix", s) or ("parent",)
    def canonpath(self, v):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, PhiV):
            v = I.force(v)
        if isinstance(v, LibObj) and v.kind == "path":
            return v.d["c"]
        if isinstance(v, LibObj) and v.kind == "strpath":
            return ("path", (v.d["t"],), False)
        if isinstance(v, T) and v in self.pathterms:
            return self.pathterms[v]
        if isinstance(v, T) and v.op == "c":
            v = v.args[1]
        if isinstance(v, str):
            return ("path", (posixpath.normpath(v) if v else ".",), False)
        if isinstance(v, T):
            return ("path", (v,), False)
        if isinstance(v, LibObj) and v.kind == "file":
            return v.d["c"]
        return ("path", (I.opq("path"),), False)

    def pathterm(self, c):
        """string of a canonical path"""
        _, parts, exp = c
        if len(parts) == 1 and isinstance(parts[0], (str, T)) and not exp:
            return parts[0]
        enc = []
        for p in parts:
            if isinstance(p, tuple):
                enc += [tm("%" + p[0])] + [tm(x) for x in p[1:]]
            else:
                enc.append(tm(p))
        t = tt.fn("str:path", tm("exp" if exp else "raw"), *enc)
        self.pathterms[t] = c
        return t

    def mkpath(self, c):
        return LibObj("path", self.I.ctx, c=c)

    def path_new(self, *args):
        I = self.I
        if not args:
            return self.mkpath(("path", (".",), False))
        r = I.dist(args[0], lambda v: self.mkpath(self.canonpath(v)))
        for a in args[1:]:
            r = self.path_join(r, a)
        return r

    def path_join(self, p, x):
        I = self.I
        if isinstance(I.resolve(p), PhiV):
            return I.dist(p, lambda q: self.path_join(q, x))
        if isinstance(I.resolve(x), PhiV):
            return I.dist(x, lambda q: self.path_join(p, q))
        _, a, e = self.canonpath(p)
        _, b, e2 = self.canonpath(x)
        if isinstance(b[0], str) and b[0].startswith("/"):
            return self.mkpath(("path", b, e2))
        if isinstance(a[-1], str) and isinstance(b[0], str):
            r = a[:-1] + (posixpath.normpath(posixpath.join(a[-1], b[0])),) + b[1:]
        else:
            r = a + b
        return self.mkpath(("path", r, e))

    def path_parent(self, c):
        _, a, e = c
        if isinstance(a[-1], tuple) and a[-1][0] == "suffix":
            a = a[:-1]
        if isinstance(a[-1], str):
            d = posixpath.dirname(a[-1])
            if d:
                return ("path", a[:-1] + (d,), e)
            if len(a) > 1:
                return ("path", a[:-1], e)
            return ("path", (".",), e)
        return ("path", a + (("parent",),), e)

    def path_suffix(self, c, s):
        _, a, e = c
        if isinstance(a[-1], tuple) and a[-1][0] == "suffix":
            a = a[:-1]
        if isinstance(a[-1], str) and isinstance(s, str):
            d, n = posixpath.split(a[-1])
            k = n.rfind(".")
            n = (n[:k] if 0 < k < len(n) - 1 else n) + s
            return ("path", a[:-1] + (posixpath.join(d, n),), e)
        return ("path", a + (("suffix", s if isinstance(s, str) else tm(s)),), e)

    # --------------------------------------------------------------- methods
    def m_path(self, o, name, args, kw):
        I = self.I
        c = o.d["c"]
        if name == "expanduser":
            return self.mkpath((c[0], c[1], True))
        if name in ("resolve", "absolute"):
            return o
        if name in ("is_file", "exists", "is_dir"):
            return tt.fn("isfile" if name != "is_dir" else "cond:isdir", self.pathterm(c))
        if name == "with_suffix":
            return I.dist(args[0], lambda s: self.mkpath(self.path_suffix(c, s)))
        if name == "with_name":
            return self.path_join(self.mkpath(self.path_parent(c)), args[0])
        if name == "joinpath":
            r = o
            for a in args:
                r = self.path_join(r, a)
            return r
        if name == "mkdir":
            I.event("mkdir", file=c, kw=kw)
            if I.simp(I.truth(kw.get("parents", False))) is not TRUE or \
                    I.simp(I.truth(kw.get("exist_ok", False))) is not TRUE:
                I.event("mkdir_fragile", file=c)
            self.iofail("mkdir", c)
            return None
        if name in ("read_text", "read_bytes"):
            self.iofail("read", c)
            return self.content(c)
        if name in ("write_text", "write_bytes"):
            self.iofail("write", c)
            I.live(lambda: I.event("write", file=c, data=args[0], how="text"))
            return None
        if name == "open":
            return self.b_open(o, *args, **kw)
        if name in ("as_posix", "__str__", "__fspath__"):
            return self.str_path(o)
        if name == "unlink":
            I.event("delete", file=c)
            return None
        if name == "touch":
            I.event("write", file=c, data="", how="text")
            return None
        if name in ("rename", "replace"):
            d = self.canonpath(args[0])
            self.iofail("write", d)
            I.live(lambda: I.event("rename", file=c, to=d))
            return self.mkpath(d)
        return MISSING

    def g_path(self, o, name):
        c = o.d["c"]
        if name == "parent":
            return self.mkpath(self.path_parent(c))
        if name in ("name", "stem", "suffix"):
            a = c[1]
            if isinstance(a[-1], str):
                n = posixpath.basename(a[-1])
                k = n.rfind(".")
                stem, suf = (n[:k], n[k:]) if 0 < k < len(n) - 1 else (n, "")
                return {"name": n, "stem": stem, "suffix": suf}[name]
            if isinstance(a[-1], tuple) and a[-1][0] == "suffix":
                if name == "suffix":
                    return a[-1][1]
            return tt.fn("str:path" + name, self.pathterm(c))
        if name == "parents":
            return LibObj("parents", c=c)
        if name in ("c",):
            return MISSING
        return MISSING

    def gi_parents(self, o, i):
        c = o.d["c"]
        for _ in range((as_int(i) or 0) + 1):
            c = self.path_parent(c)
        return self.mkpath(c)

    def str_path(self, o):
        return self.pathterm(o.d["c"])

    def str_strpath(self, o):
        return o.d["t"]

    def bin_path(self, op, o, other, rev):
        if op == "Div":
            return self.path_join(other, o) if rev else self.path_join(o, other)
        return MISSING

    def eq_path(self, o, other):
        if isinstance(other, LibObj) and other.kind == "path":
            return tt.eq(tm(self.pathterm(o.d["c"])), tm(self.pathterm(other.d["c"])))
        return FALSE

    def isa_path(self, v, n):
        return n in ("pathlib.Path", "pathlib.PurePath", "os.PathLike", "pathlib.PosixPath")

    def t_path(self, o):
        return TRUE

    def content(self, c):
        """the text of a file: that of a packaged one is known"""
        _, parts, exp = c
        p = parts[0] if parts else None
        if isinstance(p, T) and p.op == "fn" and p.args[0] in ("str:pkg", "str:pkgpath") and not exp and \
                all(isinstance(x, str) for x in parts[1:]) and p.args[1]:
            n = tt.cv(p.args[1][0])
            if isinstance(n, str) and parts[-1].endswith((".yaml", ".yml", ".txt", ".md", ".csv", ".cfg", ".ini")):
                f = os.path.join(self.I.src, *n.split("."), *parts[1:])
                if os.path.isfile(f):
                    with open(f, encoding="utf-8") as h:
                        return h.read()
        return tt.fn("str:content", self.pathterm(c))

    def iofail(self, what, c):
        if self.I.iofaults:
            p = c if isinstance(c, tuple) else self.canonpath(c)
            self.I.raise_(self.I.faultkind.get(what, "OSError"), tt.fn("fails:" + what, tm(self.pathterm(p))))

    # ------------------------------------------------------------------ files
    def b_open(self, path, mode="r", *a, **kw):
        c = self.canonpath(path)
        self.iofail("open", c)
        f = LibObj("file", self.I.ctx, c=c, mode=mode)
        if isinstance(mode, str) and mode[:1] in "wx":
            self.I.live(lambda: self.I.event("write", file=c, data="", how="create", stream=f))
        return f

    def m_file(self, o, name, args, kw):
        I = self.I
        if name == "read":
            return self.content(o.d["c"])
        if name == "write":
            self.iofail("write", o.d["c"])
            I.live(lambda: I.event("write", file=o.d["c"], data=args[0], stream=o,
                                   how="append" if "a" in str(o.d["mode"]) else "text"))
            return None
        if name in ("close", "flush"):
            return None
        return MISSING

    def os_call(self, name, args, kw):
        I = self.I
        last = name.split(".")[-1]
        if name.startswith("os.path."):
            if last == "join":
                r = self.path_new(args[0])
                for a in args[1:]:
                    r = self.path_join(r, a)
                return I.dist(r, lambda p: self.str_path(p))
            if last in ("expanduser", "abspath", "realpath", "normpath", "dirname", "basename", "isfile", "exists",
                        "splitext", "isdir"):
                p = self.mkpath(self.canonpath(args[0]))
                if last == "expanduser":
                    return self.str_path(self.mkpath((p.d["c"][0], p.d["c"][1], True)))
                if last in ("abspath", "realpath", "normpath"):
                    return self.str_path(p)
                if last == "dirname":
                    return self.str_path(self.g_path(p, "parent"))
                if last == "basename":
                    return self.g_path(p, "name")
                if last == "splitext":
                    return (self.str_path(self.mkpath(self.path_suffix(p.d["c"], ""))), self.g_path(p, "suffix"))
                return self.m_path(p, {"isfile": "is_file", "isdir": "is_dir"}.get(last, last), [], {})
        if name in ("os.makedirs", "os.mkdir"):
            return self.m_path(self.mkpath(self.canonpath(args[0])), "mkdir", [],
                               dict(parents=name == "os.makedirs", exist_ok=kw.get("exist_ok", False)))
        if name == "os.fspath":
            return self.strof(args[0])
        if name in ("os.getcwd", "pathlib.Path.cwd"):
            return "." if name == "os.getcwd" else self.path_new(".")
        if name == "pathlib.Path.home":
            return self.mkpath(("path", ("~",), True))
        if name in ("os.getenv", "os.environ.get"):
            return tt.fn("str:env", *[x for x in args[:1] if isinstance(x, (str, T))])
        if name in ("os.remove", "os.unlink"):
            I.event("delete", file=self.canonpath(args[0]))
            return None
        if name in ("os.replace", "os.rename", "shutil.move"):
            a, b = self.canonpath(args[0]), self.canonpath(args[1])
            self.iofail("write", b)
            I.live(lambda: I.event("rename", file=a, to=b))
            return None
        if name in ("shutil.copy", "shutil.copyfile", "shutil.copy2"):
            s, d = self.canonpath(args[0]), self.canonpath(args[1])
            self.iofail("read", s)
            self.iofail("write", d)
            I.live(lambda: I.event("write", file=d, data=self.content(s), how="text"))
            return None
        if name == "importlib.resources.files":
            a = args[0]
            return self.mkpath(("path", (tt.fn("str:pkg", a if isinstance(a, (str, T)) else getattr(a, "name", "?")),),
                                False))
        if name in ("importlib.resources.as_file",):
            return args[0]
        if name in ("importlib.resources.path", "importlib.resources.read_text"):
            r = self.path_join(self.os_call("importlib.resources.files", args[:1], {}), args[1])
            return r if name.endswith("path") else self.m_path(r, "read_text", [], {})
        return MISSING
