"""Checks of the configuration: sources, options, coordinates, shipped files, template command."""
import itertools
import math
import os
from fractions import Fraction

from . import terms as tt
from .c_crs import ORG, VDATUMS, World, axes_of, compare, row
from .libgeo import MODELS
from .report import BAD, OK, OPEN, Gone
from .values import Arr, LibObj, LList, Obj, PhiV, Splice

GF, XF, DF, MF, OF, CLI = ("geec/config.py", "geec/crs.py", "geec/dataset.py", "geec/mass.py", "geec/observer.py", "geec/cli.py")
FILE = "/u/run.yaml"


def S(n, s=tt.NUM):
    return tt.sym(n, s)


def points(nm):
    """a list of points whose number is unknown"""
    i = tt.index(nm)
    return LList([Splice(i, [LList([tt.fn("X" + nm, i, c) for c in range(3)])], None)])


def crsconf(n="", **k):
    d = dict(ref="cart", name=None, semimajor_axis=None, semiminor_axis=None, longitude_origin=None, latitude_origin=None,
             altitude_origin=None, vdatum=None)
    d.update(k)
    return d


def gridconf(v=None):
    v = v or [[0, 2, 1]] * 3
    return {f"{c}start_{c}end_{c}step": list(x) for c, x in zip("xyz", v)}


def body(n, **k):
    d = dict(points=points("m" + n), file_path=None, density=S("rho" + n), gravity_constant=S("Gc" + n), crs=crsconf())
    d.update(k)
    return d


def whole(n, nb=1, crs=None, ocrs=None, **k):
    """a complete configuration"""
    return dict(masses=[body(n + str(q), crs=crsconf(**(crs or {}))) for q in range(nb)],
                observers=dict(dict(points=points("o" + n), file_path=None, grid=gridconf(),
                                    crs=crsconf(**(ocrs or crs or {}))), **k))


def families(v):
    """index variables of the lists of unknown length in a configuration"""
    if isinstance(v, dict):
        return {i for x in v.values() for i in families(x)}
    if isinstance(v, (list, LList)):
        return {i for x in (v.items if isinstance(v, LList) else v) for i in families(x)}
    return {v.i} if isinstance(v, Splice) else set()


def filenames(v):
    if isinstance(v, dict):
        return {f for k, x in v.items() for f in ({os.path.normpath(x)} if k == "file_path" and isinstance(x, str) and x
                                                  else filenames(x))}
    if isinstance(v, (list, LList)):
        return {f for x in (v.items if isinstance(v, LList) else v) for f in filenames(x)}
    return set()


class Conf(World):
    def __init__(self, sources, arg=None, missing=(), prev=(), **kw):
        """prev: configurations read before in the same process, [(configuration files, argument)]"""
        super().__init__(config=dict(sources=dict(sources)), **kw)
        al = [sources] + [s for s, _ in prev]
        for i in families(al):
            self.I.push(tt.gt(tt.famlen(i), 0))     # lists of unknown length are not empty; empty ones are concrete
        for f in filenames(al):
            c = tt.fn("isfile", f)
            self.I.push(tt.notc(c) if f in missing else c)
        self.earlier(prev, self.readall)
        self.cfg, self.e0 = self.call(self.I.get("geec.config:setup"), [] if arg is None else [arg])

    def readall(self, arg):
        self.cfg, self.e0 = self.call(self.I.get("geec.config:setup"), [] if arg is None else [arg])
        self.all()

    def masses(self):
        """(list of bodies or None, condition of an error)"""
        ms, e = self.call(self.I.get("geec.mass:get_masses"), [self.cfg])
        v = self.excv
        out = self.I.tolist(ms)
        self.clear()
        self.excv = v
        return out, tt.orc(self.e0, e)

    def observer(self):
        o, e = self.call(self.I.get("geec.observer:get_observer"), [self.cfg])
        return o, tt.orc(self.e0, e)

    def data(self, d):
        """every value of a data set, as nodes: coordinates, frame, datum, ellipsoid, origin"""
        I = self.I
        d = I.resolve(d)
        if not isinstance(d, Obj):
            return [None]
        c = self.coords(d)
        if c is None:
            a = I.force(I.getattr(d, "coords"))
            c = [tt.tm(x) for x in a.a.reshape(-1)] if isinstance(a, Arr) and not any(a.fam or ()) else [None]
        r = self.record(d)
        if r is None:
            return c + [None]
        out = c + [tt.tm(r["name"]), tt.tm(r["vdatum"])]
        out += r["ellps"] or [tt.const(0)] * 2
        out += (r["enu"] or [tt.const(0)] * 3)
        return out

    def bodyvals(self, m):
        I = self.I
        m = I.resolve(m)
        if not isinstance(m, Obj):
            return [None]
        return [tt.tm(I.force(I.getattr(m, k))) for k in ("density", "gravity_constant")] + self.data(I.getattr(m, "dataset"))

    def all(self):
        """(values of all bodies and of the observers, error condition)"""
        ms, e = self.masses()
        o, e2 = self.observer()
        out = [None] if ms is None else [tt.const(len(ms))]
        for m in ms or []:
            out += self.bodyvals(m)
        out += self.data(self.I.getattr(o, "dataset")) if isinstance(o, Obj) else [None]
        return out, tt.orc(e, e2)

    def errname(self):
        v = self.I.resolve(self.excv)
        return None if v is None else self.I.exc_name(v)


def merge(his):
    """the configuration made of several, highest priority first"""
    his = [h for h in his if h is not None]
    top = his[0]
    if isinstance(top, dict):
        ks = []
        for h in his:
            if isinstance(h, dict):
                ks += [k for k in h if k not in ks]
        return {k: merge([h[k] if h[k] is not None else _NONE for h in his if isinstance(h, dict) and k in h]) for k in ks}
    if isinstance(top, list) and top and isinstance(top[0], dict):
        return [merge([h[i] for h in his if isinstance(h, list) and i < len(h)]) for i in range(len(top))]
    return None if top is _NONE else top


_NONE = object()

LEAVES = [("masses", 0, "density"), ("masses", 0, "gravity_constant"), ("masses", 0, "points"), ("masses", 0, "file_path"),
          ("masses", 0, "crs", "ref"), ("masses", 0, "crs", "name"), ("masses", 0, "crs", "semimajor_axis"),
          ("masses", 0, "crs", "semiminor_axis"), ("masses", 0, "crs", "longitude_origin"),
          ("masses", 0, "crs", "latitude_origin"), ("masses", 0, "crs", "altitude_origin"), ("masses", 0, "crs", "vdatum"),
          ("observers", "points"), ("observers", "file_path"), ("observers", "grid", "xstart_xend_xstep"),
          ("observers", "crs", "ref"), ("observers", "crs", "name"), ("observers", "crs", "longitude_origin"),
          ("observers", "crs", "latitude_origin"), ("observers", "crs", "altitude_origin")]


def leafval(path, s):
    k = path[-1]
    n = "cli user default".split().index(s)
    if k == "points":
        return points("".join(str(x)[0] for x in path) + s)
    if k == "file_path":
        return f"{s}.csv"
    if k == "ref":
        return ("ellps", "enu", "ecef")[n]
    if k == "name":
        return ("airy", "bessel", "grs80")[n]
    if k == "vdatum":
        return ("egm84", "egm96", "egm2008")[n]
    if k.startswith("xstart"):
        return [n, n + 2, 1]
    return S("_".join(str(x) for x in path) + s)


def put(d, path, v):
    """a configuration with one leaf set (missing levels created)"""
    k = path[0]
    if len(path) == 1:
        d[k] = v
        return d
    nxt = path[1]
    if isinstance(nxt, int):
        d.setdefault(k, [{}])
        put(d[k][0], path[2:], v)
    else:
        d.setdefault(k, {})
        put(d[k], path[1:], v)
    return d


def cut(d, path):
    for k in path[:-1]:
        d = d[k]
    if path[-1] == "points":
        d["points"] = None
    elif path[-1] == "file_path":
        d["points"] = None
    elif "start" in str(path[-1]):
        pass


def base(path):
    """a complete default configuration in which the leaf matters"""
    ref = "ellps"
    if "origin" in str(path[-1]):
        ref = "enu"
    k = dict(ref=ref, longitude_origin=S("L0"), latitude_origin=S("P0"), altitude_origin=S("H0"))
    d = whole("d", crs=k)
    if path[-1] in ("semimajor_axis", "semiminor_axis"):
        d["masses"][0]["crs"].update(semimajor_axis=S("adef"), semiminor_axis=S("bdef"))
    if path[-1] == "file_path":
        (d["masses"][0] if path[0] == "masses" else d["observers"])["points"] = None
    if path[0] == "observers" and path[1] == "grid":
        d["observers"]["points"] = None
    return d


def c19(ck):
    rule = "values read from the files together equal those read from one file holding the highest-priority value of each key"
    subsets = [("cli",), ("user",), ("cli", "user"), ("default",), ("cli", "user", "default"), ("cli", "default"), ("user", "default")]
    if not ck.thorough:
        subsets = [("cli",), ("user",), ("cli", "user")]
    for path in LEAVES:
        for sub in subsets:
            name = f"{'.'.join(map(str, path))} from {' and '.join(sub)}"

            def go():
                src = dict(default=base(path))
                for s in ("cli", "user"):
                    src[s] = put({}, path, leafval(path, s)) if s in sub else {}
                if "default" in sub:
                    put(src["default"], path, leafval(path, "default"))
                w = Conf(src, FILE)
                got, e = w.all()
                m = merge([src["cli"], src["user"], src["default"]])
                w2 = Conf(dict(default=m))
                want, e2 = w2.all()
                compare(ck, w, name, got + [e], want + [e2], rule, f"{GF}:setup", n=2)
                ck.saw(w.I)
            ck.guard(name, rule, go)

    def sources():
        for arg, what in ((None, "no file given"), ("", "an empty file name"), (FILE, "a file given")):
            w = Conf(dict(default=whole("d"), user=whole("u"), cli=whole("c")), arg)
            ms, e = w.masses()
            got = w.bodyvals(ms[0])[:1] if ms else [None]
            compare(ck, w, f"density with {what}", got, [S("rhoc0" if arg else "rhou0")], rule, f"{GF}:setup", e, n=2)
            w2 = Conf(dict(default=whole("d"), cli=whole("c")), arg)
            ms, e = w2.masses()
            got = w2.bodyvals(ms[0])[:1] if ms else [None]
            compare(ck, w2, f"density with {what} and no user file", got, [S("rhoc0" if arg else "rhod0")], rule, f"{GF}:setup", e, n=2)
            ev = [x for x in w.I.events if x["kind"] == "cfg_file"]
            fs = [w.I.libs.pathterm(x["file"]) for x in ev]
            ck.require(f"file read with {what}", fs == ([FILE] if arg else []), "the file named on the command line is the one loaded",
                       f"{GF}:setup", f"loads {fs}", [str(x) for x in fs if not isinstance(x, str)])
            apps = {str(x["app"]) for x in w.I.events if x["kind"] == "cfg_read"}
            mods = {str(x["modname"]) for x in w.I.events if x["kind"] == "cfg_default"}
            ck.require(f"user file of the application with {what}", apps == {"geec"},
                       "the user's file is the one of the application 'geec'", f"{GF}:_default_setup", f"application {sorted(apps)}")
            ck.require(f"package defaults with {what}", mods == {"geec.cfg"}, "the defaults are the package's own",
                       f"{GF}:_default_setup", f"defaults of {sorted(mods)}")
            ck.saw(w.I)
    ck.guard("sources", rule, sources)

    def later():
        # the same process has read the configuration before, from the same files or from others
        K = dict(ref="ellps")
        D, U, C = whole("d", 2), dict(masses=whole("u", 1, crs=K)["masses"]), dict(masses=whole("c", 3, crs=K)["masses"], observers=whole("c", crs=K)["observers"])
        D2, U2, C2 = whole("dd", 1, crs=K), dict(observers=whole("uu")["observers"]), whole("cc", 2)
        bad = whole("x")
        bad["masses"][0]["crs"]["ref"] = "polar"
        for src, arg in ((dict(default=D), None), (dict(default=D), ""), (dict(default=D, user=U), None), (dict(default=D, user=U, cli=C), FILE)):
            fresh = Conf(src, arg)
            want, e2 = fresh.all()
            for what, prev in (("an equal run", [(src, arg)]), ("a run with a file", [(dict(src, cli=C), FILE)]),
                               ("a run with another file", [(dict(src, cli=C2), "/u/other.yaml")]),
                               ("a run with another file of that name", [(dict(src, cli=C2), FILE)]),
                               ("a run without a file", [(src, None)]), ("a run with an empty file name", [(src, "")]),
                               ("a run with other user settings", [(dict(src, user=U2), None)]),
                               ("a run with other defaults and settings", [(dict(default=D2, user=U2, cli=C2), FILE)]),
                               ("a run that failed", [(dict(src, cli=bad), FILE)]),
                               ("several runs", [(dict(src, cli=C), FILE), (src, None), (dict(src, cli=C2), "/u/other.yaml")])):
                w = Conf(src, arg, prev=prev)
                got, e = w.all()
                compare(ck, w, f"{', '.join(src)} files, argument {arg!r}, after {what}", got + [e], want + [e2],
                        "the configuration is that of the files as they are, whatever was read before", f"{GF}:setup", n=2)
    ck.guard("earlier configurations", rule, later)

    def count():
        for nc, nu, nd in ((1, 2, 2), (2, 1, 1), (3, 0, 1), (0, 2, 1), (0, 0, 2), (2, 3, 1)):
            src = dict(default=whole("d", nd))
            if nc:
                src["cli"] = dict(masses=whole("c", nc)["masses"])
            if nu:
                src["user"] = dict(masses=whole("u", nu)["masses"])
            w = Conf(src, FILE)
            ms, e = w.masses()
            n, c = (nc, "c") if nc else (nu, "u") if nu else (nd, "d")
            got = [None] if ms is None else [tt.const(len(ms))] + [w.bodyvals(x)[0] for x in ms]
            compare(ck, w, f"bodies: {nc} in the given file, {nu} in the user's, {nd} in the default", got,
                    [tt.const(n)] + [S(f"rho{c}{q}") for q in range(n)],
                    "the bodies are those listed by the highest-priority file that lists any", f"{MF}:get_masses", e, n=2)
    ck.guard("number of bodies", rule, count)


def variants(s):
    return [s, s.upper(), s.capitalize(), s[:-1] + s[-1].upper()]


def c20(ck):
    rule = "the documented name selects the documented choice, in any letter case"
    full = dict(name="airy", longitude_origin=S("lon0"), latitude_origin=S("lat0"), altitude_origin=S("h0"), vdatum="egm96")

    def frame(crs, drop=(), who="masses"):
        d = whole("d", crs=dict(crs))
        for k in drop:
            del d["masses"][0]["crs"][k]
            del d["observers"]["crs"][k]
        w = Conf(dict(default=d))
        if who == "masses":
            ms, e = w.masses()
            x = w.I.getattr(ms[0], "dataset") if ms else None
        else:
            o, e = w.observer()
            x = w.I.getattr(o, "dataset") if isinstance(o, Obj) else None
        ck.saw(w.I)
        return w, x, e

    def rec(w, x, keys):
        r = w.record(x) if isinstance(w.I.resolve(x), Obj) else None
        if r is None:
            return [None]
        out = []
        for k in keys:
            v = r[k]
            out += [tt.tm(v)] if isinstance(v, str) else v if v else [None]
        return out

    for who, wf in (("masses", "bodies"), ("observers", "observers")):
        for ref in ("cart", "enu", "ellps", "ecef"):
            for v in variants(ref):
                def go():
                    w, x, e = frame(dict(full, ref=v), who=who)
                    want, keys = [tt.tm(ref)], ["name"]
                    if ref in ("enu", "ellps"):
                        keys += ["ellps", "vdatum"]
                        want += axes_of("airy") + [tt.tm("egm96")]
                    if ref == "enu":
                        keys += ["enu"]
                        want += [S(q) for q in ORG]
                    compare(ck, w, f"reference '{v}' of the {wf}", rec(w, x, keys), want, rule, f"{XF}:get_crs", e, n=2)
                ck.guard(f"reference {v} {wf}", rule, go)
        for vd in VDATUMS:
            for v in variants(vd.lower()):
                def go():
                    w, x, e = frame(dict(full, ref="ellps", vdatum=v), who=who)
                    compare(ck, w, f"vertical datum '{v}' of the {wf}", rec(w, x, ["vdatum"]), [tt.tm(vd.lower())], rule,
                            f"{XF}:read_vdatum", e, n=2)
                ck.guard(f"datum {v} {wf}", rule, go)
        for key, keys, want in (("ref", ["name"], [tt.tm("ellps")]), ("vdatum", ["vdatum"], [tt.tm("ellps")])):
            for how in ("empty", "missing"):
                def go():
                    c = dict(full, ref="ellps")
                    if how == "empty":
                        c[key] = None
                    w, x, e = frame(c, [key] if how == "missing" else [], who)
                    compare(ck, w, f"{key} {how}, {wf}", rec(w, x, keys), want, "the documented default applies", f"{XF}:read_{key}", e,
                            n=2)
                ck.guard(f"{key} {how} {wf}", rule, go)
        def go():
            w, x, e = frame(dict(full, ref="ellps", name=None), who=who)
            compare(ck, w, f"no ellipsoid given, {wf}", rec(w, x, ["ellps"]), axes_of(None), "the documented default applies",
                    f"{XF}:read_ellipsoid_parameters", e, n=2)
            for r in ("ellps", "enu"):
                w, x, e = frame(dict(full, ref=r, name=None, semimajor_axis=S("a"), semiminor_axis=S("b")), who=who)
                compare(ck, w, f"ellipsoid of {wf} in {r} given by its axes", rec(w, x, ["ellps"]), [S("a"), S("b")], rule,
                        f"{XF}:read_ellipsoid_parameters", e, n=2)
        ck.guard("ellipsoid " + wf, rule, go)
    for m in MODELS:
        def go():
            w, x, e = frame(dict(full, ref="ellps", name=m))
            compare(ck, w, f"ellipsoid name '{m}'", rec(w, x, ["ellps"]), axes_of(m), rule, f"{XF}:read_ellipsoid_parameters", e, n=2)
        ck.guard("ellipsoid " + m, rule, go)
    for key, bads in (("ref", ("", "geo", "wgs84", "cartesian", "ell", "ENU2", "egm96", " ellps", "enu ", "cart\n", "ce", "en u", "ellps,", "e")),
                      ("vdatum", ("", "egm", "egm2018", "wgs84", "ellipsoid", "enu", "egm9", " egm96", "egm84 ", "egm-96", "egm2008x", "96")),
                      ("name", ("nosuch", "WGS 84", "egm96"))):
        for b in bads:
            def go():
                w, x, e = frame(dict(full, **{"ref": "ellps", key: b}))
                ck.require(f"{key} '{b}' is refused", w.I.simp(e) is tt.TRUE, "an undocumented name raises a configuration error",
                           f"{XF}:read_{key}", "accepted" if e is tt.FALSE else f"raises when {tt.show(e)}", tt.taints(e))
                if w.I.simp(e) is tt.TRUE:
                    n = w.errname()
                    ck.require(f"{key} '{b}' is a value error", n == "confuse.ConfigValueError", "the error is the configuration's value error",
                               f"{XF}:read_{key}", f"raises {n}")
            ck.guard(f"{key} {b}", rule, go)
    for r in ("ellps", "enu"):
        for b in ("WGS84", "Airy", "GRS80", " wgs84", "wgs84 "):
            def go():
                w, x, e = frame(dict(full, ref=r, name=b))
                e = w.I.simp(e)
                n = w.errname() if e is tt.TRUE else None
                if e is tt.FALSE and b.strip().lower() in MODELS:
                    compare(ck, w, f"ellipsoid name '{b}' in {r}", rec(w, x, ["ellps"]), axes_of(b.strip().lower()),
                            "another spelling is refused, or selects that ellipsoid", f"{XF}:read_ellipsoid_parameters", e, n=2)
                else:
                    ck.require(f"ellipsoid name '{b}' in {r}: refused with a value error", n == "confuse.ConfigValueError",
                               "another spelling is refused with the configuration's value error, or selects that ellipsoid",
                               f"{XF}:read_ellipsoid_parameters", "accepted" if e is tt.FALSE else f"raises {n} when {tt.show(e)}", tt.taints(e))
            ck.guard(f"ellipsoid name {b}", rule, go)
    for key in ("longitude_origin", "latitude_origin", "altitude_origin"):
        for how in ("empty", "missing"):
            def go():
                c = dict(full, ref="enu")
                if how == "empty":
                    c[key] = None
                w, x, e = frame(c, [key] if how == "missing" else [])
                ck.require(f"local frame with {key} {how}", w.I.simp(e) is tt.TRUE, "an incomplete origin is an error, not a guess",
                           f"{XF}:read_enu_parameters", f"raises when {tt.show(e)}", tt.taints(e))
            ck.guard(f"{key} {how}", rule, go)


def ceil(x):
    return math.ceil(x)


GRIDS = [([0, 2, 1], [5, 8, 2], [1, 2, 1]), ([0, 1, 1], [0, 1, 1], [0, 1, 1]),
         ([Fraction(-21, 20), Fraction(1, 2), Fraction(1, 2)], [-3, 0, 1], [Fraction(1, 10), 2, 1]),
         ([0, 3, 2], [0, 4, 3], [-1, 1, 1])]


def c21(ck):
    rule = "coordinates come from the points, else the file, else the grid"

    def conf(**k):
        d = whole("d")
        d["masses"][0].update({q: v for q, v in k.items() if q != "grid"})
        d["observers"].update(k)
        return d

    def read(w, who):
        if who == "masses":
            ms, e = w.masses()
            x = w.I.getattr(ms[0], "dataset") if ms else None
        else:
            o, e = w.observer()
            x = w.I.getattr(o, "dataset") if isinstance(o, Obj) else None
        ck.saw(w.I)
        return x, e

    def isfloat(w, x, name):
        c = w.I.force(w.I.getattr(x, "coords")) if isinstance(w.I.resolve(x), Obj) else None
        d = getattr(c, "dt", None)
        ck.require(f"{name} are floating-point", d == "f8", "the coordinate array has a 64-bit floating-point type", f"{DF}:get_dataset",
                   f"element type {d}", () if isinstance(c, Arr) else ["coordinates"])

    csv = [tt.fn("csv", tt.tm("data.csv"), tt.tm(","), tt.tm("none"), tt.tm(""), tt.index("csv"), k) for k in range(3)]
    for who in ("masses", "observers"):
        wf = "bodies" if who == "masses" else "observers"

        def go():
            for fp, what in ((None, "only"), ("data.csv", "and a file"), ("", "and an empty file name")):
                w = Conf(dict(default=conf(points=points("P"), file_path=fp)))
                x, e = read(w, who)
                i = tt.index("P")
                compare(ck, w, f"points {what}, {wf}", w.coords(x), [tt.fn("XP", i, c) for c in range(3)], rule, f"{DF}:_read_coords", e)
                isfloat(w, x, f"points {what}, {wf},")
            lists = [("one point", [[S("p0"), S("p1"), S("p2")]]), ("the origin", [[0, 0, 0]]), ("two points", [[S(f"p{r}{c}") for c in range(3)] for r in range(2)]),
                     ("two equal points", [[1, 2, 3], [1, 2, 3]]), ("points in no order", [[3, 1, 2], [0, 5, 1], [3, 0, 2], [-1, 2, 9]])]
            for what, pts in lists:
                for fp in (None, "data.csv"):
                    w = Conf(dict(default=conf(points=pts, file_path=fp)))
                    x, e = read(w, who)
                    c = w.I.force(w.I.getattr(x, "coords")) if isinstance(w.I.resolve(x), Obj) else None
                    got = None
                    if isinstance(c, Arr) and not any(c.fam or ()):
                        got = [tt.const(k) for k in c.a.shape] + [tt.tm(v) for v in c.a.reshape(-1)]
                        if c.a.shape != (len(pts), 3):
                            got = got[:2] + [tt.const(0)] * (3 * len(pts))
                    want = [tt.const(len(pts)), tt.const(3)] + [tt.tm(v) for p in pts for v in p]
                    compare(ck, w, f"{what} given{' and a file' if fp else ''}, {wf}", got, want, rule, f"{DF}:_read_coords", e, n=2)
        ck.guard("points " + wf, rule, go)

        def go():
            for pts, what in ((None, "no points"), ([], "an empty list of points")):
                w = Conf(dict(default=conf(points=pts, file_path="data.csv")))
                x, e = read(w, who)
                compare(ck, w, f"a file and {what}, {wf}", w.coords(x), csv, rule, f"{DF}:_read_coords", e)
                isfloat(w, x, f"a file and {what}, {wf},")
                w = Conf(dict(default=conf(points=pts, file_path="data.csv")), missing=("data.csv",))
                x, e = read(w, who)
                n = w.errname() if w.I.simp(e) is tt.TRUE else None
                ck.require(f"a missing file and {what}, {wf}", n == "FileNotFoundError", "the missing file is reported",
                           f"{DF}:_read_coords", f"raises {n}", tt.taints(e))
        ck.guard("file " + wf, rule, go)

    def column(w, f):
        """the numbers of the file f"""
        p = tt.tm(f)
        i = next((v for k, v in w.I.libs.csvs.items() if k[0] is p), None)
        return [None] if i is None else [tt.fn("csv", p, tt.tm(","), tt.tm("none"), tt.tm(""), tt.index(i), k) for k in range(3)]

    def several():
        P = [[S(f"p{r}{c}") for c in range(3)] for r in range(2)]
        sets = [("files of one name in three folders", ["a/p.csv", "b/p.csv", "c/p.csv"]), ("files of one stem", ["p.csv", "p.txt", "p.dat"]),
                ("one file three times", ["p.csv"] * 3), ("files, one of them listed twice", ["p.csv", "q.csv", "p.csv"]),
                ("points beside files", ["p.csv", P, "q.csv"]), ("points, then a file", [P, P[:1], "q.csv"])]
        for what, srcs in sets:
            for prev in ((), ("earlier",)):
                for dt in ("cfg", "f8"):
                    def one():
                        d = whole("d", nb=2)
                        for x, f in zip(d["masses"] + [d["observers"]], srcs):
                            x.update(points=None if isinstance(f, str) else f, file_path=f if isinstance(f, str) else None)
                        w = Conf(dict(default=d), opts=dict(csvdt=dt), prev=[(dict(default=d), None)] if prev else ())
                        ms, e = w.masses()
                        o, e2 = w.observer()
                        got, want = [], []
                        for x, f in zip(list(ms or [None, None]) + [o], srcs):
                            x = w.I.resolve(x)
                            c = w.I.force(w.I.getattr(w.I.getattr(x, "dataset"), "coords")) if isinstance(x, Obj) else None
                            n = len(f) if isinstance(f, list) else 1
                            ok = isinstance(c, Arr) and c.a.shape == (n, 3)
                            want += column(w, f) if isinstance(f, str) else [tt.tm(v) for p in f for v in p]
                            got += [tt.tm(v) for v in c.a.reshape(-1)] if ok else [None] * (3 * n)
                        compare(ck, w, f"{what}{', read before' if prev else ''} ({dt})", got, want, "each body and the observers have the coordinates of "
                                "their own points or file", f"{DF}:_read_coords", tt.orc(e, e2), n=2)
                    ck.guard(what, rule, one)
    ck.guard("several data", rule, several)
    for pts in (None, []):
        for fp in (None, ""):
            for g in GRIDS:
                def go():
                    w = Conf(dict(default=conf(points=pts, file_path=fp, grid=gridconf(g))))
                    x, e = read(w, "observers")
                    c = w.I.force(w.I.getattr(x, "coords")) if isinstance(w.I.resolve(x), Obj) else None
                    name = f"grid {'; '.join(':'.join(str(float(q)) for q in r) for r in g)} (points {pts}, file {fp!r})"
                    want = sorted(itertools.product(*[[lo + st * k for k in range(ceil(Fraction(hi - lo) / st))] for lo, hi, st in g]))
                    t = tt.taints(e)
                    if not isinstance(c, Arr) or c.a.ndim != 2 or any(c.fam or ()):
                        ck.add(name, OPEN, rule, f"{DF}:_read_coords", "shape")
                        return
                    rows = [[tt.cv(tt.tm(v)) for v in r] for r in c.a]
                    if any(v is None for r in rows for v in r):
                        ck.add(name, OPEN, rule, f"{DF}:_read_coords", "coordinates not constant")
                        return
                    rows = sorted(tuple(Fraction(v) for v in r) for r in rows)
                    ck.require(name, rows == want and e is tt.FALSE, "the points are the products of start, start+step, ... below the end",
                               f"{DF}:_read_coords", f"{len(rows)} points instead of {len(want)}" if len(rows) != len(want) else
                               f"other points: {[tuple(map(float, r)) for r in rows[:3]]}" if e is tt.FALSE else "raises", t)
                    isfloat(w, x, name)
                ck.guard("grid", rule, go)

    def symbolic():
        g = [[S(c + q) for q in ("start", "end", "step")] for c in "xyz"]
        w = Conf(dict(default=conf(points=[], file_path="", grid=gridconf(g))))
        x, e = read(w, "observers")
        got = w.coords(x)
        want = None
        if got and all(t is not None for t in got):
            fam = [b for b in got[0].fs if b.op == "s" and str(b.args[0]).startswith("i_")]
            if len(fam) == 1:
                pr = [[q for q in walk(t) if q.op == "fn" and q.args[0] == "proj"] for t in got]
                if all(len(set(p)) == 1 for p in pr) and len({p[0] for p in pr}) == 3:
                    want = [tt.add(S(c + "start"), tt.mul(p[0], S(c + "step"))) for c, p in zip("xyz", pr)]
        name = "points of any grid"
        if want is None:
            ck.add(name, OPEN, rule, f"{DF}:_read_coords", "grid not recognised")
            return
        compare(ck, w, name, got, want, "each coordinate is its axis's start plus a multiple of its step", f"{DF}:_read_coords", e)
    ck.guard("any grid", rule, symbolic)

    def nothing():
        for pts, fp in ((None, None), ([], ""), ([], None), (None, "")):
            d = conf(points=pts, file_path=fp, grid=None)
            w = Conf(dict(default=d))
            x, e = read(w, "observers")
            ck.require(f"no coordinates at all (points {pts}, file {fp!r})", w.I.simp(e) is tt.TRUE, "an error is raised",
                       f"{DF}:_read_coords", f"raises when {tt.show(e)}", tt.taints(e))
            if w.I.simp(e) is tt.TRUE:
                ck.require(f"the error without coordinates (points {pts}, file {fp!r})", w.errname() == "TypeError",
                           "the error says that coordinates are missing", f"{DF}:_read_coords", f"raises {w.errname()}")
    ck.guard("no coordinates", rule, nothing)


def walk(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo += [a for a in x.args if isinstance(a, tt.T)]


# ------------------------------------------------------------ shipped files
def repo():
    return os.environ.get("GVA_SRC", "/repo")


def load_yaml(name):
    import yaml

    def conv(v):
        if isinstance(v, dict):
            return {k: conv(x) for k, x in v.items()}
        if isinstance(v, list):
            return [conv(x) for x in v]
        if isinstance(v, float):
            return Fraction(repr(v))
        return v
    with open(os.path.join(repo(), "geec", "cfg", name), encoding="utf-8") as f:
        return conv(yaml.safe_load(f))


def c22(ck):
    rule = "no read of a missing or ill-typed key"
    names = ["config_default.yaml", "config_template.yaml", "config_test.yaml"]

    def usable(name, src, arg):
        w = Conf(src, arg)
        I = w.I
        _, es = w.call(I.get("geec.config:show"), [w.cfg])
        es = tt.orc(w.e0, es)
        en = w.errname()
        ck.require(f"{name}: printed", I.simp(es) is tt.FALSE, rule, f"{GF}:show", f"raises {en} when {tt.show(es)}", tt.taints(es))
        ms, e = w.masses()
        en = w.errname()
        compare(ck, w, f"{name}: bodies", [], [], rule + f" ({en})", f"{MF}:get_masses", e, n=2)
        o, e2 = w.observer()
        en = w.errname()
        compare(ck, w, f"{name}: observers", [], [], rule + f" ({en})", f"{OF}:get_observer", e2, n=2)
        ck.saw(I)
        return w, ms, o
    for name in names:
        if not os.path.exists(os.path.join(repo(), "geec", "cfg", name)):
            ck.add(name, BAD if name != "config_test.yaml" else OPEN, "the file is shipped", "geec/cfg/" + name, "missing")
            continue

        def go():
            y = load_yaml(name)
            usable(name + " alone", dict(default=y), None)
            d = load_yaml("config_default.yaml")
            w, ms, o = usable(name + " given on the command line", dict(default=d, cli=y), FILE)
            if name == "config_template.yaml":
                b = y["masses"][0]
                got = w.bodyvals(ms[0])[:2] if ms and len(ms) == len(y["masses"]) else [None]
                compare(ck, w, "template: density and constant", got, [tt.tm(b["density"]), tt.tm(b["gravity_constant"])],
                        "the template's own values are used", f"{MF}:get_masses", n=1)
                c = w.I.force(w.I.getattr(w.I.getattr(ms[0], "dataset"), "coords")) if ms else None
                rows = [[tt.cv(tt.tm(v)) for v in r] for r in c.a] if isinstance(c, Arr) else None
                ck.require("template: points", rows == [[Fraction(v) for v in r] for r in b["points"]] if rows else False,
                           "the template's own points are used", f"{DF}:_read_coords", f"{rows}", () if rows else ["coordinates"])
        ck.guard(name, rule, go)

    # a file with only the documented keys of a body and the observers is enough
    def go():
        for ref in ("cart", "ecef", "ellps", "enu"):
            k = dict(ref=ref, longitude_origin=S("L0"), latitude_origin=S("P0"), altitude_origin=S("H0"))
            d = whole("d", crs=k)
            del d["observers"]["crs"]["vdatum"]
            usable(f"documented keys, {ref}", dict(default=load_yaml("config_default.yaml"), cli=d), FILE)
            e = whole("d", crs=k, nb=3)
            usable(f"three bodies, {ref}", dict(default=load_yaml("config_default.yaml"), cli=e), FILE)
    ck.guard("documented keys", rule, go)


def c26(ck):
    rule = "one write: the packaged template, to the asked path with suffix .yaml"
    cases = [("", "config_template.yaml", False), ("out/my.yaml", "out/my.yaml", False), ("my", "my.yaml", False),
             ("a/my.txt", "a/my.yaml", False), ("~/c.yaml", "~/c.yaml", True), ("/abs/dir/x.yml", "/abs/dir/x.yaml", False)]
    for arg, want, tilde in cases:
        def go():
            w = World(config=dict(sources=dict(default=whole("d"), user=whole("u"))))
            I = w.I
            I.load("geec.cli")
            mark = len(I.events)
            e = w.command("config", *(["--output", arg] if arg else []))
            ev = I.effects(mark)
            name = f"output {arg!r}"
            t = tt.taints(e)
            ck.require(f"{name}: no error", I.simp(e) is tt.FALSE, "the command succeeds", f"{CLI}:config", f"raises when {tt.show(e)}", t)
            if I.simp(e) is not tt.FALSE:
                return
            ck.require(f"{name}: one file written", len(ev) == 1 and not ev[0]["path"] and ev[0].get("how") != "append", rule, f"{CLI}:config",
                       f"{len(ev)} writes: {[(x['kind'], str(x.get('file'))) for x in ev]}")
            if len(ev) != 1:
                return
            c = ev[0]["file"]
            parts = [q for q in c[1]]
            good = parts == [want] and (not tilde or c[2])
            ck.require(f"{name}: path", good, rule, f"{CLI}:config", f"writes {parts}", [str(q) for q in parts if not isinstance(q, str)])
            x = tt.tm(ev[0]["data"]) if not isinstance(ev[0]["data"], LibObj) else None
            with open(os.path.join(repo(), "geec", "cfg", "config_template.yaml"), encoding="utf-8") as h:
                text = h.read()
            pk = ("path", (tt.fn("str:pkgpath", tt.tm("geec.cfg")), "config_template.yaml"), False)
            alts = [tt.tm(text), tt.fn("str:content", I.libs.pathterm(pk)),
                    tt.fn("str:content", I.libs.pathterm(("path", (tt.fn("str:pkg", "geec.cfg"), "config_template.yaml"), False)))]
            ck.require(f"{name}: content", x in alts, rule, f"{CLI}:config", f"writes {tt.show(x)[:200] if x is not None else '?'}",
                       () if x is None else tt.taints(x))
            ck.saw(I)
        ck.guard(f"output {arg!r}", rule, go)
