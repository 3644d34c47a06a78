"""Model of pymap3d (frame conversions as uninterpreted functions) and pygeodesy (geoid heights)."""
import numpy as np

from . import terms as tt
from .terms import T, FALSE, TRUE, tm
from .values import MISSING, Arr, LDict, Lib, LibObj, LList, Obj, PhiV, is_scalar, oarr

MODELS = ("maupertuis plessis everest1830 everest1830m everest1967 airy bessel clarke1866 clarke1878 clarke1860 "
          "helmert hayford international1924 krassovsky1940 wgs66 australian international1967 grs67 sa1969 wgs72 "
          "grs80 wgs84 wgs84_mean iers1989 pz90.11 iers2003 gsk2011 mercury venus moon mars jupyter io saturn uranus "
          "neptune pluto").split()


def known_model(n):
    if isinstance(n, str):
        return tt.const(n in MODELS)
    if isinstance(n, T) and n.op == "c":
        return tt.const(n.args[1] in MODELS)
    if isinstance(n, T) and tt.sort(n) == tt.STR:
        return tt.fn("known:model", n)
    return FALSE


def axis(which, name):
    return tt.fn("model_" + which, name)


def same_source(ts, prefix, extra):
    """arguments X if ts are the components of prefix(X, extra)"""
    heads = [t for t in ts if isinstance(t, T) and t.op == "fn" and t.args[0].startswith(prefix + ".")]
    if len(heads) != len(ts):
        return None
    comps = [t.args[0].rpartition(".")[2] for t in ts]
    if comps != list(COMP[prefix]):
        return None
    a = {t.args[1] for t in ts}
    if len(a) != 1:
        return None
    a = a.pop()
    n = len(extra)
    if tuple(a[len(a) - n:]) != tuple(tm(x) for x in extra):
        return None
    return a[:len(a) - n]


COMP = {"geodetic2ecef": ("x", "y", "z"), "ecef2geodetic": ("lat", "lon", "alt"), "ecef2enu": ("e", "n", "u"),
        "enu2ecef": ("x", "y", "z")}
INVERSE = {"geodetic2ecef": "ecef2geodetic", "enu2ecef": "ecef2enu"}


class Geo:
    LIBDC_FIELDS = [("model",), ("name",), ("semimajor_axis",), ("semiminor_axis",)]
    ELLNAMES = ("pymap3d.Ellipsoid", "pymap3d.ellipsoid.Ellipsoid")

    def geo_call(self, name, args, kw):
        I = self.I
        last = name.split(".")[-1]
        if name.startswith("pymap3d"):
            if last == "Ellipsoid":
                return self.ell_new(args, kw)
            if last == "from_name":
                n = args[0]
                a = self.gi_models(LibObj("models"), n)
                return self.ell_new([self.dict_get(a, "a"), self.dict_get(a, "b")],
                                    dict(name=self.dict_get(a, "name"), model=n))
            if last in ("geodetic2ecef", "ecef2geodetic"):
                return self.conv(last, 3, args, kw)
            if last in ("ecef2enu", "enu2ecef", "geodetic2enu", "enu2geodetic"):
                return self.conv(last, 6, args, kw)
            return MISSING
        if name in ("pygeodesy.GeoidKarney", "pygeodesy.geoids.GeoidKarney"):
            path = args[0] if args else kw["egm_pgm"]
            # a part of the grid, or another interpolation, is another geoid
            given = dict(zip(("crop", "datum", "kind", "name", "smooth"), args[1:]))
            given.update((k, v) for k, v in kw.items() if k != "egm_pgm")
            other = sorted(k for k, v in given.items() if k in ("crop", "kind", "smooth") and
                           I.resolve(v) not in ((None, 3) if k == "kind" else (None,)))
            return LibObj("geoid", name=self.geoid_name(path) + "".join(f" {k}={given[k]}" for k in other),
                          file=self.canonpath(path))
        if name.startswith("pygeodesy") and last == "LatLon":
            a = list(args)
            for k in ("latlonh", "lat", "lon"):
                if k in kw:
                    a.append(kw[k])
            if len(args) < 2:
                return I.opq("LatLon")
            return LibObj("latlon", lat=args[0], lon=args[1])
        return MISSING

    def geoid_name(self, p):
        p = self.canonpath(p)
        if isinstance(p, tuple) and all(isinstance(x, str) for x in p[1]) and not p[1][0].startswith("/"):
            return "./" + "/".join(p[1])        # not the packaged file
        for x in reversed(p[1] if isinstance(p, tuple) else ()):
            if isinstance(x, str):
                return x.rsplit("/", 1)[-1].split("-")[0]
        return "?"

    # ----------------------------------------------------------- ellipsoids
    def ell_new(self, args, kw):
        vals = dict(zip(("semimajor_axis", "semiminor_axis", "name", "model"), args))
        vals.update(kw)
        vals.setdefault("name", "")
        vals.setdefault("model", "")
        if "semimajor_axis" not in vals or "semiminor_axis" not in vals:
            self.I.raise_("TypeError")
            return self.I.opq("ellipsoid")
        if vals["semimajor_axis"] is None or vals["semiminor_axis"] is None:
            self.I.raise_("TypeError")
        return LibObj("ellipsoid", self.I.ctx, **vals)

    def isa_ellipsoid(self, v, n):
        return n in self.ELLNAMES

    def eq_ellipsoid(self, a, b):
        I = self.I
        if not (isinstance(b, LibObj) and b.kind == "ellipsoid"):
            return FALSE
        r = TRUE
        for f in self.LIBDC_FIELDS:
            r = tt.andc(r, I.truth(I.equal(a.d[f[0]], b.d[f[0]])))
        return r

    def base_init(self, o, lib, args, kw):
        I = self.I
        if lib.name in self.ELLNAMES:
            e = self.ell_new(args, kw)
            if isinstance(e, LibObj):
                for f in self.LIBDC_FIELDS:
                    I.setcell(o.attrs, f[0], e.d[f[0]])
            return None
        if lib.name.replace("builtins.", "") in ("object", "abc.ABC", "typing.Protocol", "typing.Generic") or \
                lib.name.startswith("typing."):
            return None
        from .interp import BUILTIN_EXC
        if lib.name.replace("builtins.", "") in BUILTIN_EXC:
            I.setcell(o.attrs, "args", tuple(args))
            return None
        I.setcell(o.attrs, "%base", I.opq("base class " + lib.name, *args))
        return None

    def inherited(self, o, lib, name):
        I = self.I
        if lib.name in self.ELLNAMES:
            if name == "models":
                return LibObj("models")
            if name == "from_name":
                return Lib(lib.name + ".from_name")
            a, b = o.attrs.get("semimajor_axis"), o.attrs.get("semiminor_axis")
            if name == "flattening":
                return tt.div(tt.sub(a, b), a)
            if name == "eccentricity":
                f = tt.div(tt.sub(a, b), a)
                return tt.sqrt(tt.sub(tt.mul(2, f), tt.mul(f, f)))
            if name == "thirdflattening":
                return tt.div(tt.sub(a, b), tt.add(a, b))
            return MISSING
        if lib.name.replace("builtins.", "") in ("object", "abc.ABC"):
            return MISSING
        if name in ("__name__", "__doc__"):
            return o.cls.name
        return MISSING

    def gi_models(self, o, n):
        I = self.I
        n = I.resolve(n)
        if isinstance(n, PhiV):
            return I.dist(n, lambda x: self.gi_models(o, x))
        if isinstance(n, Obj) and n.cls.strenum:
            n = n.attrs["value"]
        I.raise_("KeyError", tt.notc(known_model(n)))
        d = LDict(I.ctx)
        if isinstance(n, str) or isinstance(n, T):
            self.dict_set(d, "a", axis("a", n))
            self.dict_set(d, "b", axis("b", n))
            self.dict_set(d, "name", tt.fn("str:model_name", n))
        return d

    def in_models(self, o, n):
        return self.I.simp(known_model(n)) if isinstance(n, (str, T)) else \
            tt.phi(n.c, self.in_models(o, n.a), self.in_models(o, n.b)) if isinstance(n, PhiV) else FALSE

    def m_models(self, o, name, args, kw):
        I = self.I
        if name == "keys":
            return o
        if name == "get":
            c = self.in_models(o, args[0])
            return I.branch(c, lambda: self.gi_models(o, args[0]), lambda: args[1] if len(args) > 1 else None)
        return MISSING

    def seg_models(self, o):
        return [("one", n) for n in MODELS]

    def str_models(self, o):
        return "models"

    # functional enumeration of the models
    def gi_modelenum(self, o, n):
        self.I.raise_("KeyError", tt.notc(self.in_models(o, self.I.resolve(n))))
        return LibObj("modelmember", name=n, value=self.gi_models(o, n))

    def g_modelenum(self, o, name):
        if name in ("__members__", "_member_names_", "_member_map_"):
            return LibObj("models")
        if name in MODELS:
            return self.gi_modelenum(o, name)
        return MISSING

    def in_modelenum(self, o, n):
        return FALSE

    def seg_modelenum(self, o):
        return [("one", LibObj("modelmember", name=n)) for n in MODELS]

    # ---------------------------------------------------------- conversions
    def ellargs(self, e):
        I = self.I
        e = I.resolve(e)
        if e is None:
            return [axis("a", "wgs84"), axis("b", "wgs84")]
        src = e.d if isinstance(e, LibObj) and e.kind == "ellipsoid" else e.attrs if isinstance(e, Obj) else None
        if src is None or "semimajor_axis" not in src:
            return None
        r = [I.force(src["semimajor_axis"]), I.force(src["semiminor_axis"])]
        return r if all(is_scalar(x) for x in r) else None

    def nary(self, f, vals):
        """f over broadcast arrays -> list of arrays/scalars (one per component)"""
        I = self.I
        xs = []
        for v in vals:
            x = self.asarr(v)
            if x is None:
                return None
            xs.append(x)
        fam = I.famalign(xs)
        if fam is None:
            return None
        try:
            bs = np.broadcast_arrays(*[x.a for x in xs])
        except ValueError:
            I.raise_("ValueError")
            return None
        shape = bs[0].shape
        outs = None
        for idx in np.ndindex(*shape):
            r = f(*[b[idx] for b in bs])
            if outs is None:
                outs = [np.empty(shape, dtype=object) for _ in r]
            for o, t in zip(outs, r):
                o[idx] = t
        if outs is None:
            return None
        if not shape:
            return [o[()] for o in outs]
        return [I.arr(o, fam, "f8") for o in outs]

    def conv(self, name, n, args, kw):
        I = self.I
        names = {"geodetic2ecef": ("lat", "lon", "alt"), "ecef2geodetic": ("x", "y", "z"),
                 "ecef2enu": ("x", "y", "z", "lat0", "lon0", "h0"),
                 "enu2ecef": ("e1", "n1", "u1", "lat0", "lon0", "h0"),
                 "geodetic2enu": ("lat", "lon", "h", "lat0", "lon0", "h0"),
                 "enu2geodetic": ("e", "n", "u", "lat0", "lon0", "h0")}[name] + ("ell", "deg")
        vals = dict(zip(names, args))
        for k, v in kw.items():
            if k in vals or k not in names:
                I.raise_("TypeError", what="arguments")
                return I.opq("bad call " + name)
            vals[k] = v
        if len(args) > len(names) or any(k not in vals for k in names[:n]):
            I.raise_("TypeError", what="arguments")
            return I.opq("bad call " + name)
        for k in names[:n]:
            if I.resolve(vals[k]) is None:
                I.raise_("TypeError")
                return I.opq("None argument of " + name)
        ell = I.resolve(vals.get("ell"))
        if isinstance(ell, PhiV):
            return I.dist(ell, lambda e: self.conv(name, n, [vals[k] for k in names[:n]],
                                                   dict(ell=e, deg=vals.get("deg", True))))
        ab = self.ellargs(ell)
        deg = I.simp(I.truth(vals.get("deg", True)))
        if ab is None or deg not in (TRUE, FALSE):
            return I.opq(name, *[vals[k] for k in names[:n]])
        unit = "" if deg is TRUE else "r"
        self.stepfail("convert", name, *ab)
        f = lambda *q: self.conv1(name, list(q), ab, unit)
        r = self.nary(f, [vals[k] for k in names[:n]])
        if r is None:
            return I.opq(name, *[vals[k] for k in names[:n]])
        return tuple(r)

    def conv1(self, name, q, ab, unit):
        if name == "geodetic2enu":
            x = self.conv1("geodetic2ecef", q[:3], ab, unit)
            return self.conv1("ecef2enu", x + q[3:], ab, unit)
        if name == "enu2geodetic":
            x = self.conv1("enu2ecef", q, ab, unit)
            return self.conv1("ecef2geodetic", x, ab, unit)
        pre = name + unit if unit else name
        if name in ("ecef2enu", "enu2ecef"):
            extra = [tm(x) for x in q[3:]] + list(ab)
        else:
            extra = list(ab)
        if unit:
            extra = extra + [tm("rad")]
        inv = INVERSE.get(name)
        if inv is not None:
            s = same_source([tm(x) for x in q[:3]], inv, extra)
            if s is not None:
                return list(s)
        return [tt.fn(f"{name}.{c}", *[tm(x) for x in q[:3]], *extra) for c in COMP[name]]

    def stepfail(self, what, *key):
        if self.I.iofaults:
            self.I.raise_(self.I.faultkind.get(what, "ValueError"), tt.fn("fails:" + what, *[tm(x) for x in key]))

    # -------------------------------------------------------------- geoids
    def call_geoid(self, o, *args, **kw):
        I = self.I
        self.stepfail("geoid", o.d["name"])
        g = lambda la, lo: tt.fn("geoid", o.d["name"], la, lo)
        if len(args) == 1:
            v = I.resolve(args[0])
            if isinstance(v, LibObj) and v.kind == "latlon":
                return g(v.d["lat"], v.d["lon"])
            if v is None or is_scalar(v):
                return I.opq("geoid height", v)
            return self.mapseq(lambda p: self.call_geoid(o, p), v)
        return LList([self.call_geoid(o, p) for p in args], I.ctx)

    def m_geoid_height(self, o, lats, lons, **kw):
        I = self.I
        a, b = I.resolve(lats), I.resolve(lons)
        self.stepfail("geoid", o.d["name"])
        r = self.nary(lambda x, y: [tt.fn("geoid", o.d["name"], x, y)], [a, b])
        return r[0] if r else I.opq("geoid height", a, b)

    def m_geoid_close(self, o):
        return None
