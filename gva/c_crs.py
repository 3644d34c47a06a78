"""Checks of frames, heights, longitudes and ellipsoids (crs, dataset, mass, observer)."""
from . import cmdline
from . import terms as tt
from .evalt import Env, P, fld, value
from .interp import Interp
from .report import BAD, OK, OPEN, Gone, ev
from .values import Arr, LibObj, LList, Obj, PhiV, Splice, oarr

KINDS = ("cart", "ecef", "ellps", "enu")
CF, DF = "geec/crs.py", "geec/dataset.py"
A84, B84 = tt.fn("model_a", "wgs84"), tt.fn("model_b", "wgs84")
ORG = ("lon0", "lat0", "h0")


class World:
    """the frame classes, with a set of points whose number and coordinates are unknown"""

    def __init__(self, **kw):
        self.I = I = Interp(**kw)
        self.crsmod = I.load("geec.crs")
        self.D = I.get("geec.dataset:Dataset")
        self.CRS = I.get("geec.crs:CRS")
        self.ENU = I.get("geec.crs:ENU")
        self.Ell = I.get("geec.crs:Ellipsoid")
        self.names = I.get("geec.crs:CRSEnum")
        self.vdat = I.get("geec.crs:VDatumEnum")
        self.clear()

    def clear(self):
        I = self.I
        I.setcell(I.exc, "c", tt.FALSE)
        I.setcell(I.exc, "v", None)

    def call(self, f, args=(), kw=None):
        """(value, condition under which it raises)"""
        I = self.I
        self.clear()
        r = I.call(f, list(args), dict(kw or {}))
        e = I.exc["c"]
        self.excv = I.exc["v"]
        self.clear()
        return I.resolve(r), e

    def command(self, *tokens):
        """condition under which 'geec TOKENS' ends with an error (the logger's set up left out)"""
        I = self.I
        f = cmdline.command(I, tokens[0])
        if f is None:
            raise cmdline.Usage(f"no command {tokens[0]!r}")
        self.clear()
        cmdline.call_command(I, f, tokens[1:])
        self.excv = I.exc["v"]
        e = cmdline.failure(I, I.exc["c"], self.excv)
        self.clear()
        return e

    def earlier(self, prev, run):
        """what the same process did before: [(configuration files at that time, what was done)]"""
        for k, (src, what) in enumerate(prev):
            self.I.config["sources"].update({f"prev{k}:{s}": v for s, v in src.items()})
        for k, (_, what) in enumerate(prev):
            self.I.config["alias"] = f"prev{k}"
            run(what)
        self.I.config["alias"] = None

    def member(self, enum, name):
        return self.I.resolve(self.I.getattr(enum, name))

    def points(self, name="N", cols=3):
        i = tt.index(name)
        return self.I.arr(oarr([[tt.fn("X" + name, i, c) for c in range(cols)]]), (i, None), "f8")

    def ell(self, which):
        """which: None (default) | a model name | ("ab", suffix) | ("ab", suffix, the axis that is WGS84's)"""
        if which is None:
            r, e = self.call(self.Ell)
        elif isinstance(which, str):
            r, e = self.call(self.Ell, [], dict(name=which))
        else:
            a, b = axes_of(which)
            r, e = self.call(self.Ell, [], dict(semimajor_axis=a, semiminor_axis=b))
        return r

    def crs(self, kind, ell=None, vdatum="ELLPS"):
        kw = dict(name=self.member(self.names, kind.upper()))
        if kind in ("ellps", "enu"):
            kw["ellps"] = self.ell(ell)
            kw["vdatum"] = self.member(self.vdat, vdatum)
        elif ell:
            kw["ellps"] = self.ell(ell)
        if kind == "enu" or kind == "ecef" and ell:
            o = [tt.sym(x) for x in ORG]
            kw["enu"], _ = self.call(self.ENU, [], dict(longitude_origin=o[0], latitude_origin=o[1], altitude_origin=o[2],
                                                        ellps=kw["ellps"]))
        r, e = self.call(self.CRS, [], kw)
        if not isinstance(r, Obj):
            raise Gone("CRS")
        return r

    def dataset(self, kind, ell=None, vdatum="ELLPS", pts=None):
        r, e = self.call(self.D, [], dict(coords=pts or self.points(), crs=self.crs(kind, ell, vdatum)))
        if not isinstance(r, Obj):
            raise Gone("Dataset")
        return r

    def do(self, d, op, *args):
        return self.call(self.I.getattr(d, op), args)[1]

    def coords(self, d):
        """coordinates of the generic point"""
        I = self.I
        a = I.force(I.getattr(d, "coords"))
        return row(I, a)

    def record(self, d):
        """(frame name, ellipsoid axes or None, origin or None, vertical datum)"""
        I = self.I
        return self.record_of(I.resolve(I.getattr(d, "crs")))

    def record_of(self, c):
        I = self.I
        if isinstance(c, PhiV):
            x, y = self.record_of(I.resolve(c.a)), self.record_of(I.resolve(c.b))
            return None if x is None or y is None else merged(c.c, x, y)
        if not isinstance(c, Obj):
            return None
        e, en = I.resolve(I.getattr(c, "ellps")), I.resolve(I.getattr(c, "enu"))
        out = dict(name=self.choice(I.getattr(c, "name")), vdatum=self.choice(I.getattr(c, "vdatum")), ellps=self.axes(e),
                   none=[self.isnone(e), self.isnone(en)])
        return {**out, **self.origin(en)}

    def origin(self, en):
        I = self.I
        if isinstance(en, PhiV):
            return merged(en.c, self.origin(I.resolve(en.a)), self.origin(I.resolve(en.b)))
        if not isinstance(en, Obj):
            return dict(enu=None, enuellps=None)
        return dict(enu=[tt.tm(I.force(I.getattr(en, k))) for k in ("longitude_origin", "latitude_origin", "altitude_origin")],
                    enuellps=self.axes(I.resolve(I.getattr(en, "ellps"))))

    def choice(self, v):
        v = self.I.resolve(v)
        if isinstance(v, PhiV):
            return merged(v.c, self.choice(v.a), self.choice(v.b))
        return v.attrs.get("value") if isinstance(v, Obj) else v

    def isnone(self, v):
        if isinstance(v, PhiV):
            return tt.phi(v.c, self.isnone(self.I.resolve(v.a)), self.isnone(self.I.resolve(v.b)))
        return tt.tm(v is None)

    def axes(self, e):
        if e is None:
            return None
        if isinstance(e, PhiV):
            return merged(e.c, self.axes(self.I.resolve(e.a)), self.axes(self.I.resolve(e.b)))
        r = self.I.libs.ellargs(e)
        return None if r is None else [tt.tm(x) for x in r]


def merged(c, x, y):
    """one of two records, by a condition: where only one has a part, that part is a value like no other"""
    if isinstance(x, dict):
        return {k: merged(c, x.get(k), y.get(k)) for k in x.keys() | y.keys()}
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        n = len(x if isinstance(x, (list, tuple)) else y)
        x, y = [v if isinstance(v, (list, tuple)) else [ABSENT] * n for v in (x, y)]
        return [merged(c, a, b) for a, b in zip(x, y)]
    if x is None and y is None:
        return None
    return tt.phi(c, *[tt.tm(ABSENT if v is None else v) for v in (x, y)])


ABSENT = tt.sym("absent")


def row(I, a):
    """the generic row of a coordinate array, as three nodes; None if it is not one"""
    if isinstance(a, Arr) and a.a.ndim == 2 and a.a.shape == (1, 3) and a.fam and a.fam[0] is not None and a.fam[1] is None:
        return [tt.tm(x) for x in a.a.reshape(-1)]
    return None


# --------------------------------------------------------------------- oracle
def x0(name="N"):
    i = tt.index(name)
    return [tt.fn("X" + name, i, c) for c in range(3)]


def axes_of(ell):
    if ell is None:
        return [A84, B84]
    if isinstance(ell, str):
        return [tt.fn("model_a", ell), tt.fn("model_b", ell)]
    share = ell[2] if len(ell) > 2 else ""
    return [A84 if share == "a" else tt.sym("a" + ell[1]), B84 if share == "b" else tt.sym("b" + ell[1])]


def fns(name, comps, *args):
    return [tt.fn(f"{name}.{c}", *args) for c in comps]


def o_ecef(kind, p, ab, org=ORG):
    lon, lat, h = p
    if kind == "ellps":
        return fns("geodetic2ecef", "xyz", lat, lon, h, *ab)
    if kind == "enu":
        o = [tt.sym(x) if isinstance(x, str) else x for x in org]
        return fns("enu2ecef", "xyz", *p, o[1], o[0], o[2], *ab)
    return list(p)


def o_geod(p):
    la, lo, h = fns("ecef2geodetic", ("lat", "lon", "alt"), *p, A84, B84)
    return [lo, la, h]


def o_wgs84(kind, p, ab, org=ORG):
    if kind == "cart" or kind == "ellps" and ab == [A84, B84]:
        return list(p)
    return o_geod(o_ecef(kind, p, ab, org))


def o_enu(kind, p, ab, org):
    if kind in ("cart", "enu"):
        return list(p)
    x = o_ecef(kind, p, ab)
    return fns("ecef2enu", "enu", *x, org[1], org[0], org[2], A84, B84)


def compare(ck, w, name, got, want, rule, where, exc=tt.FALSE, n=None, **env):
    """the graphs agree, and no exception is raised, for every draw and every index"""
    least = getattr(w, "least", {})         # collections that hold more than the usual few: the corners of a body
    plain = got is not None and exc is tt.FALSE and all(x is tt.tm(y) for x, y in zip(got, want))

    def draws():
        for d in range(n or ck.draws(4, 24)) if plain else range(max(n or 0, ck.draws(24, 64))):
            def one(d=d):
                # mostly three elements of every collection, sometimes one: tests of a whole collection fall either way
                K = 1 if d > 3 and d % 2 else 3
                e = Env(ck.seed * 1000 + d, K=K, Ks=least, **{k: v(d) if callable(v) else v for k, v in env.items()})
                r, h0 = value(e, exc)
                if got is None or any(x is None for x in got):
                    if r is True and not h0:
                        return "an exception", "a value", h0, f"draw {d}"
                    return "no such value", "a value", {"?shape"}, f"draw {d}"
                out, hits = [[], []], set(h0)
                fams = sorted({b for t in list(got) + list(want) for b in tt.tm(t).fs if isindex(b)}, key=str)
                for k in range(K if fams else 1):
                    for b in fams:
                        e.bind[b] = k
                    for q, ts in enumerate((got, want)):
                        v, h = ev(e, ts)
                        out[q] += v
                        hits |= h
                return (r, out[0]), (False, out[1]), hits, f"draw {d}"
            yield one
        if got is None or any(x is None for x in got):
            return
        ts = [tt.tm(t) for t in list(got) + list(want) + [exc]]
        for s in sorted({s for t in ts for n in tt.nodes(t) if n.op in ("gt", "eq") and tt.EPS in n.fs
                         for s in n.fs if s.op == "s" and str(s.args[0]).startswith(("rho", "Gc"))}, key=str):
            def tiny(s=s):
                small = {s: tt.mul(tt.EPS, s)}
                e = Env(ck.seed * 1000 + 700, K=3, Ks=least, **{k: v(0) if callable(v) else v for k, v in env.items()})
                e.bind[tt.EPS] = 1
                for b in {b for t in ts for b in t.fs if isindex(b)}:
                    e.bind[b] = 1
                x, h1 = ev(e, [tt.tm(t) for t in got] + [exc])
                y, h2 = ev(e, [tt.subst(tt.tm(t), small) for t in got] + [tt.subst(tt.tm(exc), small)])
                return y, x, h1 | h2, f"a tiny {s.args[0]}"
            yield tiny
        for leaf, c in specials(ts):
            def special(leaf=leaf, c=c):
                e = Env(ck.seed * 1000 + 600, K=3, Ks=least, over={leaf: c}, **{k: v(0) if callable(v) else v for k, v in env.items()})
                for b in {b for t in ts for b in t.fs if isindex(b)}:
                    e.bind[b] = 1
                r, h0 = value(e, exc)
                x, h1 = ev(e, got)
                y, h2 = ev(e, want)
                return (r, x), (False, y), h0 | h1 | h2, f"{tt.show(leaf)} = {c}"
            yield special
        for fam, m in sizes(list(got) + list(want) + [exc]):
            if m < least.get(fam, 0):
                continue

            def many(fam=fam, m=m):
                e = Env(ck.seed * 1000 + 500, K=3, Ks={**least, fam: m}, **{k: v(0) if callable(v) else v for k, v in env.items()})
                r, h0 = value(e, exc)
                out, hits = [[], []], set(h0)
                fams = sorted({b for t in list(got) + list(want) for b in tt.tm(t).fs if isindex(b)}, key=str)
                for k in sorted({0, 1, 2, m // 2, m - 2, m - 1}):
                    for b in fams:
                        e.bind[b] = k if b.args[3] == fam else min(k, 2)
                    for q, ts in enumerate((got, want)):
                        v, h = ev(e, ts)
                        out[q] += v
                        hits |= h
                return (r, out[0]), (False, out[1]), hits, f"{m} of {fam}"
            yield many
    return ck.same(name, draws(), rule, where)


def specials(ts):
    """numbers a coordinate is compared with: [(coordinate, number)]"""
    out = set()
    for n in {n for t in ts for n in tt.nodes(t) if n.op == "eq"}:
        for x, c in (n.args, n.args[::-1]):
            if c.op == "c" and not isinstance(c.args[1], (bool, str)) and \
                    x.op == "fn" and str(x.args[0]).startswith("X") and tt.EPS not in x.fs:
                out.add((x, fld(c.args[1])))
    return sorted(out, key=lambda q: (tt.show(q[0]), q[1]))[:12]


def sizes(ts):
    """sizes of collections around every number a size or a position is compared with: [(collection, size)]"""
    out = set()
    for t in {n for x in ts for n in tt.nodes(tt.tm(x)) if n.op in ("gt", "eq")}:
        ns = list(tt.nodes(t))
        fams = {n.args[1][0].args[1] for n in ns if n.op == "fn" and n.args[0] == "len"} | {n.args[3] for n in ns if isindex(n)}
        cs = {abs(int(n.args[1])) for n in ns if n.op == "c" and not isinstance(n.args[1], (bool, str))}
        if fams and len(ns) < 30:
            out |= {(f, c + q) for f in fams for c in cs if 2 < c < 200000 for q in (0, 1, 2)}
    return sorted(out)[:24]


def isindex(b):
    return b.op == "s" and isinstance(b.args[0], str) and b.args[0].startswith("i_")


NEW = [tt.sym(x) for x in ("lonN", "latN", "hN")]
CASES = [("cart", None), ("ecef", None), ("ellps", None), ("ellps", "airy"), ("ellps", ("ab", "")), ("enu", None),
         ("enu", "airy"), ("enu", ("ab", "")), ("ecef", "airy")]
# ellipsoids that share one axis with WGS84
SHARE = [(k, ("ab", "", x)) for k in ("ellps", "enu") for x in "ab"]


def label(kind, ell):
    if kind in ("cart", "ecef"):
        return kind + (" whose record has an unused ellipsoid and origin" if ell else "")
    return f"{kind} on " + ("WGS84" if ell is None else ell if isinstance(ell, str) else "an ellipsoid given by its axes" + (
        f", one of them WGS84's ({ell[2]})" if len(ell) > 2 else ""))


def run_op(w, kind, ell, op, vdatum="ELLPS", pts=None):
    d = w.dataset(kind, ell, vdatum, pts)
    e = w.do(d, op, *(NEW if op == "to_enu" else []))
    return d, e


def expected(op, kind, p, ab):
    return dict(to_ecef=lambda: o_ecef(kind, p, ab), to_wgs84=lambda: o_wgs84(kind, p, ab),
                to_enu=lambda: o_enu(kind, p, ab, NEW))[op]()


def c13(ck):
    rule = "graph of the converted point equals the conversion of the point with the frame's own ellipsoid and origin"
    for kind, ell in CASES + SHARE:
        for op in ("to_ecef", "to_wgs84", "to_enu"):
            def go():
                w = World()
                d, e = run_op(w, kind, ell, op)
                compare(ck, w, f"{op[3:]} from {label(kind, ell)}", w.coords(d), expected(op, kind, x0(), axes_of(ell)), rule,
                        f"{DF}:Dataset.{op}", e)
                ck.saw(w.I)
            ck.guard(f"{op} from {label(kind, ell)}", rule, go)

    def names():
        for kind, op in (("ellps", None), ("ecef", "to_wgs84"), ("enu", "to_wgs84")):
            w = World()
            if op:
                d, _ = run_op(w, kind, None, op)
            else:
                d = w.dataset(kind, None)
            got = []
            for n in ("lon", "lat", "alt"):
                a = w.I.force(w.I.getattr(d, n))
                got.append(tt.tm(a.a.reshape(-1)[0]) if isinstance(a, Arr) and a.a.size == 1 and a.fam and a.fam[0] is not None else None)
            want = expected(op, kind, x0(), axes_of(None)) if op else x0()
            compare(ck, w, f"longitude, latitude, altitude of {kind} data", got, want, "each name gives its own column", f"{DF}:Dataset.lon, lat, alt")
    ck.guard("named columns", rule, names)


OPS = ("to_lon180", "to_ellipsoid_height", "to_ecef", "to_wgs84", "to_enu")
VDATUMS = {"ELLPS": None, "EGM84": "egm84", "EGM96": "egm96", "EGM2008": "egm2008"}


def o_lon180(kind, p):
    if kind != "ellps":
        return list(p)
    return [tt.phi(tt.gt(p[0], 180), tt.sub(p[0], 360), p[0]), p[1], p[2]]


def o_height(kind, p, vdatum):
    g = VDATUMS[vdatum]
    if kind != "ellps" or g is None:
        return list(p)
    return [p[0], p[1], tt.add(p[2], tt.fn("geoid", g, p[1], p[0]))]


def wrapped(w, d, how):
    """the same data held by a body, an observer, or a list of bodies: (call, data after)"""
    I = w.I
    if how == "mass":
        o, _ = w.call(I.get("geec.mass:Mass"), [], dict(density=tt.sym("rho"), gravity_constant=tt.sym("Gc"), dataset=d))
        return lambda op, a: w.call(I.getattr(o, op), a)[1], o
    if how == "observer":
        o, _ = w.call(I.get("geec.observer:Observer"), [], dict(dataset=d))
        return lambda op, a: w.call(I.getattr(o, op), a)[1], o
    os_ = []
    for q, x in enumerate(d):
        o, _ = w.call(I.get("geec.mass:Mass"), [], dict(density=tt.sym(f"rho{q}"), gravity_constant=tt.sym("Gc"), dataset=x))
        os_.append(o)
    lst = LList(os_, I.ctx, "list")
    return lambda op, a: w.call(I.get("geec.mass:" + op), [lst] + list(a))[1], os_


def o_step(op, st):
    """oracle of one operation on (kind, point, axes, origin, vertical datum)"""
    kind, p, ab, org, vd = st
    if op == "to_lon180":
        return kind, o_lon180(kind, p), ab, org, vd
    if op == "to_ellipsoid_height":
        return kind, o_height(kind, p, vd), ab, org, "ELLPS" if kind == "ellps" else vd
    if op == "to_ecef":
        if kind in ("ellps", "enu"):
            return "ecef", o_ecef(kind, p, ab, org), None, None, vd
        return st
    if op == "to_wgs84":
        if kind == "cart":
            return st
        return "ellps", o_wgs84(kind, p, ab, org), [A84, B84], None, vd
    if kind in ("cart", "enu"):
        return st
    return "enu", o_enu(kind, p, ab, NEW), [A84, B84], NEW, vd


def start(kind, ell, vd="ELLPS"):
    return kind, x0(), axes_of(ell) if kind in ("ellps", "enu") else None, [tt.sym(x) for x in ORG], vd


def c14(ck):
    rule = "the operation does not raise for this frame, and its graph is the frame's conversion"
    for kind, ell in CASES:
        for op in OPS:
            args = NEW if op == "to_enu" else []
            want = o_step(op, start(kind, ell, "EGM96"))[1]
            for how in ("mass", "observer", "list"):
                def go():
                    w = World()
                    if how == "list":
                        d = [w.dataset(kind, ell, "EGM96"), w.dataset("cart", None, pts=w.points("M"))]
                    else:
                        d = w.dataset(kind, ell, "EGM96")
                    f, o = wrapped(w, d, how)
                    e = f(op, args)
                    who = {"mass": "a body", "observer": "the observers", "list": "several bodies"}[how]
                    where = f"geec/{'observer' if how == 'observer' else 'mass'}.py:{op}"
                    if how == "list":
                        got = w.coords(w.I.getattr(o[0], "dataset"))
                        got2 = w.coords(w.I.getattr(o[1], "dataset"))
                        compare(ck, w, f"{op[3:]} of {who}, one in {label(kind, ell)}, one Cartesian",
                                (got or [None]) + (got2 or [None]), want + x0("M"), rule, where, e, n=2)
                        for what, v in (("densities of zero", 0), ("densities of one", 1)):
                            compare(ck, w, f"{op[3:]} of {who}, one in {label(kind, ell)}, one Cartesian, {what}",
                                    (got or [None]) + (got2 or [None]), want + x0("M"), rule, where, e, n=2,
                                    syms={tt.sym("rho0"): v, tt.sym("rho1"): v})
                    else:
                        compare(ck, w, f"{op[3:]} of {who} in {label(kind, ell)}",
                                w.coords(w.I.getattr(o, "dataset")), want, rule, where, e, n=2)
                    ck.saw(w.I)
                ck.guard(f"{op} of {how} in {label(kind, ell)}", rule, go)
            if kind == "cart":
                for n in (0, 1, 3):
                    def go():
                        w = World()
                        f, o = wrapped(w, [w.dataset("ecef", pts=w.points(f"N{q}")) for q in range(n)], "list")
                        e = f(op, args)
                        got, want = [], []
                        for q in range(n):
                            got += w.coords(w.I.getattr(o[q], "dataset")) or [None]
                            want += o_step(op, ("ecef", x0(f"N{q}"), None, None, "ELLPS"))[1]
                        compare(ck, w, f"{op[3:]} of a list of {n} bodies", got, want, rule, f"geec/mass.py:{op}", e, n=2)
                    ck.guard(f"{op} of {n} bodies", rule, go)
                def go():
                    w = World()
                    d, e = run_op(w, kind, ell, op)
                    compare(ck, w, f"{op[3:]} leaves Cartesian coordinates alone", w.coords(d), x0(), rule,
                            f"{DF}:Dataset.{op}", e)
                ck.guard(f"{op} of cart", rule, go)


def c16(ck):
    rule = "height graph is the given height plus the datum's geoid height at the point's latitude and longitude"
    for vd in VDATUMS:
        for kind, ell in CASES + SHARE:
            if kind in ("cart", "ecef") and vd != "ELLPS":
                continue

            def go():
                w = World()
                d, e = run_op(w, kind, ell, "to_ellipsoid_height", vd)
                st = o_step("to_ellipsoid_height", start(kind, ell, vd))
                compare(ck, w, f"{label(kind, ell)}, datum {vd.lower()}", w.coords(d), st[1], rule,
                        f"{CF}:ellipsoid_height", e)
                e2 = w.do(d, "to_ellipsoid_height")
                compare(ck, w, f"{label(kind, ell)}, datum {vd.lower()}: a second conversion adds nothing", w.coords(d), st[1],
                        "the record says the heights are ellipsoidal afterwards", f"{CF}:ellipsoid_height", tt.orc(e, e2))
                ck.saw(w.I)
            ck.guard(f"heights of {label(kind, ell)} in {vd}", rule, go)


def c17(ck):
    rule = "longitude graph is the longitude, less 360 above 180; latitude and height unchanged"
    for kind, ell in CASES:
        def go():
            w = World()
            d, e = run_op(w, kind, ell, "to_lon180")
            want = o_lon180(kind, x0())
            compare(ck, w, f"longitudes of {label(kind, ell)}", w.coords(d), want, rule, f"{CF}:wrap180", e, n=ck.draws(8, 48))
            edge = {(k, 0): v for k, v in ((0, 180), (1, 0), (2, 360))}
            compare(ck, w, f"longitudes 180, 0 and 360 of {label(kind, ell)}", w.coords(d), want, rule, f"{CF}:wrap180", e, n=2,
                    tables={"XN": edge})
            ck.saw(w.I)
        ck.guard(f"longitudes of {label(kind, ell)}", rule, go)


def c15(ck):
    rule = "axes graphs: the named model's if a name is given, else the two axes if both are given, else WGS84's"
    nm = tt.sym("name", tt.STR)
    a, b = tt.sym("a"), tt.sym("b")
    cases = [("nothing given", {}, (A84, B84), {}),
             ("a name", dict(name="airy"), (tt.fn("model_a", "airy"), tt.fn("model_b", "airy")), {}),
             ("a name and axes", dict(name="airy", semimajor_axis=a, semiminor_axis=b),
              (tt.fn("model_a", "airy"), tt.fn("model_b", "airy")), {}),
             ("axes", dict(name=None, semimajor_axis=a, semiminor_axis=b), (a, b), {}),
             ("axes and an empty name", dict(name="", semimajor_axis=a, semiminor_axis=b), (a, b), {}),
             ("the larger axis only", dict(semimajor_axis=a), (A84, B84), {}),
             ("the smaller axis only", dict(semiminor_axis=b), (A84, B84), {})]
    for what, kw, want, _ in cases:
        def go():
            w = World()
            r, e = w.call(w.Ell, [], kw)
            compare(ck, w, f"ellipsoid from {what}", w.axes(r), list(want), rule, f"{CF}:Ellipsoid", e)
            ck.saw(w.I)
        ck.guard("ellipsoid from " + what, rule, go)
    for m in LIB_MODELS:
        def go():
            w = World()
            r, e = w.call(w.Ell, [], dict(name=m))
            compare(ck, w, f"ellipsoid named {m}", w.axes(r), [tt.fn("model_a", m), tt.fn("model_b", m)], rule,
                    f"{CF}:Ellipsoid", e, n=2)
        ck.guard("ellipsoid named " + m, rule, go)


from .libgeo import MODELS as LIB_MODELS  # noqa: E402


def c18(ck):
    rule = "the record names the frame, ellipsoid and origin the coordinates are in"
    for kind, ell in CASES + SHARE:
        for op in ("to_ecef", "to_wgs84", "to_enu"):
            def go():
                w = World()
                d, e = run_op(w, kind, ell, op)
                r = w.record(d)
                st = o_step(op, start(kind, ell))
                name = f"record after {op[3:]} from {label(kind, ell)}"
                where = f"{DF}:Dataset.{op}"
                if r is None:
                    ck.add(name, OPEN, rule, where, "no record")
                    return
                none = {"cart": None, "ecef": (True, True), "ellps": (False, True), "enu": (False, False)}[st[0]]
                if kind == "ecef" and ell and st[0] == "ecef":
                    none = None  # already there: the record is left as it was
                if none is not None:
                    compare(ck, w, f"{name}: ellipsoid and origin named where there is one", r["none"], [tt.tm(x) for x in none],
                            "the record has an ellipsoid in geodetic and local frames only, and an origin in local frames only", where, e)
                got, want = [tt.tm(r["name"])], [tt.tm(st[0])]
                if st[0] in ("ellps", "enu"):
                    got += r["ellps"] or [None, None]
                    want += st[2]
                if st[0] == "enu":
                    got += (r["enu"] or [None] * 3) + (r.get("enuellps") or [None] * 2)
                    want += list(st[3]) + st[2]
                compare(ck, w, name, got, want, rule, where, e)
                ck.saw(w.I)
            ck.guard(f"record {op} {label(kind, ell)}", rule, go)
    # conversions one after the other compose
    ops = ("to_ecef", "to_wgs84", "to_enu")
    seqs = [(x, y) for x in ops for y in ops]
    seqs += [(x, y, z) for x in ops for y in ops for z in ops] if ck.thorough else \
        [("to_enu", "to_ecef", "to_wgs84"), ("to_wgs84", "to_enu", "to_ecef"), ("to_ecef", "to_wgs84", "to_enu"),
         ("to_enu", "to_wgs84", "to_enu")]
    for kind, ell in CASES + SHARE[:1]:
        for seq in seqs:
            def go():
                w = World()
                d = w.dataset(kind, ell)
                st = start(kind, ell)
                e = tt.FALSE
                for op in seq:
                    e = tt.orc(e, w.do(d, op, *(NEW if op == "to_enu" else [])))
                    st = o_step(op, st)
                compare(ck, w, f"{label(kind, ell)}: " + ", then ".join(x[3:] for x in seq), w.coords(d), st[1],
                        "later conversions start from the frame the earlier ones ended in", f"{DF}:Dataset", e, n=2)
            ck.guard(f"{label(kind, ell)} {seq}", rule, go)
    # two data sets that went through the same conversion are still two
    for kind, ell in CASES[:8]:
        for a, b in [(a, b) for a in (None,) + ops for b in ops]:
            def go():
                w = World()
                d, q = w.dataset(kind, ell), w.dataset(kind, ell)
                e, st = tt.FALSE, start(kind, ell)
                name = f"{label(kind, ell)}: another data set " + (f"also converted to {a[3:]} and " if a else "") + f"taken to {b[3:]}"
                if a:
                    for x in (d, q):
                        e = tt.orc(e, w.do(x, a, *(NEW if a == "to_enu" else [])))
                    st = o_step(a, st)
                was = w.record(d)
                e = tt.orc(e, w.do(q, b, *(NEW if b == "to_enu" else [])))
                now = w.record(d)
                flat = lambda r: None if r is None else [tt.tm(v) for k in sorted(r) for v in (r[k] if isinstance(r[k], (list, tuple)) else [ABSENT if r[k] is None else r[k]])]
                was, now = flat(was), flat(now)
                compare(ck, w, name + ": the coordinates", w.coords(d), st[1], "converting one data set leaves every other one as it is", f"{DF}:Dataset", e, n=2)
                if was is None or now is None:
                    ck.add(name, OPEN, "converting one data set leaves every other one as it is", f"{DF}:Dataset", "no record")
                else:
                    compare(ck, w, name + ": the record", now, was, "converting one data set leaves every other one as it is", f"{DF}:Dataset", e, n=2)
            ck.guard(f"{label(kind, ell)} {a} {b} of two", "one of two data sets", go)
    # data read from equal options, or from the same file, have records and coordinates of their own
    from .c_cfg import Conf, whole
    from .c_cli import spec
    rule2 = "converting one body changes neither the record nor the coordinates of another body or of the observers"
    for kind, ell in [("cart", None), ("ecef", None), ("ellps", None), ("ellps", "airy"), ("enu", None), ("enu", "airy")]:
        for op, dt in [(x, y) for x in OPS for y in ("cfg", "f8")]:
            def go():
                what = f"{label(kind, ell)}{', fractional numbers' if dt == 'f8' else ''}"
                c = spec(kind, ell, "EGM96" if kind in ("ellps", "enu") else None)
                d = whole("d", nb=2, crs=c)
                for x in d["masses"] + [d["observers"]]:
                    x.update(points=None, file_path="data.csv")
                w = Conf(dict(default=d), opts=dict(csvdt=dt))
                ms, e1 = w.masses()
                o, e2 = w.observer()
                if not ms or len(ms) != 2 or not isinstance(o, Obj):
                    ck.add(f"{op[3:]} of one of several data in {what}", OPEN, rule2, f"{CF}:get_crs", "no bodies")
                    return
                ds = [w.I.getattr(x, "dataset") for x in list(ms) + [o]]
                before = [w.data(x) for x in ds]
                _, e3 = w.call(w.I.getattr(ms[0], op), NEW if op == "to_enu" else [])
                after = [w.data(x) for x in ds]
                compare(ck, w, f"{op[3:]} of one of several data in {what}", after[1] + after[2], before[1] + before[2],
                        rule2, f"{CF}:get_crs", tt.orc(tt.orc(e1, e2), e3), n=2)
                _, e4 = w.call(w.I.getattr(o, op), NEW if op == "to_enu" else [])
                compare(ck, w, f"{op[3:]} of a body, then of the observers in {what}", w.data(ds[2]), after[0],
                        "equal data end up equal", f"{CF}:get_crs", tt.orc(tt.orc(e1, e2), e4), n=2)
            ck.guard(f"{op} of one of several in {label(kind, ell)}", rule2, go)
    # a record with contradicting ellipsoids is refused
    def go():
        w = World()
        I = w.I
        enu, _ = w.call(w.ENU, [], dict(longitude_origin=tt.sym("lon0"), latitude_origin=tt.sym("lat0"),
                                        altitude_origin=tt.sym("h0"), ellps=w.ell("airy")))
        _, e = w.call(w.CRS, [], dict(name=w.member(w.names, "ENU"), ellps=w.ell("bessel"), enu=enu))
        ck.require("a local frame on another ellipsoid than its record is refused", e is tt.TRUE, "the constructor raises",
                   f"{CF}:CRS", f"accepted (raises when {tt.show(e)})", tt.taints(e) if e is not tt.FALSE else ())
    ck.guard("contradicting ellipsoids", rule, go)
