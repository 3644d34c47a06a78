"""Checks of the command line run, from the configuration to the written table."""
from . import cmdline
from . import terms as tt
from .c_cfg import FILE, S, crsconf, families, filenames, gridconf, whole
from .c_crs import CASES, NEW, SHARE, VDATUMS, World, axes_of, compare, label, o_ecef, o_step, o_wgs84, row
from .evalt import Env, P, value
from .poly import STUBS, stub_gravity
from .report import BAD, OK, OPEN, Gone
from .values import Arr, LibObj, LList, Obj, Splice, oarr

CLI, API = "geec/cli.py", "geec/api.py"


def pts(nm, *outer):
    i = tt.index(nm)
    return LList([Splice(i, [LList([tt.fn("X" + nm, *outer, i, c) for c in range(3)])], None)])


def spec(kind, ell=None, vd=None, n=""):
    d = crsconf(ref=kind, vdatum=None if vd is None else vd.lower())
    if isinstance(ell, str):
        d["name"] = ell
    elif ell is not None:
        a, b = axes_of(ell)
        d.update(semimajor_axis=a, semiminor_axis=b)
    if kind == "enu":
        d.update(longitude_origin=S("lon0" + n), latitude_origin=S("lat0" + n), altitude_origin=S("h0" + n))
    return d


def org(n):
    return [S("lon0" + n), S("lat0" + n), S("h0" + n)]


def x0(nm, *outer):
    i = tt.index(nm)
    return [tt.fn("X" + nm, *outer, i, c) for c in range(3)]


def conf(bodies, obs, z=""):
    """bodies, obs: (kind, ellipsoid, datum)"""
    ms = [dict(points=pts(f"m{q}{z}"), file_path=None, density=S(f"rho{q}{z}"), gravity_constant=S(f"Gc{q}{z}"),
               crs=spec(*b, n=f"m{q}{z}")) for q, b in enumerate(bodies)]
    return dict(masses=ms, observers=dict(points=pts("obs" + z), file_path=None, grid=gridconf(), crs=spec(*obs, n="obs" + z)))


def histories(bodies, obs, output="o.csv"):
    """[(what, commands run before)] of a run of the configuration file in each of several states"""
    C, E, N = ("cart", None, None), ("ellps", "airy", "EGM96"), ("enu", "bessel", None)
    oth = [x for x in (C, ("ellps", "airy", None), ("enu", "bessel", None)) if x[0] != obs[0]]
    z = conf(bodies, obs, "Z")
    bad = conf(bodies, obs, "Z")
    bad["masses"][-1]["crs"]["ref"] = "polar"
    here = conf(bodies, obs)
    file = conf([E, C], oth[0], "Y")
    return [("an equal run", [(dict(default=here), ("run", output))]),
            ("the run with gradients", [(dict(default=here), ("run", "--gradient", output))]),
            ("runs of other data", [(dict(default=z), ("run", "--gradient", output)), (dict(default=conf([N] * 3, oth[0], "Y")), ("run", output))]),
            ("a run in another frame", [(dict(default=conf([E], oth[1], "Z")), ("run", "--gradient", "z.csv"))]),
            ("a run with a configuration file", [(dict(default=here, cli=file), ("run", "--gradient", "--config", FILE, output))]),
            ("a run that failed", [(dict(default=bad), ("run", output))]),
            ("a template written", [(dict(default=here), ("config", "--output", "t.yaml"))])]


def manybodies(kind, ell, vd, obs):
    j = tt.index("bodies")
    m = dict(points=pts("mm", j), file_path=None, density=tt.fn("rho", j), gravity_constant=tt.fn("Gc", j), crs=spec(kind, ell, vd, "mm"))
    return dict(masses=LList([Splice(j, [m], None)]),
                observers=dict(points=pts("obs"), file_path=None, grid=gridconf(), crs=spec(*obs, n="obs")))


def masses(d):
    """the entries of the list of bodies"""
    ms = (d or {}).get("masses")
    for m in ms.items if isinstance(ms, LList) else ms if isinstance(ms, list) else ():
        yield from m.items if isinstance(m, Splice) else (m,)


class Cli(World):
    def __init__(self, sources, prev=(), solid=True, **kw):
        """prev: commands run before in the same process, [(configuration files, words of the command)];
        solid: every body has at least four points"""
        super().__init__(config=dict(sources=dict(sources)), stubs=kw.pop("stubs", STUBS), **kw)
        al = [sources] + [s for s, _ in prev]
        for i in families(al):
            self.I.push(tt.gt(tt.famlen(i), 0))
        if solid:
            # points that span a body
            for i in families([m.get("points") for c in al for d in c.values() for m in masses(d)]):
                self.least = {**getattr(self, "least", {}), i.args[3]: 5}
                self.I.push(tt.gt(tt.famlen(i), 3))
                self.I.push(tt.notc(tt.gt(4, tt.famlen(i))))
        for f in filenames(al):
            self.I.push(tt.fn("isfile", f))
        self.base = tuple(self.I.facts)
        self.earlier(prev, lambda tokens: self.command(*tokens))

    def run(self, output="out.csv", usercfg="", gradient=False):
        self.mark = len(self.I.events)
        self.e = self.command("run", *(["--config", usercfg] if usercfg else []), *(["--gradient"] if gradient else []), output)
        return self.e

    def writes(self):
        return self.I.effects(self.mark)

    def cond(self, ev):
        """condition under which an effect happens, beyond the assumptions"""
        r = tt.TRUE
        for c in ev["path"]:
            if c not in self.base:
                r = tt.andc(r, c)
        return r

    def needed(self, ev):
        """condition under which a directory is made when it is missing"""
        p = self.I.libs.pathterm(ev["file"])
        gone = [tt.notc(tt.fn(n, p)) for n in ("isfile", "cond:isdir")]
        return self.cond(dict(ev, path=[c for c in ev["path"] if c not in gone]))

    def guarded(self, ev):
        """made only when missing"""
        return len(ev["path"]) > len([c for c in ev["path"] if c in self.base])

    def needed_free(self, ev):
        """the directory is not made in some case where it is missing"""
        return self.needed(ev) is not tt.TRUE

    def table(self):
        """(data array, columns) of the only table written; None if there is none"""
        w = [x for x in self.writes() if x["kind"] == "write" and x.get("how") in ("csv", "savetxt")]
        if len(w) != 1:
            return None
        return w[0]

    def row(self, n=12):
        t = self.table()
        if t is None:
            return None
        a = self.I.force(t["data"])
        if isinstance(a, Arr) and a.a.shape == (1, n) and a.fam and a.fam[0] is not None:
            return [tt.tm(x) for x in a.a.reshape(-1)]
        return None


def bodykey(nm, b, *outer):
    """the body the frame operations make of the points of nm"""
    kind, ell, vd = b
    st = (kind, x0(nm, *outer), axes_of(ell) if kind in ("ellps", "enu") else None, org(nm), vd or "ELLPS")
    for op in ("to_lon180", "to_ellipsoid_height", "to_ecef"):
        st = o_step(op, st)
    return tt.summ(tt.index(nm), tt.fn("pts", *st[1]))


def station(obs):
    kind, ell, _ = obs
    return o_ecef(kind, x0("obs"), axes_of(ell) if kind in ("ellps", "enu") else None, org("obs"))


def fields(key, ob, rho, Gc, grad):
    m = tt.mul(rho, Gc)
    g = [tt.mul(m, tt.fn("polyG", key, *ob, c)) for c in range(3)]
    t = [tt.mul(m, tt.fn("polyT", key, *ob, a, b)) if grad else tt.const(0) for a, b in
         ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))]
    return g + t


def total(bodies, obs, grad):
    out = [tt.const(0)] * 9
    ob = station(obs)
    for q, b in enumerate(bodies):
        f = fields(bodykey(f"m{q}", b), ob, S(f"rho{q}"), S(f"Gc{q}"), grad)
        out = [tt.add(x, y) for x, y in zip(out, f)]
    return out


# special values of the densities and constants
SPECIAL = [("equal densities", ["rho"], lambda q: 2670), ("equal densities and constants", ["rho", "Gc"], lambda q: 5),
           ("densities of opposite signs", ["rho"], lambda q: (300, -300 % P)[q % 2]),
           ("a density of zero", ["rho"], lambda q: (0, 7, 0)[q % 3]), ("a constant of zero", ["Gc"], lambda q: (7, 0, 9)[q % 3]),
           ("densities and constants of one", ["rho", "Gc"], lambda q: 1)]


def c23(ck):
    rule = "graph of the written fields is the sum over bodies of density times constant times the body's own field"
    for n in (1, 2, 3, 4) if ck.thorough else (1, 2, 3):
        for grad in (False, True):
            def go():
                bs = [("cart", None, None)] * n
                w = Cli(dict(default=conf(bs, ("cart", None, None))))
                e = w.run(gradient=grad)
                r = w.row()
                want = total(bs, ("cart", None, None), grad)
                compare(ck, w, f"{n} bodies, gradient {grad}", r[3:] if r else None, want, rule, f"{CLI}:run", e)
                for what, ks, v in SPECIAL:
                    same = {S(f"{k}{q}"): v(q) for k in ks for q in range(n)}
                    compare(ck, w, f"{n} bodies, gradient {grad}, {what}", r[3:] if r else None, want, rule, f"{CLI}:run", e, n=2, syms=same)
                ck.saw(w.I)
            ck.guard(f"{n} bodies", rule, go)
    def given():
        # densities and constants given as numbers
        o = ("cart", None, None)
        for rs, gs in (((300, 2670, 1000), (7, 7, 7)), ((2670, 2670, 5), (3, 9, 3)), ((0, 1000, -300), (2, 0, 2)), ((1, 2), (5, 4)),
                       ((2670.5, 1, 30), (6.67408e-11, 6.67e-11, 6.6e-11))):
            bs = [o] * len(rs)
            d = conf(bs, o)
            for m, x, y in zip(d["masses"], rs, gs):
                m.update(density=float(x), gravity_constant=float(y))
            for grad in (False, True):
                w = Cli(dict(default=d))
                e = w.run(gradient=grad)
                r = w.row()
                want = [tt.tm(0)] * 9
                for q, b in enumerate(bs):
                    want = [tt.add(x, y) for x, y in zip(want, fields(bodykey(f"m{q}", b), station(o), tt.const(float(rs[q])),
                                                                      tt.const(float(gs[q])), grad))]
                compare(ck, w, f"densities {rs}, constants {gs}, gradient {grad}", r[3:] if r else None, want,
                        rule, f"{CLI}:run", e, n=2)
    ck.guard("given numbers", rule, given)

    def dozen():
        bs = [("cart", None, None), ("ellps", "airy", "EGM96"), ("enu", None, None)] * 4
        w = Cli(dict(default=conf(bs, ("cart", None, None))))
        e = w.run(gradient=True)
        r = w.row()
        compare(ck, w, "twelve bodies", r[3:] if r else None, total(bs, ("cart", None, None), True), rule, f"{CLI}:run", e, n=2)
    ck.guard("twelve bodies", rule, dozen)
    for b in (("cart", None, None), ("ellps", "airy", "EGM96")):
        def go():
            obs = ("cart", None, None)
            w = Cli(dict(default=manybodies(*b, obs)))
            e = w.run(gradient=True)
            r = w.row()
            j = tt.index("bodies")
            f = fields(bodykey("mm", b, j), station(obs), tt.fn("rho", j), tt.fn("Gc", j), True)
            compare(ck, w, f"any number of bodies in {label(*b[:2])}", r[3:] if r else None, [tt.summ(j, x) for x in f], rule,
                    f"{CLI}:run", e)
            for what, ks, v in SPECIAL:
                tab = {k: {(q,): v(q) for q in range(8)} for k in ks}
                compare(ck, w, f"any number of bodies in {label(*b[:2])}, {what}", r[3:] if r else None, [tt.summ(j, x) for x in f], rule,
                        f"{CLI}:run", e, n=2, tables=tab)
        ck.guard("any number of bodies", rule, go)

    def later():
        bs, o = [("cart", None, None), ("ellps", "airy", "EGM96")], ("cart", None, None)
        for grad in (False, True):
            for what, prev in histories(bs, o):
                w = Cli(dict(default=conf(bs, o)), prev=prev)
                e = w.run(gradient=grad)
                r = w.row()
                compare(ck, w, f"gradient {grad}, after {what}", r[3:] if r else None, total(bs, o, grad), rule, f"{CLI}:run", e, n=2)
    ck.guard("earlier runs", rule, later)

    def wild():
        # a field that is not a number, or infinite, is written as it is (or the run fails): never as another value
        bs, o = [("cart", None, None)], ("cart", None, None)
        for grad in (False, True):
            w = Cli(dict(default=conf(bs, o)), opts=dict(nonfinite=("polyG", "polyT")))
            w.run(gradient=grad)
            r = w.row()
            compare(ck, w, f"fields that are not finite, gradient {grad}", r[3:] if r else None, total(bs, o, grad), rule, f"{CLI}:run")
    ck.guard("fields that are not finite", rule, wild)

    def shared():
        # the same numbers for two bodies, and one body listed twice
        d = conf([("cart", None, None)] * 2, ("cart", None, None))
        d["masses"][1] = dict(d["masses"][0], density=S("rho1"), gravity_constant=S("Gc1"))
        w = Cli(dict(default=d))
        e = w.run(gradient=True)
        r = w.row()
        a = [fields(bodykey("m0", ("cart", None, None)), station(("cart", None, None)), S(f"rho{q}"), S(f"Gc{q}"), True) for q in (0, 1)]
        compare(ck, w, "the same points with two densities", r[3:] if r else None, [tt.add(x, y) for x, y in zip(*a)], rule,
                f"{CLI}:run", e)
    ck.guard("shared points", rule, shared)


def c24(ck):
    rule = "graph of the written fields: bodies and stations in the earth-centred frame, heights corrected before"
    specs = [(k, l, None) for k, l in CASES + SHARE[:1]]
    bods = specs + [("ellps", l, vd) for l in (None, "airy") for vd in VDATUMS if vd != "ELLPS"] + [("enu", "airy", "EGM96")]
    for b in bods:
        for o in (specs if ck.thorough else [("cart", None, None), ("ellps", "airy", None), ("enu", ("ab", ""), None)]):
            def go():
                w = Cli(dict(default=conf([b], o)))
                e = w.run(gradient=True)
                r = w.row()
                compare(ck, w, f"body in {label(*b[:2])}, datum {(b[2] or 'none').lower()}; observers in {label(*o[:2])}",
                        r[3:] if r else None, total([b], o, True), rule, f"{CLI}:run", e, n=2)
                ck.saw(w.I)
            ck.guard(f"{b} {o}", rule, go)
    for o in specs:
        def go():
            bs = [("ellps", None, "EGM96"), ("enu", "airy", None), ("ecef", None, None)]
            w = Cli(dict(default=conf(bs, o)))
            e = w.run(gradient=True)
            r = w.row()
            compare(ck, w, f"bodies in three frames; observers in {label(*o[:2])}", r[3:] if r else None, total(bs, o, True), rule,
                    f"{CLI}:run", e, n=2)
        ck.guard(f"three {o}", rule, go)

    def dozen():
        bs = [("ellps", "airy", "EGM96"), ("ecef", None, None), ("enu", "airy", None), ("ellps", None, None)] * 3
        o = ("ellps", "airy", None)
        w = Cli(dict(default=conf(bs, o)))
        e = w.run(gradient=True)
        r = w.row()
        compare(ck, w, "twelve bodies in several frames", r[3:] if r else None, total(bs, o, True), rule, f"{CLI}:run", e, n=2)
    ck.guard("twelve bodies", rule, dozen)

    def later():
        bs = [("ellps", None, "EGM96"), ("enu", "airy", None)]
        for o in (("ellps", "bessel", None), ("enu", "airy", None)):
            for what, prev in histories(bs, o):
                w = Cli(dict(default=conf(bs, o)), prev=prev)
                e = w.run(gradient=True)
                r = w.row()
                compare(ck, w, f"observers in {label(*o[:2])}, after {what}", r[3:] if r else None, total(bs, o, True), rule, f"{CLI}:run", e, n=2)
    ck.guard("earlier runs", rule, later)

    def edge():
        b, o = ("ellps", "airy", "EGM96"), ("ellps", None, None)
        w = Cli(dict(default=conf([b], o)))
        e = w.run(gradient=True)
        r = w.row()
        tab = {"Xm0": {(0, 0): 180, (1, 0): 359, (2, 0): 360}}
        compare(ck, w, "body across longitude 180", r[3:] if r else None, total([b], o, True), rule, f"{CLI}:run", e, n=2, tables=tab)
    ck.guard("edge", rule, edge)


GEO = [("lon_mes", "(degree_east)"), ("lat_mes", "(degree_north)"), ("alt_mes", "(m)")]
CART = [("x_mes", "(m)"), ("y_mes", "(m)"), ("z_mes", "(m)")]
FIELD = [("Gx", "(mGal)"), ("Gy", "(mGal)"), ("Gz", "(mGal)")] + [(t, "(E)") for t in ("txx", "txy", "txz", "tyy", "tyz", "tzz")]


def c25(ck):
    rule = "one table: a row per observation point in order, coordinates as WGS84 (or Cartesian) with their labels, then the fields"
    def written(name, w, e, bs, o, grad, full=True):
        k, l = o[:2]
        t = w.table()
        if t is None:
            lost = [x["what"] for x in w.I.events[w.mark:] if x["kind"] == "lost"]
            ck.require(f"{name}: one table", False, rule, f"{CLI}:run", f"{len(w.writes())} writes", list(tt.taints(e)) + lost)
            return
        r = w.row()
        want = o_wgs84(k, x0("obs"), axes_of(l) if k in ("ellps", "enu") else None, org("obs"))
        compare(ck, w, f"{name}: reported coordinates", r[:3] if r else None, want, rule, f"{CLI}:run", e)
        compare(ck, w, f"{name}: reported fields", r[3:] if r else None, total(bs, o, grad), "every column holds what its label says",
                f"{CLI}:run", e, n=2)
        cols = t["cols"]
        exp = (CART if k == "cart" else GEO) + FIELD
        ck.require(f"{name}: labels", cols == exp, "the labels name the frame and unit of every column", f"{CLI}:run", f"labels {cols}",
                   ["labels"] if cols is None or any(not isinstance(y, str) for x in cols for y in (x if isinstance(x, tuple) else [x]))
                   else ())
        a = w.I.force(t["data"])
        fam = a.fam[0] if isinstance(a, Arr) and a.fam else None
        ck.require(f"{name}: rows", fam is tt.index("obs"), "a row per observation point, in order", f"{CLI}:run", f"rows over {fam}",
                   () if isinstance(a, Arr) and fam is not None else ["rows"])
        kw = t["kw"]
        ck.require(f"{name}: no index column, header present", w.I.resolve(kw.get("index", True)) is False and
                   w.I.resolve(kw.get("header", True)) is True and w.I.resolve(kw.get("sep", ",")) == "," and
                   w.I.resolve(kw.get("mode", "w")) == "w" and kw.get("columns") is None,
                   "the table is written whole, comma-separated, with its labels and without row numbers", f"{API}:write_file",
                   f"written with {kw}", ())
        fmt = {q: v for q, v in kw.items() if q in ("float_format", "decimal", "na_rep", "chunksize", "compression") and v is not None}
        na = w.I.resolve(fmt.pop("na_rep", ""))
        ck.require(f"{name}: missing values are not numbers", isinstance(na, str) and na.strip().lower() in ("", "nan", "na", "n/a", "null"),
                   "a value that is not a number is not written as one", f"{API}:write_file", f"not-a-number written as {na!r}")
        ck.require(f"{name}: full precision", not (set(fmt) & {"float_format", "decimal", "compression"}),
                   "numbers are written in full", f"{API}:write_file", f"written with {fmt}")
        ck.saw(w.I)
    for k, l in CASES + SHARE[:1]:
        for grad in (False, True):
            def go():
                o, bs = (k, l, None), [("cart", None, None)]
                w = Cli(dict(default=conf(bs, o)))
                e = w.run("res.csv", gradient=grad)
                written(f"observers in {label(k, l)}{', gradient' if grad else ''}", w, e, bs, o, grad)
            ck.guard(f"observers in {label(k, l)}", rule, go)
    for o in (("cart", None, None), ("ellps", "airy", None), ("enu", "airy", None)):
        def go():
            bs = [("cart", None, None)]
            for what, prev in histories(bs, o, "res.csv"):
                w = Cli(dict(default=conf(bs, o)), prev=prev)
                e = w.run("res.csv")
                written(f"observers in {label(*o[:2])}, after {what}", w, e, bs, o, False)
        ck.guard(f"earlier runs, {o[0]}", rule, go)

    def grid():
        d = conf([("cart", None, None)], ("cart", None, None))
        d["observers"].update(points=[], file_path="", grid=gridconf([[0, 2, 1], [5, 8, 2], [1, 2, 1]]))
        w = Cli(dict(default=d))
        e = w.run("res.csv")
        t = w.table()
        a = w.I.force(t["data"]) if t else None
        if not isinstance(a, Arr) or a.a.shape[1:] != (12,):
            ck.add("observers on a grid", OPEN, rule, f"{CLI}:run", "rows")
            return
        ok = []
        for r in a.a:
            ob = [tt.tm(x) for x in r[:3]]
            ok.append((ob, [tt.tm(x) for x in r[3:]], fields(bodykey("m0", ("cart", None, None)), ob, S("rho0"), S("Gc0"), False)))
        compare(ck, w, "observers on a grid", [y for x in ok for y in x[1]], [y for x in ok for y in x[2]],
                "each row holds the field at its own point", f"{CLI}:run", e)
        ck.require("rows of a grid", len(ok) == 4, "a row per grid point", f"{CLI}:run", f"{len(ok)} rows")
    ck.guard("grid", rule, grid)

    cases = [("out/res.txt", "out/res.csv", "out"), ("res", "res.csv", "."), ("~/d/res.csv", "~/d/res.csv", "~/d"),
             ("/a/b/c.dat", "/a/b/c.csv", "/a/b"), ("x/y.z/run", "x/y.z/run.csv", "x/y.z"), ("", None, None),
             ("a.b.csv", "a.b.csv", "."), ("out.v1.txt", "out.v1.csv", "."), ("d/.hid", "d/.hid.csv", "d"), ("../up/R.CSV", "../up/R.csv", "../up"),
             ("res.csv", "res.csv", "."), ("out/rescsv", "out/rescsv.csv", "out"), ("run-2.5", "run-2.csv", ".")]
    for arg, want, parent in cases:
        def go():
            w = Cli(dict(default=conf([("cart", None, None)], ("cart", None, None))))
            e = w.run(arg)
            name = f"output {arg!r}"
            ck.require(f"{name}: no error", w.I.simp(e) is tt.FALSE, "the run succeeds", f"{CLI}:run", f"raises when {tt.show(e)}", tt.taints(e))
            ws = w.writes()
            if want is None:
                ck.require(f"{name}: nothing written", not ws, "no output asked for, none written", f"{API}:write_file", f"{len(ws)} writes")
                return
            fs = [x["file"] for x in ws if x["kind"] == "write"]
            ok = len(ws) == 1 and list(fs[0][1]) == [want] and (not want.startswith("~") or fs[0][2]) and w.cond(ws[0]) is tt.TRUE
            opq = [str(q) for f in fs for q in f[1] if not isinstance(q, str)]
            ck.require(f"{name}: one file at {want}", ok, "the output path with suffix .csv is the one file written", f"{API}:write_file",
                       f"writes {[f[1] for f in fs]}", opq)
            mk = [x for x in w.I.events[w.mark:] if x["kind"] == "mkdir" and w.needed(x) is tt.TRUE]
            bad = [x for x in w.I.events[w.mark:] if x["kind"] == "mkdir_fragile" and list(x["file"][1]) == [parent]]
            good = parent in (".",) or any(list(x["file"][1]) == [parent] for x in mk)
            first = [k for k, x in enumerate(w.I.events) if k >= w.mark and x["kind"] == "write" and list(x["file"][1]) != ["/dev/null"]]
            order = not mk or not first or w.I.events.index(mk[0]) < first[0]
            ck.require(f"{name}: its directory is made", good and order and not bad, "the directory, its parents too, is created if missing",
                       f"{API}:write_file", f"creates {[x['file'][1] for x in mk]}{' only if its parent exists and it does not' if bad else ''}")
        ck.guard(f"output {arg!r}", rule, go)


def faulty_gravity(I, f, args):
    o, obs = args[0], args[1]
    n = len(I.events)
    r = stub_gravity(I, f, args)
    key = I.events[n]["key"] if len(I.events) > n else tt.const(0)
    I.raise_(I.faultkind.get("eval", "RuntimeError"), tt.fn("fails:eval", key))
    return r


def faulty_body(I, cls, args, kw):
    from .poly import stub_body
    o = stub_body(I, cls, args, kw)
    I.raise_(I.faultkind.get("body", "RuntimeError"), tt.fn("fails:body", *[tt.tm(x) for x in I.force(I.getattr(o, "points")).a.reshape(-1)]))
    return o


def terms_in(ts):
    seen, todo = set(), list(ts)
    while todo:
        x = todo.pop()
        if not isinstance(x, tt.T) or x in seen:
            if isinstance(x, tuple):
                todo += list(x)
            continue
        seen.add(x)
        todo += list(x.args)
    return seen


def c27(ck):
    rule = "a failing step makes the run fail, and no result is written"
    stubs = dict(STUBS)
    stubs["Polyhedron.get_gravity"] = faulty_gravity
    stubs["Polyhedron"] = faulty_body

    def fails(src, arg, what, need, kinds={}, nbodies=0):
        w = Cli(src, stubs=stubs, iofaults=True, solid=False)
        w.I.faultkind = kinds
        e = w.run("out/res.csv", arg)
        ws = w.writes()
        ts = terms_in([e] + [w.cond(x) for x in ws])
        flt = sorted((t for t in ts if t.op == "fn" and t.args[0].startswith("fails:")), key=str)
        kinds = {t.args[0][6:] for t in flt}
        ck.require(f"{what}: failing steps seen", need <= kinds, "every step that can fail shows up in the failure condition of the run",
                   f"{CLI}:run", f"no trace of a failing {sorted(need - kinds)}: the failure is lost", tt.taints(e))
        made = len([t for t in flt if t.args[0] == "fails:body"])
        ck.require(f"{what}: every body is made", made >= nbodies, "a body that cannot be made is a failure of the run", f"{CLI}:run",
                   f"{made} of {nbodies} bodies are made", tt.taints(e))
        for t in flt:
            def draws(t=t):
                for d in range(2):
                    def one(d=d):
                        env = Env(ck.seed * 100 + d, K=3, over={x: x is t for x in flt})
                        r, h = value(env, e)
                        wr = False
                        for x in ws:
                            v, h2 = value(env, w.cond(x))
                            wr = wr or v is True
                            h |= h2
                        return (r, wr), (True, False), h, f"draw {d}"
                    yield one
            ck.same(f"{what}: {t.args[0][6:]} fails at {tt.show(t)[:60]}", draws(), rule, f"{CLI}:run")

        def clean():
            def one():
                env = Env(ck.seed, K=3, over={x: False for x in flt})
                r, h = value(env, e)
                return r, False, h, "no failure"
            yield one
        ck.same(f"{what}: no failure, no error", clean(), "the run succeeds when every step does", f"{CLI}:run")
        ck.saw(w.I)

    def go():
        d = conf([("ellps", "airy", "EGM96"), ("cart", None, None)], ("ellps", None, None))
        fails(dict(default=d, cli=d), FILE, "points given", {"config", "open", "convert", "geoid", "body", "eval", "write", "mkdir"})
        d2 = d
        d = conf([("cart", None, None)], ("cart", None, None))
        d["masses"][0].update(points=None, file_path="m.csv")
        d["observers"].update(points=[], file_path="o.csv")
        fails(dict(default=d), "", "files given", {"read", "body", "eval", "write", "mkdir"})
        for k in ("ZeroDivisionError", "FloatingPointError", "ValueError", "IndexError", "KeyError", "TypeError", "AttributeError",
                  "MemoryError", "scipy.spatial.QhullError"):
            fails(dict(default=d, cli=d), "", f"files given, {k} in the calculation", {"body", "eval"}, dict(body=k, eval=k))
        for k in ("IndexError", "FloatingPointError", "TypeError"):
            fails(dict(default=d2), "", f"points given, {k} in the conversions", {"convert", "geoid"}, dict(convert=k, geoid=k))
        for k in ("FileNotFoundError", "PermissionError", "NotADirectoryError", "UnicodeDecodeError", "pandas.errors.EmptyDataError",
                  "pandas.errors.ParserError"):
            fails(dict(default=d, cli=d), "", f"files given, {k} while reading", {"read"}, dict(read=k))
        for k in ("confuse.ConfigReadError", "confuse.ConfigError", "PermissionError", "UnicodeDecodeError"):
            fails(dict(default=d2, user=d2, cli=d2), FILE, f"{k} in the configuration files", {"config", "open"}, dict(config=k, open=k))
        for k in ("FileNotFoundError", "PermissionError", "NotADirectoryError"):
            fails(dict(default=d, cli=d), "", f"files given, {k} while writing", {"write", "mkdir"}, dict(write=k, mkdir=k))
    ck.guard("failing steps", rule, go)

    def few():
        # bodies of too few points, of none, of doubled ones: making them fails, and with it the run
        q = lambda n, k: [[S(f"q{k}{r}{c}") for c in range(3)] for r in range(n)]
        for ns in ((4, 3, 5), (1, 4), (4, 2), (8, 4)):
            d = conf([("cart", None, None)] * len(ns), ("cart", None, None))
            for k, n in enumerate(ns):
                d["masses"][k]["points"] = q(n, k)
            w = Cli(dict(default=d), solid=False)
            e = w.run("out/res.csv")
            made = [x for x in w.I.events[w.mark:] if x["kind"] == "body"]
            ck.require(f"bodies of {', '.join(map(str, ns))} points: all are made", len(made) >= len(ns) or e is tt.TRUE,
                       "a body is never left out without an error", f"{CLI}:run", f"{len(made)} of {len(ns)} bodies are made", tt.taints(e))
            fails(dict(default=d), "", f"bodies of {', '.join(map(str, ns))} points", {"body", "eval", "write"}, nbodies=len(ns))
    ck.guard("few points", rule, few)

    def invalid(what, edit, isobs=False, missing=()):
        d = conf([("ellps", "airy", "EGM96"), ("enu", None, None)], ("ellps", None, None))
        edit(d)
        w = Cli(dict(default=d), solid=False)
        for f in missing:
            w.I.push(tt.notc(tt.fn("isfile", f)))
        e = w.run("out/res.csv")
        ws = [x for x in w.writes() if w.cond(x) is not tt.FALSE]
        ck.require(f"{what}: the run fails", w.I.simp(e) is tt.TRUE, rule, f"{CLI}:run", f"fails when {tt.show(e)}", tt.taints(e))
        ck.require(f"{what}: nothing written", not ws, rule, f"{CLI}:run", f"{len(ws)} writes")

    def setk(*path):
        def f(d):
            for k in path[:-2]:
                d = d[k]
            if path[-1] is KeyError:
                del d[path[-2]]
            else:
                d[path[-2]] = path[-1]
        return f

    def nothere(d):
        d["masses"][0].update(points=None, file_path=None)

    def nocoords(d):
        d["observers"].update(points=[], file_path="", grid=None)
    bad = [("unknown reference of a body", setk("masses", 0, "crs", "ref", "polar")),
           ("unknown reference of the observers", setk("observers", "crs", "ref", "polar")),
           ("unknown vertical datum", setk("masses", 0, "crs", "vdatum", "egm2020")),
           ("unknown ellipsoid", setk("masses", 0, "crs", "name", "nosuch")),
           ("unknown ellipsoid of a local frame", setk("masses", 1, "crs", "name", "nosuch")),
           ("no density", setk("masses", 1, "density", KeyError)), ("empty density", setk("masses", 1, "density", None)),
           ("density not a number", setk("masses", 1, "density", "heavy")),
           ("no gravity constant", setk("masses", 0, "gravity_constant", KeyError)),
           ("empty gravity constant", setk("masses", 0, "gravity_constant", None)),
           ("origin of a local frame missing", setk("masses", 1, "crs", "longitude_origin", None)),
           ("a body without coordinates", nothere), ("observers without coordinates", nocoords)]
    for what, edit in bad:
        ck.guard(what, rule, lambda: invalid(what, edit))

    def nofile(d):
        d["masses"][0].update(points=None, file_path="gone.csv")

    def go():
        d = conf([("cart", None, None)], ("cart", None, None))
        nofile(d)
        w = World(config=dict(sources=dict(default=d)), stubs=STUBS)
        for i in families(d):
            w.I.push(tt.gt(tt.famlen(i), 0))
        w.I.push(tt.notc(tt.fn("isfile", "gone.csv")))
        m = len(w.I.events)
        e = w.command("run", "out/res.csv")
        ws = w.I.effects(m)
        ck.require("missing file of points: the run fails", w.I.simp(e) is tt.TRUE and not ws, rule, f"{CLI}:run",
                   f"fails when {tt.show(e)}, {len(ws)} writes", tt.taints(e))
    ck.guard("missing file", rule, go)


def c29(ck):
    """the options of the command line"""
    rule = "the documented command line means what its help says"
    SRC = dict(cli=conf([("ellps", "airy", "EGM96")], ("cart", None, None)), default=conf([("cart", None, None)], ("ellps", None, None)))

    def shape(w):
        out = []
        for x in w.writes():
            d = w.I.force(x["data"]) if x.get("data") is not None else None
            vals = tuple(tt.tm(v) for v in d.a.reshape(-1)) if isinstance(d, Arr) else (tt.tm(d),) if isinstance(d, (str, tt.T)) else ()
            out.append((x["kind"], x["file"], x.get("how"), vals, x["path"]))
        return out

    def outcome(*tokens):
        w = Cli(SRC)
        w.I.load("geec.cli")
        w.mark = len(w.I.events)
        e = w.command(*tokens)
        ck.saw(w.I)
        return w.I.simp(e), shape(w)

    def alike(base, *others):
        def go():
            a = outcome(*base)
            ck.require(f"{' '.join(base)}: result written", len(a[1]) == 1 and a[0] is tt.FALSE, "a run writes one result", f"{CLI}:run",
                       f"fails when {tt.show(a[0])}, {len(a[1])} writes", tt.taints(a[0]))
            for o in others:
                b = outcome(*o)
                ck.require(f"{' '.join(o)}: as {' '.join(base)}", a == b, "options may come in any order and spelling", f"{CLI}:run",
                           "another result", tt.taints(b[0]))
        ck.guard(" ".join(base), rule, go)
    alike(("run", "o.csv"), ("run", "--no-gradient", "o.csv"), ("run", "o.csv", "--no-gradient"), ("run", "--gradient", "--no-gradient", "o.csv"))
    alike(("run", "--gradient", "o.csv"), ("run", "o.csv", "--gradient"))
    alike(("run", "--config", FILE, "o.csv"), ("run", "o.csv", f"--config={FILE}"), ("run", "o.csv", "--no-gradient", "--config", FILE))
    alike(("config", "--output", "a/b.yaml"), ("config", "--output=a/b.yaml"))

    def told(w, mark):
        """(prints, other effects, (end with status 0) )"""
        ev = w.I.events[mark:]
        return [x for x in ev if x["kind"] == "print"], [x for x in ev if x["kind"] in ("write", "delete", "rename")]

    def text(I, x):
        ts = []
        for a in x["args"]:
            a = I.resolve(a)
            if isinstance(a, LibObj) and a.kind in ("path", "strpath"):
                a = I.libs.pathterm(I.libs.canonpath(a))
            ts.append(tt.tm(a) if isinstance(a, (str, tt.T)) else tt.opaque("printed"))
        return ts

    def group(*tokens):
        w = Cli(SRC)
        I = w.I
        I.load("geec.cli")
        w.mark = len(I.events)
        w.clear()
        cmdline.invoke(I, tokens)
        e, v = I.simp(I.exc["c"]), I.exc["v"]
        ok = I.simp(cmdline.clean(I, v)) if v is not None else tt.FALSE
        ck.saw(I)
        return w, e, ok

    def place(I, p):
        return I.libs.pathterm(p)

    def sinks(w, mark):
        """files the log goes to"""
        I = w.I
        out = []
        for x in I.events[mark:]:
            if x["kind"] != "sink":
                continue
            s = I.resolve(x["sink"])
            if isinstance(s, LibObj) and s.kind in ("path", "strpath") or isinstance(s, (str, tt.T)):
                out.append((x, I.libs.canonpath(s)))
        return out

    for tokens in (("--version",), ("--version", "run", "o.csv"), ("--version", "--log")):
        def go(tokens=tokens):
            w, e, ok = group(*tokens)
            name = " ".join(tokens)
            prints, eff = told(w, w.mark)
            ver = w.I.resolve(w.I.get("geec:__version__"))
            ts = [t for x in prints for t in text(w.I, x)]
            said = any(isinstance(c, str) and str(ver) in c for t in terms_in(ts) for c in t.args)
            ck.require(f"{name}: version", said and all(w.cond(x) is tt.TRUE for x in prints), "the version of the package is printed", f"{CLI}:main",
                       f"prints {[tt.show(t) for t in ts]}", [h for t in ts for h in tt.taints(t)])
            ck.require(f"{name}: end", e is tt.TRUE and ok is tt.TRUE, "the program ends with status 0", f"{CLI}:main",
                       f"ends early when {tt.show(e)}, with status 0 when {tt.show(ok)}", tt.taints(e) + tt.taints(ok))
            eff = eff + [x for x, _ in sinks(w, w.mark)] + [x for x in w.I.events[w.mark:] if x["kind"] == "mkdir"]
            ck.require(f"{name}: nothing else", not eff, "no file is written, no directory made", f"{CLI}:main",
                       f"{len(eff)} effects: {', '.join(x['kind'] for x in eff)}")
        ck.guard(" ".join(tokens), rule, go)

    def go():
        # a second command in the same process sets the log up again
        w = World()
        f = w.I.get("geec.api:setup_logger")
        w.clear()
        for n in ("once", "twice"):
            w.I.call(f, [], {})
            e = w.I.simp(w.I.exc["c"])
            ck.require(f"log set up {n}", e is tt.FALSE, "setting up the log succeeds, however often a command is run", f"{API}:setup_logger",
                       f"raises when {tt.show(e)}", tt.taints(e))
    ck.guard("log set up", rule, go)

    for tokens in (("run", "o.csv"), ("config",)):
        def go(tokens=tokens):
            w, e, ok = group(*tokens)
            I = w.I
            name = " ".join(tokens)
            ck.require(f"{name}: succeeds", e is tt.FALSE, "the command runs to its end", f"{CLI}:main", f"ends early when {tt.show(e)}", tt.taints(e))
            prints, _ = told(w, w.mark)
            for x, c in sinks(w, w.mark):
                d = place(I, I.libs.path_parent(c))
                k = I.events.index(x)
                made = [y for y in I.events[w.mark:k] if y["kind"] == "mkdir" and not w.needed_free(y)]
                ck.require(f"{name}: log directory", any(place(I, y["file"]) == d for y in made) and not any(
                    y["kind"] == "mkdir_fragile" and not w.guarded(y) for y in I.events[w.mark:k]),
                    "the log directory is made, if missing, before the log is opened", f"{API}:setup_logger", f"log in {tt.show(tt.tm(d))}", tt.taints(tt.tm(d)))
            alone = outcome(*tokens)
            full = (e, shape(w))
            ck.require(f"{name}: same result", alone == full, "setting up the log changes no result", f"{CLI}:main", "another result")
        ck.guard(" ".join(tokens), rule, go)

    def go():
        w, e, ok = group("--log")
        I = w.I
        prints, eff = told(w, w.mark)
        ts = [t for x in prints for t in text(I, x)]
        v, _, _ = group("config")
        dirs = [place(v.I, v.I.libs.path_parent(c)) for _, c in sinks(v, v.mark)]
        ck.require("--log: directory", len(dirs) > 0 and all(tt.tm(d) in terms_in(ts) for d in dirs), "the directory the log is written to is printed",
                   f"{CLI}:main", f"prints {[tt.show(t) for t in ts]}, log in {[tt.show(tt.tm(d)) for d in dirs]}", [h for t in ts for h in tt.taints(t)])
        ck.require("--log: end", e is tt.TRUE and ok is tt.TRUE, "the program ends with status 0", f"{CLI}:main",
                   f"ends early when {tt.show(e)}, with status 0 when {tt.show(ok)}", tt.taints(e) + tt.taints(ok))
        ck.require("--log: nothing else", not eff, "no file is written", f"{CLI}:main", f"{len(eff)} writes")
    ck.guard("--log", rule, go)

    def go():
        I = World().I
        app = cmdline.application(I)
        mark = len(I.events)
        I.load("geec.__main__", main=True)
        ev = [x for x in I.events[mark:] if x["kind"] == "app"]
        ck.require("python -m geec", [x["app"] for x in ev] == [app] and not ev[0]["path"], "the module runs the application", "geec/__main__.py",
                   f"{len(ev)} applications run")
        I = World().I
        mark = len(I.events)
        I.load("geec.__main__")
        ck.require("import geec.__main__", not [x for x in I.events[mark:] if x["kind"] == "app"], "importing runs nothing", "geec/__main__.py", "runs the application")
    ck.guard("python -m geec", rule, go)


def c28(ck):
    """arguments of the wrong kind"""
    from .c_poly import Stations
    rule = "an argument of the wrong kind raises, and leaves the station as it was"
    PF, SF = "geec/polyhedron.py", "geec/station.py"

    def bads(I):
        row = lambda: LList([tt.sym(f"q{c}") for c in range(3)], I.ctx, "list")
        return [("a list of rows", LList([row() for _ in range(4)], I.ctx, "list")), ("nothing", None), ("a number", tt.sym("x")),
                ("a text", "points"), ("a tuple", tuple(tt.sym(f"q{c}") for c in range(3)))]

    def refused(I, f, args):
        I.setcell(I.exc, "c", tt.FALSE)
        I.setcell(I.exc, "v", None)
        I.call(f, args, {})
        e, v = I.simp(I.exc["c"]), I.resolve(I.exc["v"])
        I.setcell(I.exc, "c", tt.FALSE)
        I.setcell(I.exc, "v", None)
        return e, I.exc_name(v) if v is not None else None

    from .interp import Interp
    for cls, kind in (("geec.polyhedron:Polyhedron", "body"), ("geec.station:Station", "station")):
        for k in range(5):
            def go():
                I = Interp()
                what, x = bads(I)[k]
                e, n = refused(I, I.get(cls), [x])
                ck.require(f"a {kind} from {what}", e is tt.TRUE and n == "KeyError", "the constructor raises KeyError",
                           f"{PF if kind == 'body' else SF}:__init__", f"raises {n} when {tt.show(e)}", tt.taints(e))
                ck.saw(I)
            ck.guard(f"{kind} {k}", rule, go)

    def go():
        for grad in (False, True):
            s = Stations()
            I = s.I
            a, b = s.body("a"), s.body("b")
            mk = lambda *x: LList(list(x), I.ctx, "list")
            pts = I.arr(oarr([[tt.sym(f"p{r}{c}") for c in range(3)] for r in range(4)]), None, "f8")
            cases = [("an array", pts), ("nothing", None), ("a number", tt.sym("x")), ("a tuple of bodies", (a, b)),
                     ("a list of arrays", mk(pts)), ("a list ending in an array", mk(a, b, pts)), ("a list starting with nothing", mk(None, a)),
                     ("a list with a list", mk(a, mk(b)))]
            if not grad:
                cases.append(("a long list ending in an array", mk(*[a, b] * 550, pts)))
            for what, x in cases:
                st = s.station("o")
                s.compute(st, a, S("rho"), S("Gc"), grad)
                before = s.result(st)
                n0 = len(I.events)
                e, n = refused(I, I.getattr(st, "compute_gravity"), [x, S("rho"), S("Gc"), grad])
                t = tt.taints(e)
                ck.require(f"gravity of {what}, gradient {grad}", e is tt.TRUE and n == "TypeError", "TypeError is raised",
                           f"{SF}:Station.compute_gravity", f"raises {n} when {tt.show(e)}", t)
                after = s.result(st)
                compare(ck, s, f"station after gravity of {what}, gradient {grad}", after, before, rule, f"{SF}:Station.compute_gravity", n=2)
            ck.saw(I)
    ck.guard("bodies", rule, go)
