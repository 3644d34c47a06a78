"""Checks of the gravity kernel (polyhedron, station)."""
from . import terms as tt
from .evalt import BadSample, P, Undef, froot, inv, legendre, rng, value
from .poly import (ALIGNED, Kernel, body, flat, fold_env, reference, stores, vadd, vcross, vdot, vscale, vsub)
from .report import BAD, OK, OPEN, Gone, ev
from .values import Arr, LList, Obj, PhiV, Splice, oarr

KINDS = ("generic", "plane", "line+", "line-")
MORE = ("bi generic", "bi plane", "bi line+", "bi line-", "py generic", "py base", "py plane", "py line+", "py line-")
WHERE = "geec/polyhedron.py:Polyhedron.get_gravity"
TRANSC = {"log", "acos", "asin"}


class Run:
    """one interpreted call of the kernel, evaluable on bodies"""

    def __init__(self, k, gradient=True, name="o", arr=None, **kw):
        self.k = k
        n = len(k.I.events)
        self.name = name
        r, self.exc = k.gravity(gradient, obs=arr or k.obs(name), **kw)
        self.raises = tt.orc(k.exc0, self.exc)
        self.ok = isinstance(r, (tuple, LList))
        self.G = self.T = None
        if self.ok:
            items = r if isinstance(r, tuple) else r.items
            if len(items) == 2:
                self.res = items
                self.G, self.T = flat(k.I, items[0]), flat(k.I, items[1])
        self.sts = stores(k.I, n)
        # calls of methods of objects that could not be told: what they changed is not known
        self.lost = {"?call of " + x["what"] for x in k.I.events if x["kind"] == "lost"}
        if not k.I.faults:
            k.I.push(tt.notc(self.exc))     # what follows is analysed for calls that ran to their end

    def shape(self):
        return (None if self.G is None else len(self.G), None if self.T is None else len(self.T))

    def arrays(self):
        """the returned arrays as they are now"""
        return flat(self.k.I, self.res[0]) + flat(self.k.I, self.res[1])

    def env(self, b, seed, **kw):
        return fold_env(self.k.I, b, seed, self.sts, obs=self.name, **kw)

    def at(self, b, seed, T=True, **kw):
        """((raises, gravity, tensor), unmodelled) on a body"""
        if self.G is None or T and self.T is None:
            return ("no (gravity, tensor) pair returned",), {"?result"}
        return self.value(self.env(b, seed, **kw), T)

    def value(self, env, T=True):
        if self.G is None or T and self.T is None:
            return ("no (gravity, tensor) pair returned",), {"?result"}
        r, h0 = value(env, self.raises)
        alias = getattr(env, "alias", None)
        if alias:
            return (tuple(sorted(alias)),), h0 | alias
        h0 = h0 | self.lost
        if r is not False:
            return (r,), h0
        g, h1 = ev(env, self.G)
        t, h2 = ev(env, self.T) if T else ([], set())
        return (r, g, t), h0 | h1 | h2


def undefs(v):
    """undefined and raised outcomes are one: no number is delivered"""
    if v[0] is not False or "undef" in v[1] or "undef" in v[2]:
        return ("no result",)
    return v


def foreign_fns(ts):
    """transcendental functions in a graph that the oracle does not use"""
    seen, out, stack = set(), set(), list(ts)
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            stack.extend(t)
            continue
        if not isinstance(t, tt.T) or t in seen:
            continue
        seen.add(t)
        if t.op == "fn" and t.args[0].split(":")[0] in (
                "atan", "atan2", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log1p",
                "expm1", "cbrt"):
            out.add("?" + t.args[0])
        stack.extend(t.args)
    return out


def bodies(ck, tag, n, kinds=KINDS):
    """tetrahedra of each kind, and as many larger bodies"""
    for kind in kinds:
        for s in range(n):
            yield kind, s, rng(ck.seed, tag, kind, s)
    if kinds is KINDS:
        more = MORE if n > 1 or ck.thorough else ("bi generic", "py base")
        for kind in more:
            for s in range(max(1, n // 3)):
                yield kind, s, rng(ck.seed, tag, kind, s)
        for s in range(2 * n):
            r = rng(ck.seed, tag, "aligned", s)
            yield f"{KINDS[s % len(KINDS)]}@{r.randrange(ALIGNED)}", s, r


def fresh(ck, **kw):
    k = Kernel(**kw)
    return k


def transform(ck, run, name, f, rule, kinds=KINDS, n=None, T=True):
    """f(body, r) -> (other body, map of (gravity, tensor) of the first to the expected of the other)"""
    extra = foreign_fns((run.G or []) + (run.T or []))

    def draws():
        for kind, s, r in bodies(ck, name, n or ck.draws(3), kinds):
            def one(kind=kind, s=s, r=r):
                b = body(r, kind)
                c, m = f(b, r)
                x, h1 = run.at(b, s, T)
                y, h2 = run.at(c, s, T)
                x, y = undefs(x), undefs(y)
                if len(x) == 3:
                    x = (x[0],) + m(x[1], x[2])
                return y, x, h1 | h2 | extra, f"{kind} body {s}"
            yield one
    return ck.same(name, draws(), rule, WHERE)


def c01(ck):
    k = fresh(ck)
    for grad in (True, False):
        run = Run(k, grad)

        def lin(b, r, which):
            s = r.randrange(2, P)
            c = b.move(lambda x: x, rho=b.rho * s % P if which == "rho" else None,
                       Gc=b.Gc * s % P if which == "Gc" else None)
            return c, lambda g, t: (vscale(s, g), vscale(s, t))
        for which, txt in (("rho", "density"), ("Gc", "gravitational constant")):
            transform(ck, run, f"scaling the {txt} scales gravity and gradient (gradient={grad})",
                      lambda b, r: lin(b, r, which),
                      "the value graph is homogeneous of degree one in the factor")

        def only(b, r):
            s = r.randrange(2, P)
            c = b.move(lambda x: x, rho=b.rho * s % P, Gc=b.Gc * inv(s) % P)
            return c, lambda g, t: (g, t)
        transform(ck, run, f"only the product of density and constant matters (gradient={grad})", only,
                  "graph depends on the two factors through their product")

        def zero(b, r):
            return b.move(lambda x: x, rho=0), lambda g, t: ([0] * len(g), [0] * len(t))
        transform(ck, run, f"zero density gives zero (gradient={grad})", zero, "no term independent of the density")
    for which, txt in (("rho", "density"), ("Gc", "gravitational constant")):
        for grad in (True, False):
            def go():
                k1, k2 = fresh(ck), fresh(ck)
                small = Run(k2, grad, **{which: tt.mul(tt.EPS, tt.sym(which))})
                if not any(n.op in ("gt", "eq") and tt.sym(which) in n.fs and tt.EPS in n.fs
                           for t in (small.G or []) + (small.T or []) + [small.raises] for n in tt.nodes(t)):
                    return      # no test of the factor against a tolerance
                run = Run(k1, grad)

                def draws():
                    for kind, s, r in bodies(ck, f"tiny {which}", ck.draws(2)):
                        def one(kind=kind, s=s, r=r):
                            b = body(r, kind)
                            x, h1 = run.value(run.env(b, s, eps=1))
                            y, h2 = small.value(small.env(b, s, eps=1))
                            return undefs(y), undefs(x), h1 | h2, f"{kind} body {s}"
                        yield one
                ck.same(f"a {txt} at the size of a tolerance scales like any other (gradient={grad})", draws(),
                        "the value graph is homogeneous of degree one in the factor", WHERE)
            ck.guard(f"tiny {which}", "homogeneous of degree one in the factor", go)
    ck.saw(k.I)


def c02(ck):
    k = fresh(ck)
    for grad in (True, False):
        run = Run(k, grad)

        def shift(b, r):
            d = [r.randrange(P) for _ in range(3)]
            return b.move(lambda x: vadd(x, d)), lambda g, t: (g, t)
        transform(ck, run, f"moving body and station together changes nothing (gradient={grad})", shift,
                  "graph depends on coordinates through differences only")

        def tocentre(b, r):
            d = vscale(-1, b.o)
            return b.move(lambda x: vadd(x, d)), lambda g, t: (g, t)
        transform(ck, run, f"moving the station to the origin changes nothing (gradient={grad})", tocentre,
                  "graph depends on coordinates through differences only")
    ck.saw(k.I)


def c03(ck):
    k = fresh(ck)
    for grad in (True, False):
        run = Run(k, grad)

        def scale(b, r):
            s = pow(r.randrange(2, P), 2, P)
            return b.move(lambda x: vscale(s, x)), lambda g, t: (vscale(s, g), t)
        transform(ck, run, f"scaling all lengths scales gravity and keeps the gradient (gradient={grad})", scale,
                  "graph is homogeneous of degree one (gravity) and zero (gradient) in the coordinates")
    ck.saw(k.I)


def rotation(r):
    """random rotation (Cayley transform of a skew matrix)"""
    while True:
        a, b, c = (r.randrange(P) for _ in range(3))
        n = (1 + a * a + b * b + c * c) % P
        if n:
            break
    i = inv(n)
    M = [[1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b)],
         [2 * (a * b + c), 1 - a * a + b * b - c * c, 2 * (b * c - a)],
         [2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c]]
    return [[x * i % P for x in row] for row in M]


def rot(M, x):
    return [vdot(row, x) for row in M]


def rott(M, t):
    if len(t) != 9:
        return t
    m = [t[3 * i:3 * i + 3] for i in range(3)]
    a = [[sum(M[i][k] * m[k][j] for k in range(3)) % P for j in range(3)] for i in range(3)]
    return [sum(a[i][k] * M[j][k] for k in range(3)) % P for i in range(3) for j in range(3)]


def c10(ck):
    k = fresh(ck)
    for grad in (True, False):
        run = Run(k, grad)

        def turn(b, r):
            M = rotation(r)
            return b.move(lambda x: rot(M, x)), lambda g, t: (rot(M, g), rott(M, t))

        def perm(b, r):
            return b.move(lambda x: [x[1], x[2], x[0]]), \
                lambda g, t: ([g[1], g[2], g[0]], rott([[0, 1, 0], [0, 0, 1], [1, 0, 0]], t))

        def mirror(b, r):
            return b.move(lambda x: [-x[0] % P, x[1], x[2]]), \
                lambda g, t: ([-g[0] % P, g[1], g[2]], rott([[-1, 0, 0], [0, 1, 0], [0, 0, 1]], t))
        rule = "graph is covariant under orthogonal maps of the coordinates"
        transform(ck, run, f"rotating body and station rotates gravity and gradient (gradient={grad})", turn, rule)
        transform(ck, run, f"exchanging the axes exchanges the components (gradient={grad})", perm, rule)
        transform(ck, run, f"mirroring body and station mirrors the result (gradient={grad})", mirror, rule)
    ck.saw(k.I)


def c12(ck):
    k = fresh(ck)
    for grad in (True, False):
        run = Run(k, grad)
        extra = foreign_fns((run.G or []) + (run.T or []))
        for kind in KINDS + MORE + ("generic@", "plane@", "line+@", "line-@"):
            def draws():
                for s in range(ck.draws(6, 40) if kind in KINDS else ck.draws(2, 20) if kind in MORE else
                               ALIGNED if kind == "generic@" or ck.thorough else 6):
                    def one(s=s):
                        r = rng(ck.seed, "c12", kind, s)
                        at = s if kind == "generic@" or ck.thorough else r.randrange(ALIGNED)
                        b = body(r, f"{kind}{at}" if "@" in kind else kind)
                        x, h = run.at(b, s)
                        x = undefs(x)
                        try:
                            g, t = reference(b, b.env(s))
                            y = (False, g, t if grad else [0] * len(x[2]) if len(x) == 3 else None)
                        except Undef:
                            y = ("no result",)
                        return x, y, h | extra, f"{kind} body {s}"
                    yield one
            what = {"generic": "a station in general position", "plane": "a station in the plane of a face",
                    "line+": "a station on the line of an edge, before it",
                    "line-": "a station on the line of an edge, beyond it", "base": "a station in the plane of two facets"}[kind.split()[-1].rstrip("@")]
            what += ", something parallel to an axis or coordinate plane" if "@" in kind else ""
            what += {"bi": ", double pyramid", "py": ", pyramid"}.get(kind.split()[0], "")
            ck.same(f"closed form for {what} (gradient={grad})", draws(),
                    "the value graph equals the closed-form field of the uniform tetrahedron, written independently", WHERE)
    ck.saw(k.I)


def c07(ck):
    k = fresh(ck)
    on, off = Run(k, True), Run(k, False)

    def draws(f):
        for kind, s, r in bodies(ck, "c07", ck.draws(3)):
            def one(kind=kind, s=s, r=r):
                return f(body(r, kind), s) + (f"{kind} body {s}",)
            yield one

    def grav(b, s):
        x, h1 = on.at(b, s)
        y, h2 = off.at(b, s)
        return undefs(y)[:2], undefs(x)[:2], h1 | h2

    def zero(b, s):
        y, h = off.at(b, s)
        return y[2:], ([0] * len(y[2]),) if len(y) == 3 else (), h

    def sym(b, s):
        y, h = on.at(b, s)
        y = undefs(y)
        if len(y) != 3 or len(y[2]) != 9:
            return y, y if len(y) != 3 else "nine components", h
        t = y[2]
        return [t[1], t[2], t[5]], [t[3], t[6], t[7]], h
    ck.same("gravity is the same with and without the gradient", draws(grav),
            "the two value graphs are equal", WHERE)
    ck.same("the gradient is zero when it is switched off", draws(zero), "every component of the graph is zero", WHERE)
    ck.same("the gradient tensor is symmetric", draws(sym), "components (i,j) and (j,i) are equal", WHERE)
    # the default is gravity only
    I = k.I
    k.clear()
    r = I.call(I.getattr(k.poly, "get_gravity"), [k.obs(), tt.sym("rho"), tt.sym("Gc")], {})
    d = off
    if isinstance(r, tuple) and len(r) == 2 and d.G is not None:
        g, t = flat(I, r[0]), flat(I, r[1])

        def dflt(b, s):
            env = d.env(b, s)
            x, h = ev(env, g + t)
            y, h2 = ev(env, d.G + d.T)
            return x, y, h | h2
        ck.same("without the switch only gravity is computed", draws(dflt), "default arguments give the same graph", WHERE)
    k.clear()
    ck.saw(I)


def c11(ck):
    k = fresh(ck)
    run = Run(k, True)
    if run.G is None or run.T is None or len(run.T) != 9:
        ck.add("gradient is the derivative", OPEN, "", WHERE, "no 3x3 tensor")
        return
    D = [[tt.diff(g, tt.sym(f"o{j}")) for j in range(3)] for g in run.G]
    extra = foreign_fns(run.G + run.T)
    for i in range(3):
        for j in range(3):
            def draws():
                for s in range(ck.draws(4, 20)):
                    def one(s=s):
                        r = rng(ck.seed, "c11", i, j, s)
                        b = body(r, "generic" if s % 2 else f"generic@{r.randrange(ALIGNED)}")
                        env = run.env(b, s, none=True)
                        x, h = ev(env, [run.T[3 * i + j]])
                        y, h2 = ev(env, [tt.mul(D[i][j], 10 ** 4)])
                        return x, y, h | h2 | extra, f"body {s}"
                    yield one
            ck.same(f"T{'xyz'[i]}{'xyz'[j]} is the derivative of G{'xyz'[i]} along {'xyz'[j]}, in E", draws(),
                    "symbolic derivative of the gravity graph equals the gradient graph times 1e-4", WHERE)
    ck.saw(k.I)


# --------------------------------------------------------------- histories
def state_terms(I, poly):
    """public geometry of a body: vertices, and per face its vertices, corner indices and outward normal"""
    out = {}
    a = I.force(poly.attrs.get("points"))
    if isinstance(a, Arr):
        out["points"] = a
    fs = poly.attrs.get("faces")
    if isinstance(fs, LList) and len(fs.items) == 1 and isinstance(fs.items[0], Splice) and len(fs.items[0].items) == 1:
        f = I.resolve(fs.items[0].items[0])
        if isinstance(f, Obj):
            for nm in ("points", "un", "simplex"):
                x = I.force(f.attrs.get(nm))
                if isinstance(x, Arr):
                    out["face " + nm] = x
            es = I.resolve(f.attrs.get("edges"))
            for q, e in enumerate(es.items if isinstance(es, LList) else ()):
                e = I.resolve(e)
                for nm in ("start", "end", "vector", "length"):
                    x = I.force(e.attrs.get(nm)) if isinstance(e, Obj) else None
                    if isinstance(x, (Arr, tt.T)):
                        out[f"edge {q} {nm}"] = x if isinstance(x, Arr) else I.arr(oarr([x]), None, "f8")
    return out


def online(b, r, s):
    """coordinates of station a: on the line of an edge, beyond either end"""
    for _ in range(1000):
        p, q = r.sample(b.hull, 2)
        t = r.randrange(2, P)
        u = vsub(b.P[q], b.P[p])
        if legendre(t) > 0 and (legendre(t + 1) > 0) == (s % 2 == 0) and legendre(vdot(u, u)) > 0:
            return {tt.sym(f"a{c}"): x for c, x in enumerate(vadd(b.P[p], vscale(t, u)))}
    raise BadSample("no edge")


def c04(ck):
    k0 = Kernel()
    refs = {g: Run(k0, g) for g in (True, False)}
    combos = [(True, True), (True, False), (False, True), (False, False)]
    for fault in (False, True):
        for g1, g2 in combos:
            k = Kernel()
            I = k.I
            I.faults = fault
            nf = len(I.fault_conds)
            first = Run(k, g1, name="a", rho=tt.sym("rho_a"), Gc=tt.sym("Gc_a"))
            before = None if first.G is None or first.T is None else list(first.G + first.T)
            faults = {c: False for c in I.fault_conds[:nf]}
            faults.update({c: True for c in I.fault_conds[nf:]})
            I.faults = False
            what = "a failed evaluation" if fault else "an earlier evaluation"
            name = f"{what} (gradient={g1}) leaves no trace in the next one (gradient={g2})"
            if fault and not any(faults.values()):
                ck.add(name, OK, "no loop that could fail midway", WHERE)
                continue
            second, ref = Run(k, g2), refs[g2]

            def draws():
                for kind, s, r in bodies(ck, ("c04", fault, g1, g2), ck.draws(2)):
                    def one(kind=kind, s=s, r=r):
                        b = body(r, kind)
                        env = second.env(b, s, extra=faults, soft=True)
                        x, h = second.value(env)
                        y, h2 = ref.at(b, s)
                        x, y = undefs(x), undefs(y)
                        if x != y and h and len(y) == 3:
                            # the fresh body delivers a result: whether or not the later call raises (which may
                            # be undecided), any other number it delivers is a trace of the earlier one
                            g, hg = ev(env, second.G + second.T)
                            if not hg and "undef" not in g and g != y[1] + y[2]:
                                return g, y[1] + y[2], h2, f"{kind} body {s}"
                        return x, y, h | h2, f"{kind} body {s}"
                    yield one
            st = ck.same(name, draws(),
                         "value graph of the later call equals the graph of the call on a fresh body" +
                         ("; the earlier call stopped at an arbitrary point of its loop" if fault else ""), WHERE)
            ck.saw(I)
            if before is not None and not fault:
                kept = first.arrays()

                def later():
                    for s in range(0 if all(x is y for x, y in zip(before, kept)) else 3):
                        def one(s=s):
                            env = second.env(body(rng(ck.seed, "c04", s)), s, soft=True)
                            (x, h), (y, h2) = ev(env, before), ev(env, kept)
                            return y, x, h | h2, f"generic body {s}"
                        yield one
                    yield lambda: (0, 0, set(), "the same terms")
                ck.same(f"results handed out (gradient={g1}) are not changed by a later call (gradient={g2})", later(),
                        "the returned arrays have, after the later call, the value they had before", WHERE)
            if st == BAD:
                break
    # calls that differ in some of their arguments only
    S = tt.sym
    pairs = [("at the same point with another density", "o", dict(rho=S("rho_a")), False),
             ("at the same point with another constant", "o", dict(Gc=S("Gc_a")), False),
             ("at the same point", "o", {}, False),
             ("at another point", "a", {}, False),
             ("on the line of an edge", "a", {}, False),
             ("with the array that held another point", "a", {}, True)]
    for what, at, kw, reuse in pairs:
        for g1, g2 in (combos if what == "at the same point" else combos[::3]):
            def go():
                k = Kernel()
                I = k.I
                arr = k.obs(at) if reuse else None
                Run(k, g1, name=at, arr=arr, **kw)
                if reuse:
                    I.arrstore(arr, k.obs("o").a)
                second, ref = Run(k, g2, arr=arr), refs[g2]

                def draws():
                    for kind, s, r in bodies(ck, ("c04", what, g1, g2), 4 if "line of" in what else 1,
                                             ("generic", "plane", "line+", "line-") if what == "at the same point" else
                                             ("generic",) if "line of" in what else ("generic", "plane")):
                        def one(kind=kind, s=s, r=r):
                            b = body(r, kind)
                            x, h = second.value(second.env(b, s, extra=online(b, r, s) if "line of" in what else None,
                                                           soft=True))
                            y, h2 = ref.at(b, s)
                            return undefs(x), undefs(y), h | h2, f"{kind} body {s}"
                        yield one
                ck.same(f"an earlier evaluation {what} (gradient={g1}) leaves no trace (gradient={g2})", draws(),
                        "value graph of the later call equals the graph of the call on a fresh body", WHERE)
            ck.guard(what, "value graph of the later call equals the graph of the call on a fresh body", go)


# ------------------------------------------------------------ who may write what
def feasible(run_env, e):
    """does an event lie on a path some draw takes (None: cannot be told)"""
    facts = list(e["path"]) + ([tt.notc(e["exc"])] if e["exc"] is not tt.FALSE else [])
    hits = set()
    ok = True
    for f in facts:
        v, h = value(run_env, f)
        if v is False:
            return False
        if v is not True:
            return None
        hits |= h
    return True if not hits else None


def writes(ck, I, start, name, rule, envs, where):
    """no event 'mutate' since start on a path that can be taken"""
    bad, opened = [], []
    for e in I.events[start:]:
        if e["kind"] != "mutate":
            continue
        got = set()
        for env, ctx in envs:
            idx = [i for i in e["ctx"]]
            for i in idx:
                env.bind[i] = 0
            try:
                got.add(feasible(env, e))
            except BadSample:
                pass
            finally:
                for i in idx:
                    env.bind.pop(i, None)
        at = f"{e['loc'][1]} writes the {e['label']}"
        if True in got:
            bad.append(at)
        elif None in got:
            opened.append(at)
    if bad:
        return ck.add(name, BAD, rule, where, "; ".join(sorted(set(bad))))
    if opened:
        return ck.add(name, OPEN, rule, where, "; ".join(sorted(set(opened))))
    return ck.add(name, OK, rule, where)


def protect(I, arr, label):
    from .values import root
    I.protected[id(root(arr.a))] = label
    return arr


def c06(ck):
    rule = "no store reaches the memory of the array on any path"
    for grad in (True, False):
        k = Kernel(protect="vertex array passed by the caller")
        I = k.I
        k0, n0 = len(I.events), 0
        obs = protect(I, k.obs("o"), "station array passed by the caller")
        before = {n: list(a.a.reshape(-1)) for n, a in state_terms(I, k.poly).items()}
        run = Run(k, grad, arr=obs)
        after = state_terms(I, k.poly)
        b0 = [body(r, kind) for kind, s, r in bodies(ck, "c06", 1)]
        envs = [(run.env(b, 0, none=True), None) for b in b0]
        writes(ck, I, n0, f"the caller's arrays are only read (gradient={grad})", rule, envs, WHERE)
        for nm in before:
            if nm not in after:
                continue
            x, y = [tt.tm(t) for t in before[nm]], [tt.tm(t) for t in after[nm].a.reshape(-1)]

            def draws():
                for kind, s, r in bodies(ck, ("c06", nm), 1):
                    def one(kind=kind, s=s, r=r):
                        env = run.env(body(r, kind), s, none=True)
                        out = [[], []]
                        hits = set()
                        for f in range(env.K):
                            env.bind[tt.index("F")] = f
                            env.bind[tt.index("P")] = f % env.count("P")
                            for q, ts in enumerate((x, y)):
                                v, h = ev(env, ts)
                                out[q] += v
                                hits |= h
                        return out[1], out[0], hits, f"{kind} body {s}"
                    yield one
            ck.same(f"evaluating leaves the body's {nm} as they were (gradient={grad})", draws(),
                    "the attribute's graph after the call equals the graph before it", WHERE)
        # through a station
        n1 = len(I.events)
        k.clear()
        S = I.get("geec.station:Station")
        c = protect(I, k.obs("o"), "station array passed by the caller")
        st = I.call(S, [c], {})
        lst = LList([k.poly], I.ctx, "list")
        I.call(I.getattr(I.resolve(st), "compute_gravity"), [lst, tt.sym("rho"), tt.sym("Gc"), grad], {})
        k.clear()
        writes(ck, I, n1, f"a station only reads the arrays it was given (gradient={grad})", rule, envs,
               "geec/station.py:Station.compute_gravity")
        ck.require(f"the list of bodies is left as it was (gradient={grad})",
                   len(lst.items) == 1 and lst.items[0] is k.poly, "the list's items are the same objects afterwards",
                   "geec/station.py:Station.compute_gravity", "the list passed by the caller was changed")
        ck.saw(I)


def c09(ck):
    rule = "graph of a face with a value received from its neighbour equals the graph of the face computing it itself"
    for grad in (True, False):
        k = Kernel()
        run = Run(k, grad)
        if not run.sts:
            ck.add(f"values are not shared between faces (gradient={grad})", OK, "no face stores a value on another", WHERE)

        def draws(f):
            for kind, s, r in bodies(ck, ("c09", grad), ck.draws(2)):
                def one(kind=kind, s=s, r=r):
                    return f(body(r, kind), s, r) + (f"{kind} body {s}",)
                yield one

        def reuse(b, s, r):
            x, h1 = run.at(b, s)
            y, h2 = run.at(b, s, none=True)
            return undefs(x), undefs(y), h1 | h2

        def order(b, s, r):
            orders = [list(range(b.nF)) for _ in range(4)]
            orders[1].reverse()
            for o in orders[2:]:
                r.shuffle(o)
            x, h1 = run.at(b, s, order=orders[0])
            for o in orders[1:]:
                y, h2 = run.at(b, s, order=o)
                if undefs(x) != undefs(y):
                    return undefs(y), undefs(x), h1 | h2
            return 0, 0, set()

        def done(b, s, r):
            x, h = run.at(b, s)
            return undefs(x) == ("no result",), False, h
        ck.same(f"reusing a shared edge's integral changes nothing (gradient={grad})", draws(reuse), rule, WHERE)
        ck.same(f"every face gets its edges' integrals (gradient={grad})", draws(done), "the graph has a value for a station off edges and corners",
                WHERE)
        ck.same(f"the order in which faces are handled does not matter (gradient={grad})", draws(order), rule, WHERE)
        ck.saw(k.I)


def c08(ck):
    k = Kernel()
    I = k.I
    run = Run(k, True)

    def shuffled(b, r):
        """the same body, its corners and facets listed in another order"""
        import copy
        pv, pf = list(range(b.nP)), list(range(b.nF))
        r.shuffle(pv)
        r.shuffle(pf)
        c = copy.copy(b)
        c.P = [None] * b.nP
        for v in range(b.nP):
            c.P[pv[v]] = b.P[v]
        c.R = [vsub(x, c.o) for x in c.P]
        c.hull = [pv[v] for v in b.hull]
        c.simp, c.neigh = {}, {}
        for f in range(b.nF):
            ks = list(range(3))
            r.shuffle(ks)
            for q, k_ in enumerate(ks):
                c.simp[(pf[f], q)] = pv[b.simp[(f, k_)]]
                c.neigh[(pf[f], q)] = pf[b.neigh[(f, k_)]]
        vs = list(c.hull)
        r.shuffle(vs)
        c.vert = {(k,): v for k, v in enumerate(vs)}
        return c, lambda g, t: (g, t)
    transform(ck, run, "the order in which corners are listed does not matter", shuffled,
              "the graph is invariant under permutations of the corners of the body and of its facets")

    st = state_terms(I, k.poly)
    if "face un" in st and "face points" in st:
        un = [tt.tm(x) for x in st["face un"].a.reshape(-1)]
        pts = [tt.tm(x) for x in st["face points"].a.reshape(-1)]

        def draws(f):
            for kind, s, r in bodies(ck, "c08", ck.draws(3)):
                def one(kind=kind, s=s, r=r):
                    b = body(r, kind)
                    env = run.env(b, s, none=True)
                    x, y, h = [], [], set()
                    for face in range(b.nF):
                        env.bind[tt.index("F")] = face
                        n, h1 = ev(env, un)
                        p, h2 = ev(env, pts)
                        h |= h1 | h2
                        if "undef" in n + p or len(p) != 9 or len(n) != 3:
                            return "undefined", "a triangle and its normal", h, f"{kind} body {s}"
                        got, want = f(b, face, n, [p[0:3], p[3:6], p[6:9]])
                        x.append(got)
                        y.append(want)
                    return x, y, h, f"{kind} body {s}"
                yield one

        def outward(b, face, n, p):
            vs, nn = b.outward(face)
            return n, vscale(inv(froot(vdot(nn, nn))), nn)

        def ccw(b, face, n, p):
            vs, nn = b.outward(face)
            q = vcross(vsub(p[1], p[0]), vsub(p[2], p[0]))
            return q, nn

        def corners(b, face, n, p):
            return sorted(p), sorted(b.P[b.simp[(face, k)]] for k in range(3))
        w = "geec/polyhedron.py:Polyhedron"
        ck.same("each face's normal is the outward unit normal", draws(outward),
                "normal's graph equals the cross product turned away from the other corner, over its length", w)
        ck.same("each face's corners run counterclockwise seen from outside", draws(ccw),
                "cross product of the stored corners equals the outward cross product", w)
        ck.same("each face's corners are those of the hull's facet", draws(corners), "same set of points", w)
    ck.saw(I)


# ------------------------------------------------------------------- stations
SW = "geec/station.py:Station.compute_gravity"


class Stations:
    """stations and bodies, the bodies' fields uninterpreted"""

    def __init__(self):
        from .interp import Interp
        from .poly import STUBS
        self.I = I = Interp(stubs=STUBS)
        self.S = I.get("geec.station:Station")
        self.P = I.get("geec.polyhedron:Polyhedron")

    def body(self, name):
        I = self.I
        i = tt.index("P" + name)
        return I.resolve(I.call(self.P, [I.arr(oarr([[tt.fn("P" + name, i, c) for c in range(3)]]), (i, None), "f8")], {}))

    def station(self, name):
        I = self.I
        self.clear()
        return I.resolve(I.call(self.S, [I.arr(oarr([tt.sym(f"{name}{c}") for c in range(3)]), None, "f8")], {}))

    def clear(self):
        self.I.setcell(self.I.exc, "c", tt.FALSE)
        self.I.setcell(self.I.exc, "v", None)

    def compute(self, st, what, rho, Gc, *grad):
        I = self.I
        self.clear()
        I.call(I.getattr(st, "compute_gravity"), [what, rho, Gc] + list(grad), {})
        e = I.exc["c"]
        self.clear()
        return e

    def list(self, *items):
        return LList(list(items), self.I.ctx, "list")

    def result(self, st):
        I = self.I
        g, t = flat(I, I.getattr(st, "G")), flat(I, I.getattr(st, "T"))
        if g is None or t is None:
            raise Gone("Station.G, Station.T")
        return g + t

    def field(self, body, name, rho, Gc, grad):
        """what the body does at the station: density, constant and switch as given"""
        I = self.I
        from .poly import stub_gravity
        n = len(I.events)
        obs = I.arr(oarr([tt.sym(f"{name}{c}") for c in range(3)]), None, "f8")
        g, t = stub_gravity(I, None, [body, obs, rho, Gc, grad])
        del I.events[n:]
        return flat(I, g) + flat(I, t)


def plus(*xs):
    out = list(xs[0])
    for x in xs[1:]:
        out = [tt.add(a, b) for a, b in zip(out, x)]
    return out


def c05(ck):
    r1, r2, G1, G2 = (tt.sym(x) for x in ("rho", "rho2", "Gc", "Gc2"))

    def cmp(name, s, got, want, rule, exc=tt.FALSE):
        def draws():
            for d in range(ck.draws(4, 16)):
                def one(d=d):
                    from .evalt import Env
                    env = Env(ck.seed * 1000 + d, K=3)
                    x, h = ev(env, got)
                    e, h3 = value(env, exc)
                    y, h2 = ev(env, want)
                    return (e, x), (False, y), h | h2 | h3, f"draw {d}"
                yield one
        ck.same(name, draws(), rule, SW)
        ck.saw(s.I)

    for grad in (True, False):
        def tag(t):
            return f"{t} (gradient={grad})"
        s = Stations()
        A, B, C = s.body("A"), s.body("B"), s.body("C")
        fld = lambda b, n="o", r=r1, G=G1: s.field(b, n, r, G, grad)
        zero = [tt.tm(0)] * 12
        st = s.station("o")
        cmp(tag("a new station starts from zero"), s, s.result(st), zero, "initial graphs are zero")
        e = s.compute(st, s.list(), r1, G1, grad)
        cmp(tag("no body, no field"), s, s.result(st), zero, "graph of an empty list", e)
        st = s.station("o")
        e = s.compute(st, A, r1, G1, grad)
        one = s.result(st)
        cmp(tag("a single body"), s, one, fld(A), "graph equals the body's field at the station", e)
        st = s.station("o")
        e = s.compute(st, s.list(A), r1, G1, grad)
        cmp(tag("a list of one body"), s, s.result(st), fld(A), "graph equals the body's field at the station", e)
        st = s.station("o")
        e = s.compute(st, s.list(A, B, C), r1, G1, grad)
        cmp(tag("bodies add up"), s, s.result(st), plus(fld(A), fld(B), fld(C)), "graph equals the sum of the fields", e)
        st = s.station("o")
        e = s.compute(st, s.list(C, A, B), r1, G1, grad)
        cmp(tag("the order of the bodies does not matter"), s, s.result(st), plus(fld(A), fld(B), fld(C)),
            "graph equals the sum of the fields", e)
        st = s.station("o")
        e = s.compute(st, s.list(A, A), r1, G1, grad)
        cmp(tag("a body listed twice counts twice"), s, s.result(st), plus(fld(A), fld(A)),
            "graph equals the sum of the fields", e)
        st = s.station("o")
        e = s.compute(st, s.list(A, B), r1, G1, grad)
        e = tt.orc(e, s.compute(st, C, r2, G2, grad))
        cmp(tag("successive calls add up"), s, s.result(st), plus(fld(A), fld(B), fld(C, r=r2, G=G2)),
            "graph equals the sum of the fields, each with its own density and constant", e)
        st1, st2 = s.station("o"), s.station("q")
        e = s.compute(st1, A, r1, G1, grad)
        e = tt.orc(e, s.compute(st2, B, r2, G2, grad))
        cmp(tag("stations do not disturb each other: the later one"), s, s.result(st2), fld(B, "q", r2, G2),
            "graph equals the field at that station", e)
        cmp(tag("stations do not disturb each other: the earlier one"), s, s.result(st1), fld(A),
            "graph equals the field at that station", e)
        # the same station asks the same body again
        for what, calls in (("with another density and constant", ((A, r1, G1, grad), (A, r2, G2, grad))),
                            ("with another density", ((A, r1, G1, grad), (A, r2, G1, grad))),
                            ("with another constant", ((A, r1, G1, grad), (A, r1, G2, grad))),
                            ("in the same way", ((A, r1, G1, grad), (A, r1, G1, grad))),
                            ("with the other switch", ((A, r1, G1, grad), (A, r1, G1, not grad))),
                            ("with the other switch and density", ((A, r1, G1, not grad), (A, r2, G1, grad))),
                            ("after another body", ((A, r1, G1, grad), (B, r1, G1, grad), (A, r2, G2, grad)))):
            st = s.station("o")
            e, want = tt.FALSE, zero
            for b, r, G, g in calls:
                e = tt.orc(e, s.compute(st, b, r, G, g))
                want = plus(want, s.field(b, "o", r, G, g))
            cmp(tag(f"a body asked again {what}"), s, s.result(st), want, "graph equals the sum over the calls", e)
        st1, st2 = s.station("o"), s.station("q")
        e = s.compute(st1, A, r1, G1, grad)
        e = tt.orc(e, s.compute(st2, A, r2, G2, grad))
        e = tt.orc(e, s.compute(st1, A, r2, G2, grad))
        cmp(tag("two stations share a body: the first again"), s, s.result(st1), plus(fld(A), fld(A, "o", r2, G2)),
            "graph equals the sum over the calls", e)
        cmp(tag("two stations share a body: the other"), s, s.result(st2), fld(A, "q", r2, G2), "graph equals the field at that station", e)
        # any number of bodies
        s = Stations()
        I = s.I
        j = tt.index("B")
        i = tt.index("P")
        saved, I.ctx = I.ctx, I.ctx + (j,)
        bd = I.resolve(I.call(s.P, [I.arr(oarr([[tt.fn("P", j, i, c) for c in range(3)]]), (i, None), "f8")], {}))
        I.ctx = saved
        st = s.station("o")
        e = s.compute(st, LList([Splice(j, [bd])], I.ctx, "list"), r1, G1, grad)
        cmp(tag("any number of bodies"), s, s.result(st), [tt.summ(j, t) for t in s.field(bd, "o", r1, G1, grad)],
            "graph equals the sum over the bodies of their fields", e)
    # the switch is off by default
    s = Stations()
    A = s.body("A")
    st = s.station("o")
    e = s.compute(st, A, r1, G1)
    cmp("gradient is off by default", s, s.result(st), s.field(A, "o", r1, G1, False), "default arguments", e)
