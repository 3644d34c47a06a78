"""Value graphs of the polyhedron kernel, and draws of closed bodies to interpret them on."""
import json
import os

from . import terms as tt
from .evalt import Env, P, Undef, BadSample, froot, inv, legendre, rng, value
from .interp import Interp
from .values import Arr, PhiV, oarr, root

FAMS = ("F", "V", "P")


def vsub(a, b):
    return [(x - y) % P for x, y in zip(a, b)]


def vadd(a, b):
    return [(x + y) % P for x, y in zip(a, b)]


def vscale(s, a):
    return [s * x % P for x in a]


def vdot(a, b):
    return sum(x * y for x, y in zip(a, b)) % P


def vcross(a, b):
    return [(a[1] * b[2] - a[2] * b[1]) % P, (a[2] * b[0] - a[0] * b[2]) % P, (a[0] * b[1] - a[1] * b[0]) % P]


def sq(x):
    return legendre(x) >= 0


class Body:
    """A closed convex body seen from a station, coordinates in the field.

    R[k]: vertices relative to the station; every length the closed form takes
    the root of is the root of a square.  tris: corners of the facets; extra: further points, inside the body.
    """

    def __init__(self, R, o, r, tris=((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)), extra=()):
        self.nV, self.nP, self.nF = len(R), len(R) + len(extra), len(tris)
        name = list(range(self.nP))         # place of each point in the caller's array
        if extra:
            r.shuffle(name)
        self.o = o
        self.R = [None] * self.nP
        for k, x in enumerate(list(R) + list(extra)):
            self.R[name[k]] = x
        self.P = [vadd(x, o) for x in self.R]
        self.hull = [name[k] for k in range(self.nV)]
        tris = [[name[v] for v in t] for t in tris]
        if extra:
            r.shuffle(tris)
        self.simp = {}
        self.neigh = {}
        for f in range(self.nF):
            vs = list(tris[f])
            r.shuffle(vs)
            for k, v in enumerate(vs):
                self.simp[(f, k)] = v
                self.neigh[(f, k)] = next(g for g in range(self.nF) if g != f and set(vs) - {v} <= set(tris[g]))
        perm = list(self.hull)
        r.shuffle(perm)
        self.vert = {(k,): v for k, v in enumerate(perm)}
        self.rho = r.randrange(1, P)
        self.Gc = r.randrange(1, P)

    def move(self, f, rho=None, Gc=None):
        """same combinatorics, coordinates mapped by f"""
        b = object.__new__(Body)
        b.__dict__.update(self.__dict__)
        b.P = [f(x) for x in self.P]
        b.o = f(self.o)
        b.R = [vsub(x, b.o) for x in b.P]
        if rho is not None:
            b.rho = rho
        if Gc is not None:
            b.Gc = Gc
        return b

    def env(self, seed, extra=None, obs="o"):
        tab = {"P": {(v, c): self.P[v][c] for v in range(self.nP) for c in range(3)},
               "simp": self.simp, "neigh": self.neigh, "vert": self.vert}
        syms = {tt.sym(f"{obs}{c}"): self.o[c] for c in range(3)}
        syms[tt.sym("rho")] = self.rho
        syms[tt.sym("Gc")] = self.Gc
        syms.update(extra or {})
        return Env(seed, K=self.nF, Ks=dict(P=self.nP, V=self.nV), tables=tab, syms=syms)

    def outward(self, f):
        """vertices of face f, counterclockwise seen from outside, and the cross product of its first two edges"""
        v = [self.simp[(f, k)] for k in range(3)]
        p = [self.P[x] for x in v]
        n = vcross(vsub(p[1], p[0]), vsub(p[2], p[0]))
        if next(filter(None, (legendre(vdot(n, vsub(self.P[w], p[0]))) for w in self.hull if w not in v))) > 0:
            v = [v[0], v[2], v[1]]
            n = vscale(-1, n)
        return v, n


def unitish(r):
    """vector whose squared length is a square"""
    u, v, t = r.randrange(P), r.randrange(P), r.randrange(1, P)
    return [2 * u * t % P, 2 * v * t % P, (1 - u * u - v * v) * t % P]


def ok_pair(a, b):
    return sq(vdot(vsub(a, b), vsub(a, b))) and (lambda c: sq(vdot(c, c)))(vcross(a, b))


def ok_tri(a, b, c):
    n = vcross(vsub(b, a), vsub(c, a))
    return sq(vdot(n, n))


LARGER = {}


def larger(r, kind):
    """one of the stored bodies with six faces ("bi" a double pyramid, "py" a pyramid on a quadrangle: two facets in one
    plane), turned, scaled and moved at random, with a point inside it"""
    if not LARGER:
        LARGER.update(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bodies.json"))))
    b = r.choice(LARGER["bodies"][kind])
    while True:
        x = [r.randrange(P) for _ in range(3)]
        n = (1 + vdot(x, x)) % P
        if n:
            break
    i, s = inv(n), pow(r.randrange(1, P), 2, P)

    def turn(v):
        # rotation by Cayley's formula
        c, d = vcross(x, v), vdot(x, v)
        return [s * i * ((1 - vdot(x, x)) * v[k] + 2 * d * x[k] + 2 * c[k]) % P for k in range(3)]
    o = [r.randrange(P) for _ in range(3)]
    return Body([turn(v) for v in b["R"]], o, r, LARGER["mesh"][kind.split()[0]], [turn(v) for v in b["inner"]])


WHATS = ("the normal of a face", "an edge", "the line to a corner", "the normal of the plane through an edge")
ALIGNED = 3 * 6 * len(WHATS)


def aligned(b, r, n):
    """the same scene turned so that something in it is parallel to an axis or a plane of the coordinates, and, for two in
    three, moved so that the station or a corner is at the origin"""
    n, where = n % (6 * len(WHATS)), n // (6 * len(WHATS)) % 3
    what, k, plane = n // 6, n // 2 % 3, n % 2
    v, _ = b.outward(r.randrange(b.nF))
    x, y, z = (b.R[q] for q in v)
    for _ in range(100):
        w = (vcross(vsub(y, x), vsub(z, x)), vsub(y, x), x, vcross(x, y))[what]
        if any(w):
            break
        x, y, z = y, z, x
    else:
        raise BadSample("nothing to align")
    u = vscale(inv(froot(vdot(w, w))), w)
    while True:
        t = [0, 0, 0]
        t[k] = r.choice((1, P - 1))
        if plane:
            m = r.randrange(2, P)
            i = inv(1 + m * m) if (1 + m * m) % P else 0
            t = [0, (1 - m * m) * i % P, 2 * m * i % P]
            t = t[-k:] + t[:-k]
        d = vsub(u, t)
        q = [r.randrange(P) for _ in range(3)]
        q = vsub(q, vscale(vdot(q, t), t))
        if vdot(d, d) and vdot(q, q) and vdot(t, t) == 1:
            break

    def turn(x):
        # two reflections: u to t, then one that keeps t
        for e in (d, q):
            x = vsub(x, vscale(2 * vdot(x, e) * inv(vdot(e, e)) % P, e))
        return x
    c = b.move(turn)
    if where:
        s = c.o if where == 1 else c.P[v[r.randrange(3)]]
        c = c.move(lambda x: vsub(x, s))
    return c


def body(r, kind="generic"):
    """draw a body; kind: generic | plane (station in the plane of a face, off its edges)
    | line+ / line- (station on the line of an edge, nearer its first / second end) | edge | vertex
    ... @n: aligned with the coordinate axes in one of several ways"""
    if "@" in kind:
        kind, n = kind.split("@")
        return aligned(body(r, kind), r, int(n))
    if " " in kind:
        return larger(r, kind)
    for _ in range(200000):
        R = [unitish(r)]
        if kind == "vertex":
            R = [[0, 0, 0]]
        for k in range(1, 4):
            for _ in range(4000):
                if k == 1 and kind in ("line+", "line-", "edge"):
                    s = r.randrange(2, P)
                    if (legendre(s) > 0) == (kind == "edge") or \
                            kind != "edge" and (legendre(s - 1) > 0) != (kind == "line+"):
                        continue
                    x = vscale(s, R[0])
                elif k == 2 and kind == "plane":
                    x = vadd(vscale(r.randrange(1, P), R[0]), vscale(r.randrange(1, P), R[1]))
                    if not sq(vdot(x, x)):
                        continue
                else:
                    x = unitish(r)
                if all(ok_pair(x, y) for y in R) and \
                        all(ok_tri(x, R[i], R[j]) for i in range(k) for j in range(i)):
                    R.append(x)
                    break
            else:
                break
        if len(R) < 4:
            continue
        if vdot(vcross(vsub(R[1], R[0]), vsub(R[2], R[0])), vsub(R[3], R[0])) == 0:
            continue
        o = [r.randrange(P) for _ in range(3)]
        return Body(R, o, r)
    raise RuntimeError("no draw found for " + kind)


class Kernel:
    """The public entry points of the kernel, interpreted once for a symbolic body and station."""

    def __init__(self, faults=False, opts=None, protect=None):
        self.I = I = Interp(faults=faults, opts=opts or {})
        C = I.get("geec.polyhedron:Polyhedron")
        i = tt.index("P")
        self.points = I.arr(oarr([[tt.fn("P", i, c) for c in range(3)]]), (i, None), "f8")
        if protect:
            I.protected[id(root(self.points.a))] = protect
        self.poly = I.resolve(I.call(C, [self.points], {}))
        self.exc0 = I.exc["c"]
        self.clear()

    def clear(self):
        """continue on the executions where nothing was raised"""
        I = self.I
        I.setcell(I.exc, "c", tt.FALSE)
        I.setcell(I.exc, "v", None)

    def obs(self, name="o"):
        return self.I.arr(oarr([tt.sym(f"{name}{c}") for c in range(3)]), None, "f8")

    def gravity(self, gradient=True, obs=None, rho=None, Gc=None, poly=None):
        """(graph of the gravity vector, of the tensor, condition under which the call raises)"""
        I = self.I
        self.clear()
        f = I.getattr(poly or self.poly, "get_gravity")
        r = I.call(f, [obs or self.obs(), tt.sym("rho") if rho is None else rho, tt.sym("Gc") if Gc is None else Gc,
                       gradient], {})
        e = I.exc["c"]
        m = I.push(tt.notc(e))
        r = I.resolve(r)
        I.pop(m)
        self.clear()
        return r, e


def flat(I, v):
    """terms of an array value"""
    v = I.force(v)
    if isinstance(v, Arr):
        return [tt.tm(x) for x in v.a.reshape(-1)]
    return None


# ------------------------------------------------------------------ oracle
def reference(b, env):
    """gravity (mGal) and gradient (E) of the uniform body b, in closed form.

    Per face with outward unit normal n, distance d along n, solid angle w and
    edge integrals I_e = int ds/r:  s = n w + (sum u_e I_e) x n ;
    g = -rho G 1e5 sum d s ;  T_ij = rho G 1e9 sum s_i n_j.
    Written from the formulas, not from the code.
    """
    pi = env.num(tt.PI)

    def acos(x):
        return (pi * inv(2) - env._odd("asin", x)) % P
    g = [0, 0, 0]
    T = [0] * 9
    for f in range(b.nF):
        vs, nn = b.outward(f)
        n = vscale(inv(froot(vdot(nn, nn))), nn)
        R = [vsub(b.P[v], b.o) for v in vs]
        r = [froot(vdot(x, x)) for x in R]
        d = vdot(n, R[0])
        w = 0
        if d:
            for i in range(3):
                A = vcross(R[i], R[(i + 1) % 3])
                B = vcross(R[(i + 1) % 3], R[(i + 2) % 3])
                c = -vdot(A, B) * inv(froot(vdot(A, A)) * froot(vdot(B, B))) % P
                w += acos(c)
            w = -(w - pi) * legendre(d) % P
        q = [0, 0, 0]
        for i in range(3):
            a, e = R[i], R[(i + 1) % 3]
            ra, re = r[i], r[(i + 1) % 3]
            L = vsub(e, a)
            ll = froot(vdot(L, L))
            along = vdot(a, L) * inv(ll) % P
            if vcross(a, e) == [0, 0, 0]:
                if legendre(vdot(a, e)) <= 0:
                    raise Undef("station on an edge")
                integral = env._log(re * inv(ra) % P) if legendre(vdot(a, L)) > 0 else env._log(ra * inv(re) % P)
            else:
                integral = env._log((re + ll + along) * inv(ra + along) % P)
            q = vadd(q, vscale(integral * inv(ll), L))
        s = vadd(vscale(w, n), vcross(q, n))
        k = b.rho * b.Gc
        g = vadd(g, vscale(-k * 10 ** 5 * d, s))
        for i in range(3):
            for j in range(3):
                T[3 * i + j] = (T[3 * i + j] + k * 10 ** 9 * s[i] * n[j]) % P
    return g, T


# ------------------------------------------------- faces handled one after another
class FoldEnv(Env):
    """Interprets a loop over the faces in an order, delivering what one face stores on another.

    The graph of one face mentions, for every attribute other faces may store on
    it, a gate (has it been stored) and the stored values; messages are computed
    from the stores recorded by the analysis, face after face.
    """

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.face = None         # index symbol of the loop over the faces
        self.msg = {}            # token -> {symbol: value}
        self.alias = set()

    def _under(self, i, k, body):
        if i is not self.face or k not in self.msg:
            return super()._under(i, k, body)
        saved = {}
        for s, v in self.msg[k].items():
            saved[s] = self.bind.get(s)
            self.bind[s] = v
        try:
            return super()._under(i, k, body)
        finally:
            for s, v in saved.items():
                if v is None:
                    del self.bind[s]
                else:
                    self.bind[s] = v


def stores(I, start=0):
    """stores of one element of a family on another one, as recorded by the analysis"""
    keys = {(p["obj"].uid, p["attr"]): p for p in I.pushes.values()}
    out = []
    for e in I.events[start:]:
        if e["kind"] != "foreign_write":
            continue
        m = getattr(e["obj"], "mirror", None)
        if m is None:
            continue
        p = keys.get((m[0].uid, e["attr"]))
        if p is None:
            continue
        vals = I.scalars(e["value"])
        if len(vals) != len(p["syms"]):
            continue
        out.append((p, m, vals, e))
    return out


def fold_env(I, b, seed, sts, order=None, none=False, obs="o", extra=None, soft=False, eps=0):
    e0 = b.env(seed, extra, obs)
    env = FoldEnv(seed, K=e0.K, Ks=e0.Ks, tables=e0.tables, syms=e0.syms)
    env.soft = soft
    env.bind[tt.EPS] = eps
    off = {p["cond"]: False for p in I.pushes.values()}
    if none or not sts:
        env.syms.update(off)
        return env
    idx = {p["i"] for p, _, _, _ in sts}
    if len(idx) != 1:
        env.syms.update(off)
        return env
    i = env.face = next(iter(idx))
    env.msg = {k: dict(off) for k in range(b.nF)}
    done = set()
    for k in order or range(b.nF):
        env.bind[i] = k
        for s, v in env.msg[k].items():
            env.bind[s] = v
        for p, m, vals, e in sts:
            if e["exc"] is not tt.FALSE and env.ev(e["exc"]):
                continue
            if not all(env.ev(f) for f in e["path"]):
                continue
            to = env.ev(m[2])
            if to == k:
                env.alias.add(f"?an element of the collection written through another name ({e['loc'][1]})")
                continue
            if to in done or to not in env.msg:
                continue
            try:
                vs = [env.ev(v) for v in vals]
            except Undef:
                vs = None
            env.msg[to][p["cond"]] = True
            for s, v in zip(p["syms"], vs or ["undef"] * len(vals)):
                env.msg[to][s] = v
        done.add(k)
        for s in env.msg[k]:
            env.bind.pop(s, None)
        del env.bind[i]
    return env


# ------------------------------------------------- bodies as uninterpreted fields
def stub_body(I, cls, args, kw):
    """a body known only by its vertices: its field is an uninterpreted function of them"""
    from .values import Obj
    o = Obj(cls, I.ctx)
    a = list(args) + list(kw.values())
    pts = I.force(a[0]) if a else None
    if not isinstance(pts, Arr):
        I.raise_("KeyError")
        pts = I.arr(oarr([[I.opq("points", pts)] * 3]), None, "f8")
    I.setcell(o.attrs, "points", pts)
    I.event("body", obj=o, points=pts)
    return o


def body_key(I, pts):
    """stands for the set of the vertices: their order, and whether one is listed twice in a row, is of no account"""
    fams = [f for f in (pts.fam or ()) if f is not None]
    if pts.a.ndim == 2 and not any((pts.fam or (None,))[1:]):
        k = tt.const(0)
        for r in pts.a:
            k = tt.add(k, tt.fn("pts", *[tt.tm(x) for x in r]))
        for f in fams:
            k = tt.summ(f, k)
        return k
    k = tt.fn("pts", *[tt.tm(x) for x in pts.a.reshape(-1)])
    for f in fams:
        k = tt.lam(f, [k])
    return k


def stub_gravity(I, f, args):
    o, obs, rho, Gc, grad = (list(args) + [False])[:5]
    pts = I.force(I.getattr(o, "points"))
    obs = I.force(obs)
    if not isinstance(obs, Arr) or obs.a.size != 3 or not isinstance(pts, Arr):
        ob = [I.opq("station coordinates", obs)] * 3
    else:
        ob = [tt.tm(x) for x in obs.a.reshape(-1)]
    key = body_key(I, pts)
    g = I.truth(grad)
    rho, Gc = (tt.tm(I.force(x)) if not isinstance(I.force(x), Arr) else I.opq("density", x) for x in (rho, Gc))
    I.event("gravity", key=key, obs=ob, rho=rho, Gc=Gc, grad=g)
    G = oarr([tt.mul(tt.mul(rho, Gc), tt.fn("polyG", key, *ob, c)) for c in range(3)])
    T = oarr([[tt.phi(g, tt.mul(tt.mul(rho, Gc), tt.fn("polyT", key, *ob, min(a, b), max(a, b))), 0) for b in range(3)]
              for a in range(3)])
    return (I.arr(G, None, "f8"), I.arr(T, None, "f8"))


STUBS = {"Polyhedron": stub_body, "Polyhedron.get_gravity": stub_gravity}
