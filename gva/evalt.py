"""Random interpretation of value graphs (Gulwani & Necula).

Two nodes of the value graph are compared by interpreting the *graph* (not the
program) over a large prime field: arithmetic is exact, library functions are
uninterpreted (pseudo-random but functional), square roots are exact field
roots, the sign of an element is its quadratic character (multiplicative, odd,
and +1 on squares), a gamma node follows its condition, a loop node is folded
over K anonymous elements.  Two graphs which denote the same function agree for
every choice; two which differ disagree except with negligible probability
(about degree/p per draw, p ~ 2**60), provided the draw takes the gates on
which they differ; the callers draw for every gate configuration they claim.
"""
import hashlib
import random
import sys
from fractions import Fraction

from . import terms as tt
from .terms import T

sys.setrecursionlimit(200000)

P = 1359060920502314279  # prime, 7 mod 8; 2, 3, 5, ... 47 are squares mod P


class Undef(Exception):
    """division by zero, log of zero, ... in the interpreted graph"""


class BadSample(Exception):
    """draw outside the real domain (root of a non-square): draw again"""


LOSSY = {"round", "floor", "ceil", "int", "trunc", "float32", "id", "hash", "rint", "float16", "isclose",
         "str:fmt", "floordiv", "mod"}


def legendre(x):
    x %= P
    if x == 0:
        return 0
    return 1 if pow(x, (P - 1) // 2, P) == 1 else -1


def inv(x):
    x %= P
    if x == 0:
        raise Undef("division by zero")
    return pow(x, P - 2, P)


def fld(v):
    if isinstance(v, Fraction):
        return v.numerator * inv(v.denominator) % P
    return v % P


def froot(x):
    """the root of x that is itself a square"""
    x %= P
    if x == 0:
        return 0
    r = pow(x, (P + 1) // 4, P)
    if r * r % P != x:
        raise BadSample()
    return r if legendre(r) == 1 else P - r


class Env:
    def __init__(self, seed, K=3, Ks=None, tables=None, syms=None, over=None):
        self.seed = str(seed)
        self.K = K
        self.Ks = dict(Ks or {})
        self.tables = {k: dict(v) for k, v in (tables or {}).items()}
        self.syms = dict(syms or {})       # T symbol -> value
        self.over = dict(over or {})       # T node -> value
        self.bind = {tt.EPS: 0}
        self.memo = {}
        self.back = {}
        self._h = {}
        self.lossy = {}
        self.hit = frozenset()             # unmodelled constructs the value depends on
        self.soft = False                  # roots of non-squares: uninterpreted

    def h(self, *key):
        r = self._h.get(key)
        if r is None:
            m = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=16)
            r = int.from_bytes(m.digest(), "big") % P
            self._h[key] = r
        return r

    def clone(self):
        e = Env(self.seed, self.K, self.Ks, self.tables, self.syms, self.over)
        e._h = self._h
        e.soft = self.soft
        return e

    def count(self, fam):
        return self.Ks.get(fam, self.K)

    # ------------------------------------------------------------------
    def ev(self, t):
        if not isinstance(t, T):
            t = tt.tm(t)
        if t.op == "c":
            return self._const(t.args[1])
        rel = tuple((b.id, v) for b, v in self.bind.items() if b in t.fs)
        key = (t.id, rel)
        m = self.memo.get(key)
        if m is not None:
            self.hit |= m[1]
            if isinstance(m[0], Exception):
                raise m[0]
            return m[0]
        outer, self.hit = self.hit, frozenset()
        try:
            r = self._ev(t)
        except (Undef,) as e:
            self.memo[key] = (e, self.hit)
            raise
        else:
            self.memo[key] = (r, self.hit)
            return r
        finally:
            self.hit = outer | self.hit

    def _const(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return fld(v)
        return self.h("const", v)

    def num(self, t):
        v = self.ev(t)
        return int(v) if isinstance(v, bool) else v

    def has_lossy(self, t):
        r = self.lossy.get(t)
        if r is None:
            r = t.op == "fn" and t.args[0] in LOSSY
            if not r:
                stack = list(t.args)
                while stack and not r:
                    x = stack.pop()
                    if isinstance(x, T):
                        r = self.has_lossy(x)
                    elif isinstance(x, tuple):
                        stack.extend(x)
            self.lossy[t] = r
        return r

    def _sgn(self, t):
        """sign of a numeric node, with EPS infinitesimal"""
        if self.bind.get(tt.EPS) == 1 and tt.EPS in t.fs:
            self.bind[tt.EPS] = 0
            try:
                return self._sgn(t)
            finally:
                self.bind[tt.EPS] = 1
        v = self.num(t)
        if v == 0 and tt.EPS in t.fs and self.bind.get(tt.EPS) == 0:
            self.bind[tt.EPS] = 1
            try:
                v = self.num(t)
            finally:
                self.bind[tt.EPS] = 0
        return legendre(v)

    def _ev(self, t):
        op, a = t.op, t.args
        if t in self.over:
            return self.over[t]
        if op == "s":
            if t in self.bind:
                if self.bind[t] == "undef":
                    raise Undef(a[0])
                return self.bind[t]
            v = self.syms.get(t)
            if v is not None:
                return v
            name, srt, pos, fam = a
            v = self.h("sym", name)
            if srt == tt.BOOL:
                return bool(v & 1)
            if pos:
                return v * v % P
            return v
        if op == "add":
            return self._add(t)
        if op == "neg":
            return -self.num(a[0]) % P
        if op == "mul":
            x = self.num(a[0])
            y = self.num(a[1])
            return x * y % P
        if op == "div":
            return self.num(a[0]) * inv(self.num(a[1])) % P
        if op == "sqrt":
            x = self.num(a[0])
            try:
                return froot(x)
            except BadSample:
                if self.soft:
                    return self.h("sqrt", x)
                raise
        if op == "abs":
            x = self.num(a[0])
            return x if legendre(x) >= 0 else P - x
        if op == "sign":
            return self._sgn(a[0]) % P
        if op == "log":
            return self._log(self.num(a[0]))
        if op == "acos":
            return (self.num(tt.PI) * inv(2) - self._odd("asin", self.num(a[0]))) % P
        if op == "asin":
            return self._odd("asin", self.num(a[0]))
        if op in ("max", "min"):
            s = self._sgn(tt.sub(a[0], a[1]))
            return self.num(a[0] if (s > 0) == (op == "max") else a[1])
        if op == "gt":
            return self._sgn(tt.sub(a[0], a[1])) > 0
        if op == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            if x == y:
                return True
            if isinstance(x, bool) or isinstance(y, bool):
                return False
            if self.has_lossy(t):
                return bool(self.h("lossyeq", min(x, y), max(x, y)) & 1)
            return False
        if op == "not":
            return not self.ev(a[0])
        if op == "and":
            return bool(self.ev(a[0])) and bool(self.ev(a[1]))
        if op == "phi":
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if op == "sum":
            return sum(self._under(a[0], k, a[1]) for k in range(self.count(a[0].args[3]))) % P
        if op == "any":
            return any(self._under(a[0], k, a[1]) for k in range(self.count(a[0].args[3])))
        if op == "lam":
            vals = [tuple(self._under(a[0], k, b) for b in a[1]) for k in range(self.count(a[0].args[3]))]
            return self.h("lam", tuple(vals))
        if op == "loop":
            return self._loop(t)
        if op == "fn":
            return self._fn(a[0], a[1])
        raise AssertionError(op)

    def _add(self, t):
        # flatten, so that differences of logarithms are taken as one logarithm
        tot, logs, stack = 0, [], [(1, t)]
        while stack:
            c, x = stack.pop()
            if x.op == "add":
                stack.append((c, x.args[1]))
                stack.append((c, x.args[0]))
            elif x.op == "neg":
                stack.append((-c, x.args[0]))
            elif x.op == "log":
                logs.append((c, x))
            else:
                tot += c * self.num(x)
        if len(logs) == 1:
            tot += logs[0][0] * self.num(logs[0][1])
        elif logs:
            prod = 1
            for c, x in logs:
                v = self.num(x.args[0])
                prod = prod * (v if c == 1 else inv(v)) % P
            tot += self._log(prod)
        return tot % P

    def _log(self, x):
        if x == 0:
            raise Undef("log(0)")
        y = inv(x)
        if x == y:
            return 0 if x == 1 else self.h("log", x)
        return self.h("log", x) if x < y else -self.h("log", y) % P

    def _odd(self, name, x):
        if x == 0:
            return 0
        return self.h(name, x) if legendre(x) > 0 else -self.h(name, -x % P) % P

    def _under(self, i, k, body):
        old = self.bind.get(i)
        self.bind[i] = k
        try:
            return self.ev(body)
        finally:
            if old is None:
                del self.bind[i]
            else:
                self.bind[i] = old

    def _loop(self, t):
        i, carries, inits, steps, stop, k = t.args
        state = [self.ev(x) for x in inits]
        saved = {b: self.bind.get(b) for b in (i,) + carries}
        try:
            for tok in range(self.count(i.args[3])):
                self.bind[i] = tok
                for c, v in zip(carries, state):
                    self.bind[c] = v
                halt = self.ev(stop)
                new = []
                for s in steps:
                    try:
                        new.append(self.ev(s))
                    except Undef:
                        new.append(None)
                state = new
                if halt:
                    break
        finally:
            for b, v in saved.items():
                if v is None:
                    self.bind.pop(b, None)
                else:
                    self.bind[b] = v
        if state[k] is None:
            raise Undef("undefined in loop")
        return state[k]

    def _fn(self, name, args):
        if name.startswith("?"):
            self.hit |= {name}
        if name == "len":
            return self.count(args[0].args[1])
        if name in ("?cond", "cond", "fails", "known", "isfile", "in_", "truthy", "isclose") or \
                name.lstrip("?").split(":")[0] in tt.BOOLFN:
            vals = tuple(self.ev(x) for x in args)
            if name == "isclose" and vals[0] == vals[1]:
                return True
            tab = self.tables.get(name)
            if tab is not None and vals in tab:
                return tab[vals]
            return bool(self.h("fnb", name, vals) >> 3 & 1)
        vals = tuple(self.ev(x) for x in args)
        if name.startswith("row:") and name[4:] in tt.REORDER:
            n = self.count(args[0].args[1])
            if vals[1] in range(n):
                if name == "row:reversed":
                    return n - 1 - vals[1]
                r = list(range(n))
                rng("order", self.seed, name).shuffle(r)
                if r == sorted(r) and n > 1:
                    r.reverse()
                return r[vals[1]]
        tab = self.tables.get(name)
        if tab is not None:
            if callable(tab):
                return tab(self, vals)
            if vals in tab:
                return tab[vals]
        if name in ("atan", "sin", "tan", "sinh", "tanh", "atanh", "asinh", "cbrt"):
            return self._odd(name, vals[0])
        if name in ("cos", "cosh"):
            x = vals[0]
            return self.h(name, min(x, P - x))
        if name == "exp":
            return 1 if vals[0] == 0 else self.h("exp", vals[0])
        base, _, comp = name.partition(".")
        if base in FORTH:
            cs = FORTH[base]
            all3 = tuple(self.h("fn", f"{base}.{c}", vals) for c in cs)
            self.back[(base, all3, vals[3:])] = vals[:3]
            return all3[cs.index(comp)]
        if base in BACK:
            x = self.back.get((BACK[base], vals[:3], vals[3:]))
            if x is not None:
                return x["xyz".index(comp)]
        return self.h("fn", name, vals)


# conversions and the exact inverses that undo them
FORTH = {"ecef2geodetic": ("lat", "lon", "alt"), "ecef2enu": ("e", "n", "u")}
BACK = {"geodetic2ecef": "ecef2geodetic", "enu2ecef": "ecef2enu"}


def value(env, t):
    """(value of a node or the marker 'undef', unmodelled constructs it depends on)"""
    env.hit = frozenset()
    try:
        r = env.ev(t)
    except Undef:
        r = "undef"
    return r, env.hit


def rng(*key):
    return random.Random(repr(key))
