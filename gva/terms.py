"""Value-graph terms.

A term is a node of the gated value graph that the abstract interpreter builds
from the source text: arithmetic nodes, uninterpreted library calls, gamma
nodes (``phi(cond, a, b)``, one per control-flow join) and loop nodes (``sum``
and ``loop``, one per loop over a collection of statically unknown length).
Terms are hash-consed, so that structurally equal values are one node.
"""
from fractions import Fraction

NUM, BOOL, STR = "num", "bool", "str"


class T:
    __slots__ = ("op", "args", "id", "fs", "taint", "__weakref__")
    _tab = {}

    def __bool__(self):
        raise TypeError(f"term used as a Python bool: {show(self)}")

    def __repr__(self):
        return show(self)

    # arithmetic sugar (also used by numpy on object arrays)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, neg(o))
    def __rsub__(self, o): return add(o, neg(self))
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __abs__(self): return absv(self)
    def sqrt(self): return sqrt(self)
    def conjugate(self): return self


def _mk(op, args, taint=False):
    key = (op, args)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(T._tab)
        fs = set()
        _collect(args, fs)
        if op == "s":
            fs.add(t)
        elif op in ("sum", "any", "lam"):
            fs.discard(args[0])
        elif op == "loop":
            fs.discard(args[0])
            fs -= set(args[1])
        t.fs = frozenset(fs)
        t.taint = taint or any_taint(args)
        T._tab[key] = t
    return t


def _collect(a, out):
    for x in a:
        if isinstance(x, T):
            out |= x.fs
        elif isinstance(x, tuple):
            _collect(x, out)


def any_taint(a):
    for x in a:
        if isinstance(x, T):
            if x.taint:
                return True
        elif isinstance(x, tuple) and any_taint(x):
            return True
    return False


# ---------------------------------------------------------------- leaves
def sym(name, sort=NUM, pos=False, fam=None):
    """free symbol; fam: the index symbol of a family (collection)"""
    return _mk("s", (name, sort, pos, fam))


def const(v):
    if isinstance(v, float):
        v = frac(v)
    return _mk("c", (type(v).__name__, v))


def frac(v):
    if v != v or v in (float("inf"), float("-inf")):
        return ("special", repr(v))
    f = Fraction(repr(v))
    return int(f) if f.denominator == 1 else f


def is_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)


def tm(v):
    """lift to a term"""
    if isinstance(v, T):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return const(v)


def cv(t):
    """constant value of a term or None"""
    if isinstance(t, T):
        return t.args[1] if t.op == "c" else None
    return t


def isc(t, v):
    if isinstance(t, T):
        return t.op == "c" and not isinstance(t.args[1], bool) and t.args[1] == v \
            and isinstance(t.args[1], (int, Fraction))
    return is_num(t) and t == v


PI = sym("pi", NUM, True)
EPS = sym("eps", NUM, True)
TRUE, FALSE = const(True), const(False)


def opaque(tag, *args, sort=NUM):
    """value the analysis has no model for: comparisons on it stay undecided"""
    return _mk("fn", ("?" + tag, tuple(tm(a) for a in args)), taint=True)


def fn(name, *args):
    return _mk("fn", (name, tuple(tm(a) for a in args)))


# ------------------------------------------------------------ arithmetic
def _num(t):
    v = cv(t)
    return v if isinstance(v, (int, Fraction)) and not isinstance(v, bool) else None


def _n(a):
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, float):
        a = frac(a)
    return a


def add(a, b):
    a, b = tm(_n(a)), tm(_n(b))
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        return tm(x + y)
    if x == 0 and x is not None:
        return b
    if y == 0 and y is not None:
        return a
    if b.op == "neg" and b.args[0] is a or a.op == "neg" and a.args[0] is b:
        return tm(0)
    return _mk("add", (a, b))


def neg(a):
    a = tm(_n(a))
    x = _num(a)
    if x is not None:
        return tm(-x)
    if a.op == "neg":
        return a.args[0]
    return _mk("neg", (a,))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = tm(_n(a)), tm(_n(b))
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        return tm(x * y)
    for u, v in ((x, b), (y, a)):
        if u is not None:
            if u == 0:
                return tm(0)
            if u == 1:
                return v
            if u == -1:
                return neg(v)
    return _mk("mul", (a, b))


def div(a, b):
    a, b = tm(_n(a)), tm(_n(b))
    x, y = _num(a), _num(b)
    if y is not None and y != 0:
        if x is not None:
            return tm(Fraction(x) / y)
        return mul(a, tm(Fraction(1) / y))
    return _mk("div", (a, b))


def power(a, b):
    a, b = tm(_n(a)), tm(_n(b))
    n = _num(b)
    x = _num(a)
    if n is not None:
        if isinstance(n, Fraction) and n == Fraction(1, 2):
            return sqrt(a)
        if isinstance(n, Fraction) and n == Fraction(3, 2):
            return mul(a, sqrt(a))
        if isinstance(n, Fraction) and n == Fraction(-1, 2):
            return div(1, sqrt(a))
        if isinstance(n, int) and x is not None and (x != 0 or n >= 0):
            return tm(Fraction(x) ** n)
        if isinstance(n, int) and abs(n) <= 12:
            r = tm(1)
            for _ in range(abs(n)):
                r = mul(r, a)
            return r if n >= 0 else div(1, r)
    return _mk("fn", ("pow", (a, b)))


def sqrt(a):
    a = tm(_n(a))
    x = _num(a)
    if x is not None and x >= 0:
        f = Fraction(x)
        import math
        p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if p * p == f.numerator and q * q == f.denominator:
            return tm(Fraction(p, q))
    return _mk("sqrt", (a,))


def absv(a):
    a = tm(_n(a))
    x = _num(a)
    if x is not None:
        return tm(abs(x))
    if a.op in ("abs", "sqrt"):
        return a
    if a.op == "neg":
        return absv(a.args[0])
    return _mk("abs", (a,))


def sign(a):
    a = tm(_n(a))
    x = _num(a)
    if x is not None:
        return tm((x > 0) - (x < 0))
    return _mk("sign", (a,))


def log(a):
    a = tm(_n(a))
    if isc(a, 1):
        return tm(0)
    return _mk("log", (a,))


def _unclip(a):
    """acos/asin clamp their argument to [-1, 1] only against rounding"""
    while True:
        if a.op == "max" and isc(a.args[1], -1):
            a = a.args[0]
        elif a.op == "max" and isc(a.args[0], -1):
            a = a.args[1]
        elif a.op == "min" and isc(a.args[1], 1):
            a = a.args[0]
        elif a.op == "min" and isc(a.args[0], 1):
            a = a.args[1]
        elif a.op == "phi" and a.args[0].op in ("gt", "not"):
            c, x, y = a.args
            if c.op == "not":
                c, x, y = c.args[0], y, x
            if c.op != "gt":
                return a
            u, v = c.args
            # gt(u, 1) ? 1 : u      gt(-1, v) ? -1 : v
            if isc(v, 1) and isc(x, 1) and _unclip(y) is _unclip(u):
                a = y
            elif isc(u, -1) and isc(x, -1) and _unclip(y) is _unclip(v):
                a = y
            elif isc(u, 1) and isc(y, 1) and _unclip(x) is _unclip(v):
                a = x
            elif isc(v, -1) and isc(y, -1) and _unclip(x) is _unclip(u):
                a = x
            else:
                return a
        else:
            return a


def acos(a):
    return _mk("acos", (_unclip(tm(_n(a))),))


def asin(a):
    return _mk("asin", (_unclip(tm(_n(a))),))


def maxv(a, b):
    a, b = tm(_n(a)), tm(_n(b))
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        return tm(max(x, y))
    return a if a is b else _mk("max", (a, b))


def minv(a, b):
    a, b = tm(_n(a)), tm(_n(b))
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        return tm(min(x, y))
    return a if a is b else _mk("min", (a, b))


# ------------------------------------------------------------ conditions
def gt(a, b):
    a, b = tm(_n(a)), tm(_n(b))
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        return const(x > y)
    if a is b:
        return FALSE
    if y is not None and y < 0 and nonneg(a) or y == 0 and y is not None and positive(a):
        return TRUE
    if x is not None and x <= 0 and nonneg(b):
        return FALSE
    # an extreme of a collection is beyond b when one of its elements is, or all are
    for u, flip in ((a, False), (b, True)):
        e = isextreme(u)
        if e:
            what, i, t = e
            o = b if u is a else a
            if i in o.fs:
                j = fresh_index(i.args[3])
                i, t = j, subst(t, {i: j})
            c = gt(o, t) if flip else gt(t, o)
            return anyc(i, c) if (what == "max") != flip else notc(anyc(i, notc(c)))
    return _mk("gt", (a, b))


EXTREME = {"bound:max": "max", "bound:min": "min", "?max over a collection": "max", "?min over a collection": "min"}


def extreme(what, i, t):
    """an extreme of a collection: comparisons with it are decided, its value is not"""
    return opaque(what + " over a collection", lam(i, [tm(t)]))


def isextreme(t):
    """(which, index, element) of an extreme of a collection"""
    if t.op == "fn" and t.args[0] in EXTREME and len(t.args[1]) == 1:
        b = t.args[1][0]
        if b.op == "lam" and len(b.args[1]) == 1:
            return EXTREME[t.args[0]], b.args[0], b.args[1][0]
    return None


def nonneg(a):
    return a.op in ("abs", "sqrt") or positive(a)


def positive(a):
    return a.op == "s" and a.args[2]


def lt(a, b):
    return gt(b, a)


def ge(a, b):
    return notc(gt(b, a))


def le(a, b):
    return notc(gt(a, b))


def eq(a, b):
    a, b = tm(_n(a) if not isinstance(a, bool) else a), tm(_n(b) if not isinstance(b, bool) else b)
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return const(a.args[1] == b.args[1])
    if positive(a) and isc(b, 0) or positive(b) and isc(a, 0):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b))


def notc(c):
    c = tm(c)
    if c.op == "c":
        return const(not c.args[1])
    if c.op == "not":
        return c.args[0]
    return _mk("not", (c,))


_CONJ = {}


def conj(a):
    """conjuncts of a condition"""
    r = _CONJ.get(a)
    if r is None:
        r = conj(a.args[0]) | conj(a.args[1]) | {a} if a.op == "and" else frozenset((a,))
        _CONJ[a] = r
    return r


_UNDER = {}


def under(t, s, depth=10):
    """condition t simplified where every condition of the set s holds"""
    if t in s:
        return TRUE
    if depth == 0 or t.op not in ("not", "and", "phi") or t.op == "phi" and sort(t) != BOOL:
        return t
    key = (t, s)
    r = _UNDER.get(key)
    if r is not None:
        return r
    if t.op == "not":
        x = t.args[0]
        if notc(x) in s:
            r = TRUE
        else:
            r = notc(under(x, s, depth - 1))
    elif t.op == "and":
        if notc(t) in s:
            r = FALSE
        else:
            u, v = under(t.args[0], s, depth - 1), under(t.args[1], s, depth - 1)
            r = t if u is t.args[0] and v is t.args[1] else andc(u, v)
    else:
        c = under(t.args[0], s, depth - 1)
        if c.op == "c":
            r = under(t.args[1 if c.args[1] else 2], s, depth - 1)
        else:
            u, v = under(t.args[1], s, depth - 1), under(t.args[2], s, depth - 1)
            r = t if c is t.args[0] and u is t.args[1] and v is t.args[2] else phi(c, u, v)
    if r.op not in ("c",) and notc(r) in s:
        r = FALSE
    _UNDER[key] = r
    return r


def andc(a, b):
    a, b = tm(a), tm(b)
    if a.op == "c":
        return b if a.args[1] else FALSE
    if b.op == "c":
        return a if b.args[1] else FALSE
    if a is b:
        return a
    if notc(a) is b:
        return FALSE
    b2 = under(b, conj(a))
    if b2 is not b:
        return andc(a, b2)
    return _mk("and", (a, b))


def orc(a, b):
    return notc(andc(notc(a), notc(b)))


def truthy(a):
    """condition 'a is truthy' for a symbolic scalar"""
    a = tm(a)
    if a.op == "c":
        return const(bool(a.args[1]))
    if sort(a) == BOOL:
        return a
    if sort(a) == STR:
        return _mk("fn", ("truthy", (a,)))
    return notc(eq(a, 0))


_BOOLOPS = {"gt", "eq", "not", "and", "any"}
BOOLFN = {"truthy", "cond", "isclose", "fails", "isfile", "known", "in_"}


def sort(t):
    if t.op == "s":
        return t.args[1]
    if t.op in _BOOLOPS:
        return BOOL
    if t.op == "c":
        v = t.args[1]
        return BOOL if isinstance(v, bool) else STR if isinstance(v, str) else NUM
    if t.op == "phi":
        return sort(t.args[1])
    if t.op == "fn":
        n = t.args[0].lstrip("?").split(":")[0]
        return BOOL if n in BOOLFN else STR if n.startswith("str") else NUM
    if t.op == "loop":
        return sort(t.args[3][t.args[5]])
    return NUM


def phi(c, a, b):
    c = tm(c)
    a, b = tm(a if isinstance(a, bool) else _n(a)), tm(b if isinstance(b, bool) else _n(b))
    if c.op == "c":
        return a if c.args[1] else b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if a.op == "c" and b.op == "c" and isinstance(a.args[1], bool) and isinstance(b.args[1], bool):
        return c if a.args[1] else notc(c)
    if a is TRUE:
        return orc(c, b)
    if a is FALSE:
        return andc(notc(c), b)
    if b is TRUE:
        return orc(notc(c), a)
    if b is FALSE:
        return andc(c, a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is c:
        return orc(c, b)
    if b is c:
        return andc(c, a)
    nc = notc(c)
    if a is nc:
        return andc(nc, b)
    if b is nc:
        return orc(nc, a)
    if sort(a) == BOOL and sort(b) == BOOL:
        a2, b2 = under(a, conj(c)), under(b, conj(nc))
        if a2 is not a or b2 is not b:
            return phi(c, a2, b2)
    # factor a common disjunct / conjunct
    for x, y, g in ((a, b, notc(c)), (b, a, c)):
        if y.op == "not" and y.args[0].op == "and":
            nx = notc(x)
            u, v = y.args[0].args
            if u is nx:
                return orc(x, andc(g, notc(v)))
            if v is nx:
                return orc(x, andc(g, notc(u)))
        if y.op == "and":
            u, v = y.args
            if u is x:
                return andc(x, orc(notc(g), v))
            if v is x:
                return andc(x, orc(notc(g), u))
    return _mk("phi", (c, a, b))


# ----------------------------------------------------------------- loops
def summ(i, body):
    """sum over the family of index symbol i"""
    body = tm(body)
    if isc(body, 0):
        return body
    return _mk("sum", (i, body))


def anyc(i, c):
    c = tm(c)
    if c.op == "c":
        return c if not c.args[1] else fn_cond_nonempty(i)
    return _mk("any", (i, c))


def fn_cond_nonempty(i):
    return gt(famlen(i), 0)


# rows in another order (and, for "unique", without the repeated ones: on rows that all differ, an order)
REORDER = ("unique", "sort_values", "sorted", "reversed")


def famlen(i):
    return _mk("fn", ("len", (const(i.args[3]),)))


def lam(i, bodies):
    return _mk("lam", (i, tuple(tm(b) for b in bodies)))


def loop(i, carries, inits, steps, stop, k):
    """k-th carried value after iterating the family of index symbol i"""
    return _mk("loop", (i, tuple(carries), tuple(map(tm, inits)), tuple(map(tm, steps)), tm(stop), k))


def lin(t, c):
    """t = c + e with e independent of c: return e, else None"""
    if t is c:
        return tm(0)
    if c not in t.fs:
        return None
    if t.op == "add":
        a, b = t.args
        if c in a.fs and c not in b.fs:
            e = lin(a, c)
            return None if e is None else add(e, b)
        if c in b.fs and c not in a.fs:
            e = lin(b, c)
            return None if e is None else add(a, e)
        return None
    if t.op == "phi":
        k, a, b = t.args
        if c in k.fs:
            return None
        ea, eb = lin(a, c), lin(b, c)
        if ea is None or eb is None:
            return None
        return phi(k, ea, eb)
    return None


# ---------------------------------------------------------- substitution
def rebuild(t, args):
    op = t.op
    f = {"add": add, "neg": neg, "mul": mul, "div": div, "sqrt": sqrt, "abs": absv, "sign": sign,
         "log": log, "acos": acos, "asin": asin, "max": maxv, "min": minv, "gt": gt, "eq": eq,
         "not": notc, "and": andc, "phi": phi}.get(op)
    if f:
        return f(*args)
    if op == "fn":
        return _mk("fn", tuple(args), taint=t.taint)
    return _mk(op, tuple(args))


def subst(t, m, memo=None):
    """replace the symbols in m (dict symbol -> term)"""
    if not isinstance(t, T):
        return t
    if memo is None:
        memo = {}
    keys = m.keys()

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if x.fs.isdisjoint(keys):
            return x
        r = memo.get(x)
        if r is None:
            if x.op in ("sum", "any", "lam", "loop"):
                # avoid capture: a binder whose symbol occurs in the replacement
                i = x.args[0]
                bad = any(i in v.fs for k, v in m.items() if k in x.fs)
                if bad:
                    j = fresh_index(i.args[3])
                    body = x.args[1:]
                    body = tuple(_sub_tuple(b, {i: j}) for b in body)
                    x2 = _mk(x.op, (j,) + body)
                    r = _mk(x.op, (j,) + tuple(go(b) for b in x2.args[1:]))
                elif x.op == "loop":
                    r = _mk("loop", (i, x.args[1], go(x.args[2]), go(x.args[3]), go(x.args[4]), x.args[5]))
                elif x.op == "sum":
                    r = summ(i, go(x.args[1]))
                elif x.op == "any":
                    r = anyc(i, go(x.args[1]))
                else:
                    r = _mk(x.op, (i,) + tuple(go(b) for b in x.args[1:]))
            else:
                r = rebuild(x, [go(a) for a in x.args])
            memo[x] = r
        return r
    return go(t)


def _sub_tuple(b, m):
    if isinstance(b, T):
        return subst(b, m)
    if isinstance(b, tuple):
        return tuple(_sub_tuple(x, m) for x in b)
    return b


_fresh = [0]


def fresh(name, sort_=NUM, pos=False, fam=None):
    _fresh[0] += 1
    return sym(f"{name}#{_fresh[0]}", sort_, pos, fam)


def fresh_index(fam):
    return fresh("j_" + str(fam), NUM, False, fam)


def index(fam):
    """canonical index symbol of a family"""
    return sym("i_" + str(fam), NUM, False, fam)


# -------------------------------------------------------- differentiation
class NotDifferentiable(Exception):
    pass


def diff(t, x, memo=None):
    if memo is None:
        memo = {}

    def d(u):
        if x not in u.fs:
            return tm(0)
        r = memo.get(u)
        if r is not None:
            return r
        op, a = u.op, u.args
        if u is x:
            r = tm(1)
        elif op == "add":
            r = add(d(a[0]), d(a[1]))
        elif op == "neg":
            r = neg(d(a[0]))
        elif op == "mul":
            r = add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
        elif op == "div":
            r = div(sub(mul(d(a[0]), a[1]), mul(a[0], d(a[1]))), mul(a[1], a[1]))
        elif op == "sqrt":
            r = div(d(a[0]), mul(2, u))
        elif op == "abs":
            r = mul(sign(a[0]), d(a[0]))
        elif op == "sign":
            r = tm(0)
        elif op == "log":
            r = div(d(a[0]), a[0])
        elif op == "acos":
            r = neg(div(d(a[0]), sqrt(sub(1, mul(a[0], a[0])))))
        elif op == "asin":
            r = div(d(a[0]), sqrt(sub(1, mul(a[0], a[0]))))
        elif op == "max":
            r = phi(gt(a[0], a[1]), d(a[0]), d(a[1]))
        elif op == "min":
            r = phi(gt(a[0], a[1]), d(a[1]), d(a[0]))
        elif op == "phi":
            r = phi(a[0], d(a[1]), d(a[2]))
        elif op == "sum":
            r = summ(a[0], d(a[1]))
        else:
            raise NotDifferentiable(show(u))
        memo[u] = r
        return r
    return d(tm(t))


def taints(t, limit=4):
    """names of the unmodelled constructs a term depends on"""
    out, seen, stack = [], set(), [t]
    while stack and len(out) < limit:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen or not x.taint:
            continue
        seen.add(x)
        if x.op == "fn" and x.args[0].startswith("?"):
            if x.args[0] not in out:
                out.append(x.args[0])
        stack.extend(x.args)
    return out


def nodes(t):
    """every node of a term"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            stack.extend(x.args)


def size(ts):
    seen, stack = set(), list(ts)
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            stack.extend(x.args)
    return len(seen)


def show(t, depth=5):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.args
    if op == "c":
        return str(a[1])
    if op == "s":
        return a[0]
    if op == "add":
        return f"({show(a[0], d)} + {show(a[1], d)})"
    if op == "mul":
        return f"{show(a[0], d)}*{show(a[1], d)}"
    if op == "div":
        return f"({show(a[0], d)} / {show(a[1], d)})"
    if op == "neg":
        return f"-{show(a[0], d)}"
    if op == "gt":
        return f"({show(a[0], d)} > {show(a[1], d)})"
    if op == "eq":
        return f"({show(a[0], d)} == {show(a[1], d)})"
    if op == "fn":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1])})"
    if op == "phi":
        return f"[{show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)}]"
    if op == "loop":
        return f"loop({a[0].args[0]}, {show(a[3][a[5]], d)})"
    return f"{op}({', '.join(show(x, d) if isinstance(x, T) else '..' for x in a)})"
