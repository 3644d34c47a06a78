#!/usr/bin/env python3
"""Draws the larger bodies of gva/bodies.json (development tool, no check runs it).

A body: hull vertices relative to the station, in the field of evalt.P, such that every squared length the closed
form takes the root of is a square and the quadratic characters of the determinants are those of a convex body.
"""
import json
import os
import random
import sys
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from gva.evalt import P, inv, legendre  # noqa
from gva.poly import ok_pair, ok_tri, sq, unitish, vadd, vcross, vdot, vscale, vsub  # noqa

# faces as corner triples; vertex 0, 1, 2 first. "bi": triangles 0 1 2 with apexes 3 and 4; "py": base 0 1 2 3 (diagonal 0 2), apex 4
MESH = {"bi": [(0, 1, 3), (1, 2, 3), (2, 0, 3), (0, 1, 4), (1, 2, 4), (2, 0, 4)],
        "py": [(0, 1, 2), (0, 2, 3), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)]}
KINDS = {"bi": ("generic", "plane", "line+", "line-"), "py": ("generic", "base", "plane", "line+", "line-")}


def edges(mesh):
    return sorted({tuple(sorted(e)) for t in MESH[mesh] for e in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2]))})


def det(a, b, c, d):
    return vdot(vcross(vsub(b, a), vsub(c, a)), vsub(d, a))


def fine(mesh, R, k):
    """length conditions that vertex k adds"""
    for i, j in edges(mesh):
        if max(i, j) == k and not ok_pair(R[i], R[j]):
            return False
    for t in MESH[mesh]:
        if max(t) == k and not ok_tri(*[R[v] for v in t]):
            return False
    return True


def convex(mesh, R, n):
    for t in MESH[mesh]:
        if max(t) >= n:
            continue
        s = {legendre(det(*[R[v] for v in t], R[w])) for w in range(n) if w not in t} - {0}
        if len(s) > 1:
            return False
    return True


def inner(mesh, R, D):
    """D on the inner side of every face"""
    for t in MESH[mesh]:
        s = next(filter(None, (legendre(det(*[R[v] for v in t], x)) for v, x in enumerate(R) if v not in t)))
        if legendre(det(*[R[v] for v in t], D)) != s:
            return False
    return True


def mean(xs, ws=None):
    ws = ws or [1] * len(xs)
    i = inv(sum(ws))
    return [sum(w * x[c] for w, x in zip(ws, xs)) * i % P for c in range(3)]


def onplane(r, a, b, c=None):
    if c is None:
        return vadd(vscale(r.randrange(1, P), a), vscale(r.randrange(1, P), b))
    return vadd(a, vadd(vscale(r.randrange(1, P), vsub(b, a)), vscale(r.randrange(1, P), vsub(c, a))))


def draw(job):
    mesh, kind, seed = job
    r = random.Random(f"{mesh} {kind} {seed}")
    first = {"bi": (0, 1, 3, 2, 4), "py": (0, 1, 2, 3, 4)}[mesh]
    while True:
        R = {}
        good = True
        for step, v in enumerate(first):
            done = [R[q] for q in first[:step]]
            for _ in range(3000000 if step == 4 else 200000):
                if step == 1 and kind in ("line+", "line-"):
                    s = r.randrange(2, P)
                    if legendre(s) < 0 or (legendre(s - 1) > 0) != (kind == "line+"):
                        continue
                    x = vscale(s, R[first[0]])
                elif mesh == "py" and v == 3:
                    x = onplane(r, R[0], R[1]) if kind == "base" else onplane(r, R[0], R[1], R[2])
                    # across 0 2 from 1, inside 0 1 and 1 2
                    n = vcross(vsub(R[1], R[0]), vsub(R[2], R[0]))
                    ar = lambda a, b, c: legendre(vdot(n, vcross(vsub(b, a), vsub(c, a))))
                    if ar(R[0], R[1], x) != 1 or ar(R[1], R[2], x) != 1 or ar(R[0], R[2], x) != 1:
                        continue
                    # the mean of the corners inside every side
                    Q = [R[0], R[1], R[2], x]
                    A = lambda i, j, k: vdot(n, vcross(vsub(Q[j], Q[i]), vsub(Q[k], Q[i])))
                    if any(legendre(w[(i + 2) % 4] * A(i, (i + 1) % 4, (i + 2) % 4) + w[(i + 3) % 4] * A(i, (i + 1) % 4, (i + 3) % 4)) != 1
                           for i in range(4) for w in ((1, 1, 1, 1), (4, 3, 4, 3))):
                        continue
                elif step == 2 and mesh == "py" and kind == "base" or step == 2 and mesh == "bi" and kind == "plane":
                    x = onplane(r, done[0], done[1])
                elif v == 4 and mesh == "py" and kind == "plane":
                    x = onplane(r, R[0], R[1])
                else:
                    x = unitish(r)
                if not sq(vdot(x, x)):
                    continue
                R[v] = x
                have = set(R)
                ok = all(ok_pair(R[i], R[j]) for i, j in edges(mesh) if v in (i, j) and {i, j} <= have) and \
                    all(ok_tri(*[R[q] for q in t]) for t in MESH[mesh] if v in t and set(t) <= have)
                if ok and step == 4:
                    L = [R[q] for q in range(5)]
                    deg = [sum(q in t for t in MESH[mesh]) for q in range(5)]
                    ok = all(det(*[L[q] for q in t], L[4 if 4 not in t else 3]) or mesh == "py" for t in MESH[mesh]) and \
                        convex(mesh, L, 5) and inner(mesh, L, mean(L)) and (mesh == "bi" or inner(mesh, L, mean(L, deg)))
                if ok:
                    break
                del R[v]
            else:
                good = False
                break
        if not good:
            continue
        L = [R[q] for q in range(5)]
        # a point inside
        for _ in range(400000):
            w = [pow(r.randrange(1, P), 2, P) for _ in range(4)]
            w.append((1 - sum(w)) % P)
            if legendre(w[4]) != 1:
                continue
            x = mean(L, w) if sum(w) % P == 1 else None
            if not sq(vdot(x, x)) or not inner(mesh, L, x) or not inner(mesh, L, mean(L + [x])):
                continue
            return mesh, kind, L, x


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 4
    jobs = [(m, k, s) for m in MESH for k in KINDS[m] for s in range(n)]
    out = {}
    with Pool(int(os.environ.get("J", "6"))) as p:
        for m, k, L, x in p.imap_unordered(draw, jobs):
            out.setdefault(f"{m} {k}", []).append(dict(R=L, inner=[x]))
            print(m, k, flush=True)
    json.dump(dict(mesh=MESH, bodies={k: out[k] for k in sorted(out)}), open(os.path.join(HERE, "gva", "bodies.json"), "w"))


if __name__ == "__main__":
    main()
