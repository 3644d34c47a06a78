"""Obligations, verdicts and evidence of one check."""
import json
import os
import sys
import time
import traceback

from .evalt import BadSample, Env, Undef, value
from .interp import LoadError
from . import terms as tt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

OK, BAD, OPEN = "discharged", "violated", "undecided"


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.obs = []
        self.t0 = time.time()
        self.evals = 0
        self.functions = set()
        self.sites = set()
        self.stmts = 0
        self.unmodelled = set()
        self.assumptions = []
        self.keys = set()

    def draws(self, quick, thorough=None):
        return (thorough or 4 * quick) if self.thorough else quick

    # ------------------------------------------------------------ recording
    def saw(self, I):
        """count what an interpretation analysed"""
        self.functions |= set(I.visited)
        self.sites |= set(I.callsites)
        self.stmts += I.stmts
        self.unmodelled |= set(I.unmodelled)

    def add(self, name, status, rule, where="", detail="", key=None):
        """key identifies a violation, to match it with the known findings"""
        self.obs.append(dict(obligation=name, status=status, rule=rule, where=where, detail=detail, key=key or name))
        return status

    def require(self, name, cond, rule, where="", detail="", taint=()):
        """a fact read off the analysis: holds, or is violated (undecided if it rests on unmodelled code)"""
        if cond:
            return self.add(name, OK, rule, where)
        if taint:
            return self.add(name, OPEN, rule, where, "rests on unmodelled code: " + "; ".join(sorted(set(taint))[:4]))
        return self.add(name, BAD, rule, where, detail)

    def same(self, name, draws, rule, where=""):
        """draws: callables returning (left, right, hits, note) for one draw, left == right expected.
        A draw may raise BadSample (outside the domain: skipped)."""
        n = bad = 0
        hits = set()
        detail = ""
        for d in draws:
            try:
                a, b, h, note = d()
            except BadSample:
                continue
            n += 1
            self.evals += 1
            self.keys.add((name, str(note)))
            if a != b:
                if h:
                    hits |= set(h)
                else:
                    bad += 1
                    detail = detail or f"{note}: {short(a)} instead of {short(b)}"
        if bad:
            return self.add(name, BAD, rule, where, detail)
        if hits:
            return self.add(name, OPEN, rule, where, "rests on unmodelled code: " + "; ".join(sorted(hits)[:4]))
        if not n:
            return self.add(name, OPEN, rule, where, "no draw inside the domain")
        return self.add(name, OK, rule, where, f"{n} draws")

    def guard(self, name, rule, f, *a):
        """run a group of obligations; a failure of the analysis itself leaves the group undecided"""
        try:
            return f(*a)
        except Gone:
            raise
        except LoadError as e:
            self.add(name, BAD, rule, "import", str(e))
        except RecursionError:
            self.add(name, OPEN, rule, "", "analysis gave up: recursion")
        except Exception as e:  # noqa
            if os.environ.get("VERIF_DEBUG"):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add(name, OPEN, rule, "", f"analysis gave up: {type(e).__name__}: {e} at {os.path.basename(tb[0])}:{tb[1]}")

    # -------------------------------------------------------------- verdict
    def known(self):
        out = {}
        try:
            for ln in open(os.path.join(VERIF, "KNOWN_FINDINGS.md")):
                ln = ln.strip()
                if ln.startswith("known: property="):
                    pid, rest = ln[len("known: property="):].split(" ", 1)
                    key = rest.split(" | ")[0]
                    out.setdefault(pid, {})[key] = rest
        except OSError:
            pass
        return out.get(self.pid, {})

    def finish(self):
        known = self.known()
        bad = [o for o in self.obs if o["status"] == BAD]
        new = [o for o in bad if o["key"] not in known]
        for o in bad:
            if o["key"] in known:
                print(f"KNOWN-FINDING: property={self.pid} {o['key']}: {o['detail']}")
        opened = [o for o in self.obs if o["status"] == OPEN]
        done = [o for o in self.obs if o["status"] == OK]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for o in opened:
            print(f"UNDECIDED property={self.pid} {o['obligation']}: {o['detail']}")
        if new:
            path = os.path.join(VERIF, "evidence", f"{self.pid}-violation.json")
            json.dump(new, open(path, "w"), indent=1, default=str)
            for o in new:
                print(f"  {o['obligation']} at {o['where']}: {o['detail']} [{o['rule']}]")
            print(f"VIOLATION property={self.pid} replay={path}")
        samples = []
        for o in done[:12] + opened[:5] + bad[:5]:
            samples.append({k: str(o[k])[:300] for k in ("obligation", "status", "where", "rule", "detail")})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other", wall_s=round(time.time() - self.t0, 2),
                  violations=len(new), assumptions=self.assumptions,
                  coverage=dict(explanation="static analysis: abstract interpretation of /repo's current source into a "
                                "gated value graph; every obligation below is decided on that graph (graph equality by "
                                "random interpretation over a prime field, gate configurations drawn per obligation) or "
                                "on the recorded effects",
                                obligations=len(self.obs), discharged=len(done), undecided=len(opened),
                                evaluations=self.evals, distinct_nontrivial=len(self.keys),
                                rule="one evaluation compares two value graphs (or a graph and an oracle) in one draw; "
                                "distinct by obligation and gate configuration",
                                functions_analysed=len(self.functions), call_sites=len(self.sites), statements=self.stmts,
                                functions=sorted(self.functions)[:200], unmodelled=sorted(self.unmodelled)[:40],
                                samples=samples))
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w"), indent=1, default=str)
        print(f"{self.pid}: {len(done)} discharged, {len(opened)} undecided, {len(bad)} violated; "
              f"{len(self.functions)} functions, {len(self.sites)} call sites, {self.evals} evaluations, "
              f"{ev['wall_s']} s")
        if new:
            return 1
        if not done and not bad:
            print("nothing could be decided")
            return 2
        return 0


class Gone(Exception):
    """a public entry point the property is stated about no longer exists"""


def short(x):
    s = str(x)
    return s if len(s) < 120 else s[:117] + "..."


def ev(env, ts):
    """values of several nodes ('undef' where undefined) and the unmodelled constructs they rest on"""
    out, hits = [], set()
    for t in ts:
        v, h = value(env, t)
        out.append(v)
        hits |= h
    return out, hits
