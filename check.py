#!/usr/bin/env python3-vt
"""Decide one property: check.py [--thorough] C01 [C02 ...] (see DESIGN.md)."""
import os
import resource
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)

# an analysis that outgrows these gives up, keeping what it decided so far
MEMORY = 14 << 30
SECONDS = int(os.environ.get("GVA_SECONDS", "0") or 0)


def main(pid, box):
    from gva import checks
    from gva.report import Check, Gone
    ck = Check(pid)
    box.append(ck)
    try:
        checks.TABLE[pid](ck)
    except Gone as e:
        print(f"the property's entry point is gone: {e}")
        ck.add("entry point", "undecided", "", "", str(e))
    except Exception as e:  # noqa
        if os.environ.get("VERIF_DEBUG"):
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ck.add("analysis", "undecided", "", "",
               f"analysis gave up: {type(e).__name__}: {e} at {os.path.basename(tb[0])}:{tb[1]}")
    box.clear()
    return ck.finish()


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "--thorough"]
    if len(args) < len(sys.argv) - 1:
        os.environ["VERIF_TIER"] = "thorough"
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    rc, box = [], []
    _, top = resource.getrlimit(resource.RLIMIT_AS)
    lim = MEMORY if top < 0 else min(MEMORY, top)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    threading.stack_size(512 * 1024 * 1024)

    def run():
        for a in args:
            rc.append(main(a, box))
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(SECONDS or (None if thorough else 780 * len(args)))
    if t.is_alive() and box:
        ck = box[0]
        ck.obs = list(ck.obs)
        ck.add("analysis", "undecided", "", "", "analysis gave up: out of time")
        r = ck.finish()
        sys.stdout.flush()
        os._exit(r)
    sys.exit(max(rc) if rc and len(rc) == len(args) else 2)
