"""names defined twice in the namespace the library models share (a later one would silently replace an earlier one)"""
import ast
import glob
import os
import sys

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gva")
seen, bad = {}, 0
for f in sorted(glob.glob(os.path.join(here, "lib*.py"))) + [os.path.join(here, "cmdline.py")]:
    for c in ast.parse(open(f).read()).body:
        if isinstance(c, ast.ClassDef):
            for d in c.body:
                if isinstance(d, ast.FunctionDef) and not any("setter" in ast.unparse(x) for x in d.decorator_list):
                    at = f"{os.path.basename(f)}:{d.lineno} {c.name}.{d.name}"
                    if d.name in seen:
                        print(seen[d.name], "and", at)
                        bad = 1
                    seen[d.name] = at
sys.exit(bad)
