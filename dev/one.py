import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from lib.core import Ctx, AnalysisBroken
import rules
try:
    ctx = Ctx(sys.argv[1], os.environ.get("T", "quick"))
    rules.PROPS[sys.argv[1]](ctx)
    for what, n in ctx.floors.items():
        if ctx.counts.get(what, 0) < n and not ctx.findings:
            raise AnalysisBroken(f"floor {what} {ctx.counts.get(what, 0)}")
except AnalysisBroken as e:
    print("BROKEN", e)
    sys.exit(2)
for f in ctx.findings:
    print(f.text())
sys.exit(1 if ctx.findings else 0)
