"""tools/dbg.py C04 SUBSTR [obl substr]: verify matching specs, print failing obligations' goals and path conditions"""
import warnings; warnings.simplefilter("ignore")
import sys, os, importlib, tempfile
if os.environ.get("PYTHONHASHSEED") != "0":      # same order of everything on every run
    os.execvpe(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import z3
from dv import front, solve
from dv.contract import verify
P = importlib.import_module("props." + sys.argv[1])
prog = front.load(P.TUS, tempfile.mkdtemp())
z3.set_param("pp.max_depth", 40)
for sp in P.SPECS:
    if sys.argv[2] in sp.name:
        r = verify(prog, sp, workers=8, budget=200)
        print(sp.name, r.status, r.reason, len(r.obls), round(r.wall,1), [(x[0][:60],x[3],round(x[5],1)) for x in r.obls if x[3]!="proved" or x[5]>3])
        n = 0
        for o, x in zip(getattr(r, "raw", []), r.obls):
            if x[3] != "proved" and (len(sys.argv) < 4 or sys.argv[3] in x[0]):
                n += 1
                if n > 2: break
                print("==", x[0], x[3]); print("GOAL", z3.simplify(o.goal))
                if "--pc" in sys.argv:
                    for f in o.pc or []: print("  PC", f)
                if "--model" in sys.argv: print(str(x[6])[:3000])
