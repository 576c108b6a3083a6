import warnings; warnings.simplefilter("ignore")
import sys, os, importlib, tempfile, time, cProfile, pstats
if os.environ.get("PYTHONHASHSEED") != "0":      # same order of everything on every run
    os.execvpe(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from dv import front, solve
from dv import contract
P = importlib.import_module("props." + sys.argv[1])
prog = front.load(P.TUS, tempfile.mkdtemp())
tot = [0]
o = solve.run_all
def ra(*a, **k):
    t = time.time(); r = o(*a, **k); tot[0] += time.time() - t; return r
solve.run_all = ra
for sp in P.SPECS:
    if sys.argv[2] in sp.name:
        pr = cProfile.Profile(); pr.enable()
        r = contract.verify(prog, sp, workers=8, budget=400)
        pr.disable()
        print(sp.name, r.status, len(r.obls), "paths", r.paths, "wall", r.wall, "solve", tot[0], "sum", sum(x[5] for x in r.obls))
        pstats.Stats(pr).sort_stats(sys.argv[4] if len(sys.argv)>4 else "cumtime").print_stats(int(sys.argv[3]) if len(sys.argv)>3 else 0)
        import collections
        d=collections.Counter(); n=collections.Counter()
        for x in r.obls: d[x[0]]+=x[5]; n[x[0]]+=1
        for k,v in d.most_common(12): print("  %6.1f %4d %s"%(v,n[k],k))
