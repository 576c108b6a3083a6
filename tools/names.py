"""tools/names.py SUBSTR FILE...: functions with bodies seen by the front end"""
import sys, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from dv import front
prog = front.load(sys.argv[2:], tempfile.mkdtemp())
for q, fs in sorted(prog.byqn.items()):
    if sys.argv[1] in q:
        for f in fs: print(q, [t.s[:50] for t in f.fd.params], "body" if f.body is not None else "")
