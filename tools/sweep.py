"""run one harness with many seeds: tools/sweep.py C04 1 16 [--thorough]"""
import sys, os, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import build
exe = build.build(sys.argv[1] + ".cpp")
env = dict(os.environ, DIFFPYRUNTIME="/repo/src/runtime")
def run(s):
    r = subprocess.run([exe, "--seed", str(s)] + sys.argv[4:], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return s, [l[:700] for l in r.stdout.decode(errors="replace").split("\n") if "FAIL" in l or "CASES" in l or "Assert" in l]
with ThreadPoolExecutor(8) as ex:
    for s, ls in ex.map(run, range(int(sys.argv[2]), int(sys.argv[3]) + 1)):
        for l in ls:
            if "CASES" not in l: print(s, l)
print("swept")
