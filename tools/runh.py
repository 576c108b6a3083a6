"""build and run one harness: tools/runh.py C04 [args]"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import build
try:
    exe = build.build(sys.argv[1] + ".cpp")
except build.BuildError as e:
    print(str(e)[-3500:]); sys.exit(2)
env = dict(os.environ, DIFFPYRUNTIME="/repo/src/runtime")
sys.exit(subprocess.run([exe] + sys.argv[2:], env=env).returncode)
