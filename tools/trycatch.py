"""apply each planted bug to /repo, run its property's check, undo; usage: tools/trycatch.py [NAME|PROP ...]"""
import sys, os, subprocess, json, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sys.argv[1:]
for d in sorted(glob.glob(V + "/seeded/*")):
    n = os.path.basename(d)
    p = json.load(open(d + "/meta.json"))["property"]
    if names and n not in names and p not in names:
        continue
    if not os.path.exists(V + "/props/%s.py" % p):
        print(n, "no check yet"); continue
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        t = time.time()
        r = subprocess.run(["python3-vt", V + "/check.py", p, "-q"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(n, "rc", r.returncode, "%.0fs" % (time.time() - t), "harness" if any("no-failing" not in l for l in v) else ("proof" if v else "MISSED"), (v or [""])[0][:150], flush=True)
    ob = [l for l in r.stdout.splitlines() if l.startswith("FAILED OBL")]
    print("    failed obligations:", len(ob), ob[0][:160] if ob else "", flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-500:])
