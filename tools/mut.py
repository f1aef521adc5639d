"""Development aid: try a change against the conformance suites. usage: mut.py (patch FILE | revert COMMIT) [N] [SEED]"""
import collections, os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
src = os.path.join(d, "repo")
subprocess.run(["cp", "-a", "/repo", src], check=True)
os.environ["VP_REPO"] = src
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conf, gen, build
try:
    if sys.argv[1] == "patch":
        subprocess.run(["git", "apply", os.path.abspath(sys.argv[2])], cwd=src, check=True)
    else:
        r = subprocess.run(["git", "revert", "-n", sys.argv[2]], cwd=src, capture_output=True, text=True)
        if r.returncode:
            print(sys.argv[2], "CONFLICT")
            sys.exit(0)
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 200
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    sc = []
    for s in gen.SUITES:
        sc += gen.make(s, seed, n)
    R = conf.conform(sc)
    c = collections.Counter(x for f in R["fails"] for x in f["labels"])
    ids = len({f["id"] for f in R["fails"]})
    print("%s: %d failing scenarios, labels %s, crashes %d" % (sys.argv[2], ids, dict(c), len(R["crashes"])))
    seen = set()
    for f in R["fails"]:
        k = (f["op"], tuple(sorted(f["labels"])), f["msg"][:18])
        if k not in seen and len(seen) < 8:
            seen.add(k)
            print("    ", f["id"], f["line"], f["op"], sorted(f["labels"]), f["msg"][:150])
    for c in R["crashes"][:2]:
        print("    crash", c[0], c[1])
finally:
    exe = build.build("sim") if os.path.isdir(src) else None
    if exe:
        shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
