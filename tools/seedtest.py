"""Development aid: run checks against a planted change, in a scratch copy. usage: seedtest.py [-a] [ID...]
   -a: every property's check, not only the planted one's"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
allp = "-a" in a
SD = os.environ.get("SEEDDIR", V + "/seeded")
ids = [x for x in a if x[0] != "-"] or sorted(os.listdir(SD))
props = ["C%02d" % i for i in range(1, 32)]
for i in ids:
    sd = SD + "/" + i
    prop = json.load(open(sd + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="st-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "apply", sd + "/patch.diff"], cwd=d + "/repo", check=True)
        out = []
        for p in (props if allp else [prop]):
            t = time.time()
            r = subprocess.run([sys.executable, V + "/tools/check.py", p, "quick"], capture_output=True, text=True, env=dict(os.environ, VP_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            what = (r.stdout + r.stderr).splitlines()
            out.append("%s:%s %ds %s" % (p, r.returncode, time.time() - t, (v or [""])[0][-60:]))
            if r.returncode not in (0, 1):
                out.append("\n".join(what[-5:]))
        print(i, prop, " ; ".join(out), flush=True)
    finally:
        subprocess.run("chmod -R u+w %s" % d, shell=True)
        shutil.rmtree(d, ignore_errors=True)
