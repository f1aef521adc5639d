"""Run scenario scripts through the real library (harness/sim.c) and check the recorded traces against spec/Conform.tla with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CP = JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar"


class Trouble(Exception):
    """the machinery itself failed (not a verdict about the code)"""


def scratch():
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    return tempfile.mkdtemp(prefix="run-", dir=os.path.join(VERIF, "build"))


def run_sim(exe, scripts, d, tag):
    """scripts: [(id, [lines])] -> [{id, ops, crash}]"""
    sp, op = os.path.join(d, tag + ".scn"), os.path.join(d, tag + ".out")
    with open(sp, "w") as f:
        for i, ls in scripts:
            f.write("### %s\n%s\n" % (i, "\n".join(ls)))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1")
    r = subprocess.run([exe, sp, op], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=840)
    if r.returncode:
        raise Trouble("simulator exit %d: %s" % (r.returncode, r.stderr[-2000:]))
    res = []
    with open(op, errors="replace") as f:
        for ln in f:
            ln = ln.strip()
            if not ln:
                continue
            try:
                o = json.loads(ln)
            except ValueError:
                if res:
                    res[-1]["partial"] = ln[:300]
                continue
            if o["e"] == "scen":
                res.append({"id": o["id"], "ops": [], "crash": None})
            elif o["e"] == "crash":
                res[-1]["crash"] = o
            else:
                o.pop("e")
                res[-1]["ops"].append(o)
    if len(res) != len(scripts):
        raise Trouble("simulator lost scenarios: %d of %d" % (len(res), len(scripts)))
    return res, r.stderr


def tlc(module, cfg, env=None, args=(), workers=1, mem="2g", timeout=840, cwd=None, extra_jvm=()):
    md = tempfile.mkdtemp(prefix="tlc-", dir=cwd or os.path.join(VERIF, "build"))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + mem, *extra_jvm, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


STATS = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")


def stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    return (int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))) if m else (0, 0)


TOK = re.compile(r'\s*(<<|>>|\{|\}|,|\[|\]|\|->|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_]\w*)')


def tlaval(s):
    toks = TOK.findall(s)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t in ("<<", "{"):
            end = ">>" if t == "<<" else "}"
            r = []
            while toks[pos] != end:
                if toks[pos] == ",":
                    pos += 1
                    continue
                r.append(val())
            pos += 1
            return r
        if t.startswith('"'):
            return json.loads(t)
        if re.match(r"-?\d", t):
            return int(t)
        return t
    return val()


def parse_reports(out):
    reps = []
    for ln in out.splitlines():
        if ln.startswith('"@@'):
            try:
                s = json.loads(ln)
            except ValueError:
                s = ln[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            reps.append(tlaval(s[2:]))
    return reps


def check_shard(traces, d, tag, cfg):
    tr = os.path.join(d, tag + ".ndjson")
    with open(tr, "w") as f:
        for t in traces:
            f.write(json.dumps({"id": t["id"], "ops": t["ops"]}, separators=(",", ":")) + "\n")
    rc, out = tlc("Conform.tla", cfg, {"TRACE": tr}, cwd=d, mem="3g")
    st, tn = stats(out)
    expect = sum(len(t["ops"]) + 1 for t in traces)
    reps = parse_reports(out)
    if "Invariant CoreInv is violated" in out:
        raise Trouble("the reference state's own invariant fails:\n" + out[-3000:])
    if rc != 0 or st != expect:
        raise Trouble("TLC rc=%d states=%d expected=%d\n%s" % (rc, st, expect, out[-3000:]))
    return reps, st, tn


def conform(scripts, shards=8, keep=None):
    """returns dict(traces, fails, known, crashes, states, transitions)"""
    exe = B.build("sim")
    d = scratch()
    try:
        slow = [s for s in scripts if "unit 1000" in s[1]]      # times in milliseconds: see ConformMs.cfg
        fast = [s for s in scripts if "unit 1000" not in s[1]]
        parts = [fast[i::shards] for i in range(shards)] + [slow[i::shards] for i in range(shards)]
        parts = [p for p in parts if p]

        def one(a):
            i, p = a
            res, err = run_sim(exe, p, d, "s%d" % i)
            good = [t for t in res if t["ops"]]
            reps, st, tn = check_shard(good, d, "t%d" % i, "ConformMs.cfg" if "unit 1000" in p[0][1] else "Conform.cfg") if good else ([], 0, 0)
            return res, reps, st, tn, err
        with ThreadPoolExecutor(shards) as ex:
            outs = list(ex.map(one, enumerate(parts)))
        R = {"traces": [], "fails": [], "known": [], "crashes": [], "states": 0, "transitions": 0}
        for res, reps, st, tn, err in outs:
            R["traces"] += res
            R["states"] += st
            R["transitions"] += tn
            for t in res:
                if t["crash"]:
                    R["crashes"].append((t["id"], t["crash"], t.get("partial"), err[-1500:]))
            for r in reps:
                kind, sid, line, op, node, x = r
                if kind == "FAIL":
                    R["fails"].append({"id": sid, "line": line, "op": op, "node": node, "labels": x[0], "msg": x[1]})
                else:
                    R["known"].append({"id": sid, "what": x})
        return R
    finally:
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
        shutil.rmtree(d, ignore_errors=True)


def load_scripts(path):
    out = []
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln.startswith("### "):
            out.append((ln[4:], []))
        elif out:
            out[-1][1].append(ln)
    return out


if __name__ == "__main__":
    t0 = time.time()
    R = conform(load_scripts(sys.argv[1]), keep=os.environ.get("KEEP"))
    for f in R["fails"]:
        print(f)
    print("known", R["known"][:5])
    print("crashes", R["crashes"])
    print("traces %d states %d ops %d  %.1fs" % (len(R["traces"]), R["states"], sum(len(t["ops"]) for t in R["traces"]), time.time() - t0))
