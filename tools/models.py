"""Small specifications whose whole state graph is replayed, transition by transition, in the real code."""
import collections, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import conf


def cfg_with(d, name, consts):
    """a copy of spec/<name>.cfg in folder d with other constants"""
    out = []
    for ln in open(os.path.join(conf.SPEC, name + ".cfg")):
        k = ln.split("=")[0].strip()
        out.append("    %s = %s\n" % (k, consts[k]) if k in consts and "=" in ln else ln)
    p = os.path.join(d, name + ".cfg")
    open(p, "w").writelines(out)
    return p


def graph(module, cfg, d, timeout=600):
    """runs GenSpec; returns edges [(from, to, op)], states, transitions"""
    rc, out = conf.tlc(module, cfg, cwd=d, workers=1, mem="4g", timeout=timeout)
    if rc or "No error has been found" not in out:
        raise conf.Trouble("TLC on %s: rc=%d\n%s" % (module, rc, out[-2000:]))
    st, tn = conf.stats(out)
    edges = []
    for ln in out.splitlines():
        if ln.startswith('"@@'):
            edges.append(tuple(json.loads(json.loads(ln)[2:])))
    return edges, st, tn


def walks(edges, inits, limit, rng, most=None):
    """walks from an initial state that together take every edge at least once (the first `most` of them)"""
    adj = collections.defaultdict(list)
    for e in edges:
        adj[e[0]].append(e)
    todo = {v: list(es) for v, es in adj.items()}
    for es in todo.values():
        rng.shuffle(es)
    left = len(edges)

    def path_to_todo(v, room):
        prev, q = {v: None}, collections.deque([(v, 0)])
        while q:
            x, n = q.popleft()
            if todo.get(x):
                p = []
                while x != v:
                    p.append(prev[x])
                    x = prev[x][0]
                return p[::-1]
            if n < room:
                for e in adj[x]:
                    if e[1] not in prev:
                        prev[e[1]] = e
                        q.append((e[1], n + 1))
        return None
    res = []
    for i in inits:
        while left and (most is None or len(res) < most):
            v, w = i, []
            while len(w) < limit:
                if not todo.get(v):
                    p = path_to_todo(v, 6 if w else 1 << 30)
                    if not p:
                        break
                    w += p
                    v = p[-1][1]
                e = todo[v].pop()
                left -= 1
                w.append(e)
                v = e[1]
            if not w:
                break
            res.append((i, w))
    if left and most is None:
        raise conf.Trouble("%d transitions not covered" % left)
    return res


def random_walks(edges, inits, n, length, rng):
    adj = collections.defaultdict(list)
    for e in edges:
        adj[e[0]].append(e)
    res = []
    for _ in range(n):
        i = v = rng.choice(inits)
        w = []
        for _ in range(length):
            e = rng.choice(adj[v])
            w.append(e)
            v = e[1]
        res.append((i, w))
    return res


def replay(harness, module, cfg, scripts, shards=8):
    """scripts: [(header, [lines])]; returns (fails [(id, step, text)], crashes [(id, text)], ops, states)"""
    exe = B.build(harness)
    d = conf.scratch()
    try:
        parts = [p for p in (scripts[i::shards] for i in range(shards)) if p]

        def one(a):
            n, p = a
            sp, op = os.path.join(d, "%d.scn" % n), os.path.join(d, "%d.out" % n)
            with open(sp, "w") as f:
                for h, ls in p:
                    f.write("### %s\n%s\n" % (h, "\n".join(ls)))
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77")
            r = subprocess.run([exe, sp, op], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=200)
            if r.returncode == 98:
                raise conf.Trouble("bad script for " + harness)
            good, crash = [], []
            for ln in open(op, errors="replace"):
                try:
                    good.append(json.loads(ln))
                except ValueError:
                    pass
            if r.returncode:
                i = p[len(good)][0].split()[0] if len(good) < len(p) else p[-1][0].split()[0]
                crash.append((i, "exit status %d: %s" % (r.returncode, " ".join(r.stderr.split())[:400])))
            elif len(good) != len(p):
                raise conf.Trouble("%s lost walks" % harness)
            if not good:
                return [], crash, 0, 0
            tr = os.path.join(d, "%d.ndjson" % n)
            with open(tr, "w") as f:
                for g in good:
                    f.write(json.dumps(g, separators=(",", ":")) + "\n")
            rc, out = conf.tlc(module, cfg, {"TRACE": tr}, cwd=d, mem="3g")
            reps = conf.parse_reports(out)
            st, tn = conf.stats(out)
            nops = sum(len(g["ops"]) for g in good)
            if rc or (not reps and st != nops + len(good)):
                raise conf.Trouble("TLC rc=%d states=%d ops=%d\n%s" % (rc, st, nops, out[-2500:]))
            return [(x[1], x[2], x[3]) for x in reps], crash, nops, st
        with ThreadPoolExecutor(shards) as ex:
            outs = list(ex.map(one, enumerate(parts)))
        F, C, n, s = [], [], 0, 0
        for f, c, a, b in outs:
            F += f
            C += c
            n += a
            s += b
        return F, C, n, s
    finally:
        shutil.rmtree(d, ignore_errors=True)


def full_graph(chk, harness, module, prefix, consts, header, line, init_of, extra=(0, 0)):
    """enumerate, walk, replay, check"""
    rng = random.Random("%s/%s" % (prefix, chk.seed))
    d = conf.scratch()
    try:
        gc = cfg_with(d, prefix + "Gen", consts)
        cc = os.path.join(conf.SPEC, prefix + "Check.cfg")
        edges, st, tn = graph(module, gc, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    inits = sorted({e[0] for e in edges if init_of(e[0])})
    ws = walks(edges, inits, 60, rng)
    if extra[0]:
        ws += random_walks(edges, inits, extra[0], extra[1], rng)
    scripts = [(header("%s-%d" % (prefix, i), i, w[0]), [line(e[2]) for e in w[1]]) for i, w in enumerate(ws)]
    F, C, n, s = replay(harness, module, cc, scripts)
    bodies = {h.split()[0]: (h, ls) for h, ls in scripts}
    for i, step, text in F:
        h, ls = bodies[i]
        chk.violation(i + ".walk", "%s step %s: %s" % (i, step, text), "### %s\n%s\n" % (h, "\n".join(ls[:step])))
    for i, text in C:
        h, ls = bodies[i]
        chk.violation(i + ".walk", "%s: crash: %s" % (i, text), "### %s\n%s\n" % (h, "\n".join(ls)))
    if len(chk.cov["samples"]) < 3:
        chk.cov["samples"].append({"walk of " + module: scripts[0][0], "steps": scripts[0][1][:25]})
    chk.cov["calls_checked"] += n
    return dict(states=st + s, transitions=tn + n, traces=len(scripts), spec_states=st, spec_transitions=len(edges), spec_transitions_replayed_in_the_code=len(edges), exhaustive_within=str(consts))


def circ(chk, sizes="{1, 2, 3, 5, 7}", extra=(60, 80)):
    return full_graph(chk, "circ", "CircBuf.tla", "Circ", {"SIZES": sizes}, lambda i, n, s: "%s %s" % (i, s.strip("<> ").split(",")[0]),
                      lambda o: "%s %d %d %d" % (o["o"], o["n"], o["f"], o["m"]), lambda v: v.replace(" ", "").endswith(",0,0>>"), extra)


def lst(chk, a=3, b=2, keys="{1, 2}", extra=(60, 80)):
    return full_graph(chk, "list", "ListSpec.tla", "List", {"MAXA": a, "MAXB": b, "KEYS": keys}, lambda i, n, s: "%s %d" % (i, n % 3 == 2),
                      lambda o: "%s %s %d %d %d" % (o["o"], o["l"], o["p"], o["k"], o["m"]), lambda v: v.replace(" ", "") == "<<<<>>,<<>>,0>>", extra)


# ---- SubGen and PubGen: walks become scenarios of harness/sim.c, checked by Conform.tla

def sub_script(ops, np, rng):
    L = ["base %d" % rng.choice([0, 1700000000000000, 2147400000]), "pidbase %d" % rng.choice([0, 0, 4294967293, 1 << 40])]
    same_ip = rng.random() < .5
    ip = {i: "10.0.0.5" if same_ip else "10.0.0.%d" % (4 + i) for i in range(1, np + 1)}
    port = {i: 7000 + (i if same_ip or rng.random() < .5 else 0) for i in range(1, np + 1)}
    node = {i: hex(0x30 + (i if rng.random() < .6 else 0)) for i in range(1, np + 1)}
    for i in ip:
        L.append("raw r%d ip=%s port=%d" % (i, ip[i], port[i]))
    L += ["sub s1 ip=10.0.1.1 node=0x21 max=%d auto=0" % (np + rng.choice([0, 1])), "act s1"]
    ln = {}

    def inj(i, pid):
        k = (i, pid)
        ln.setdefault(k, rng.choice([0, 1, 3, 30]))
        L.extend(["inj s1 %d %d %d ip=%s src=%s port=%d node=%s" % (pid, ln[k], 100 * i + pid, ip[i], ip[i], port[i], node[i]), "netall s1", "r s1 M"])
    for o in ops:
        i, p, x = o["i"], o["p"], o["o"]
        if x == "an":
            inj(i, 0)
        elif x == "mc":
            inj(i, p)
        elif x == "wc":
            L.append("w s1 @r%d" % i)
        elif x == "wf":
            L.append("w s1 @r%d -1 111" % i)
        elif x == "tc":
            ln.setdefault((i, p), rng.choice([0, 1, 3, 30]))
            L += ["rpkt r%d %d %d %d node=%s" % (i, p, ln[i, p], 100 * i + p, node[i]), "r s1 @r%d -1" % i]
        elif x == "cl":
            L.append("close s1 @r%d" % i)
        elif x == "pc":
            L += ["rclose r%d" % i, "r s1 @r%d -1" % i]
        elif x == "bb":
            L += ["rbyte r%d %d" % (i, rng.choice([0, 2, 3, 7, 255])), "r s1 @r%d -1" % i]
        elif x == "wr":
            L.append("w s1 @r%d -1" % i)
        elif x == "wp":
            L.append("w s1 @r%d %d" % (i, p))
        elif x == "ct":
            L.append("ctl s1 a %s %d 2 %d" % (ip[i], port[i], rng.randrange(1 << 20)))
        elif x == "d":
            L.append("d s1")
        elif x == "dk":
            L.append("d s1 1")
        elif x == "tm":
            L.append("t s1")
        elif x == "tk":
            L.append("tick %d" % p)
        else:
            raise conf.Trouble("op " + x)
    return L + ["deact s1", "del s1"]


def pub_script(ops, ns, s, r, rng):
    L = ["base %d" % rng.choice([0, 1700000000000000, 2147400000]), "pidbase %d" % rng.choice([0, 0, 0, 4294967293, 1 << 40]), "pub p1 ip=10.0.0.1 node=0x11 max=%d port=7000 ctl=%d acb=0" % (ns + rng.choice([0, 1]), rng.random() < .5)]
    for i in range(1, ns + 1):
        L.append("raw r%d ip=10.0.1.%d" % (i, i))
    L.append("act p1")
    if s:
        L.append("thr p1 %d %d" % (s, r))
    n = 0
    for o in ops:
        i, a, b, x = o["i"], o["a"], o["b"], o["o"]
        if x == "q":
            n += 1
            L.append("q p1 %d %d" % (rng.choice([0, 1, 3, 40]), n))
        elif x == "wm":
            L.append("w p1 M")
        elif x in ("we", "wx"):
            L += ["fault sendmsg %d %d" % (a, 11 if x == "we" else rng.choice([90, 101, 105])), "w p1 M"]
        elif x == "rc":
            L += ["rconn r%d p1" % i, "r p1 L"]
        elif x == "ra":
            L += ["rack r%d %d %d" % (i, a, b), "r p1 @r%d -1" % i]
        elif x == "cl":
            L.append("close p1 @r%d" % i)
        elif x == "pc":
            L += ["rclose r%d" % i, "r p1 @r%d -1" % i]
        elif x == "bb":
            L += ["rbyte r%d %d" % (i, rng.choice([0, 1, 4, 7, 255])), "r p1 @r%d -1" % i]
        elif x == "wt":
            L.append("w p1 @r%d -1" % i)
        elif x == "wp":
            L.append("w p1 @r%d %d" % (i, a))
        elif x == "tk":
            L.append("tick %d" % a)
        elif x == "tm":
            L.append("t p1")
        elif x == "ai":
            L.append("ann p1 %d" % a)
        else:
            raise conf.Trouble("op " + x)
    return L + ["deact p1", "del p1"]


PUBSTEPS = ["socket 1", "setsockopt 1", "socket 2", "setsockopt 2", "setsockopt 3", "bind 1", "listen 1"]
SUBSTEPS = ["socket 1", "setsockopt 1", "setsockopt 2", "bind 1", "setsockopt 3", "setsockopt 4"]


def lifepub_script(ops, ns, mx, rng):
    L = ["base %d" % rng.choice([0, 1700000000000000]), "pub p1 ip=10.0.0.1 node=0x11 max=%d port=%d%s" % (mx, rng.choice([0, 0, 7000]), rng.choice(["", "", " lip=10.0.0.1 mif=10.0.0.1"] + ([] if any(o["o"] in ("nq", "nc", "nx", "dq", "dc", "Dq", "aq", "an", "aD") for o in ops) else [" dcb=0", " ccb=1 ctl=0"])))]
    for i in range(1, ns + 1):
        L.append("raw r%d ip=10.0.1.%d" % (i, rng.choice([1, i])))
    n = 0
    for o in ops:
        i, x = o["i"], o["o"]
        if x in ("act", "deact"):
            L.append(x + " p1")
        elif x == "af":
            L += ["fault %s %d" % (PUBSTEPS[i - 1], rng.choice([1, 13, 22, 24, 98])), "act p1"]
        elif x == "cx":
            L.append("close p1 =%d" % rng.choice([mx, 9, 31, 200]))
        elif x == "ttl":
            L.append("ttl p1 %d" % rng.choice([0, 1, 3, 255]))
        elif x == "rc":
            L.append("rconn r%d p1" % i)
        elif x in ("ac", "ar"):
            L += ["ccb p1 %d" % (x == "ac"), "r p1 L"]
        elif x == "ax":
            L += ["fault accept 1 %d" % rng.choice([24, 103, 11]), "r p1 L"]
        elif x == "as":
            L += ["fault setsockopt 1 22", "r p1 L"]
        elif x == "cl":
            L.append("close p1 @r%d" % i)
        elif x == "pc":
            L += ["rclose r%d" % i, "r p1 @r%d -1" % i]
        elif x == "rs":
            L += ["fault readv 1 %d" % rng.choice([104, 110]), "r p1 @r%d -1" % i]
        elif x == "ra":
            L += [rng.choice(["rack r%d 1 100000", "rackw r%d 0 18446744073709551615", "rackw r%d 1 9223372036854775808"]) % i, "r p1 @r%d -1" % i]
        elif x == "ri":
            L += [rng.choice(["rackw r%d 18446744073709551615 0", "rackw r%d 18446744073709551614 18446744073709551615", "rackw r%d 0 0", "rackw r%d 9223372036854775807 1"]) % i,
                  "r p1 @r%d -1" % i]
        elif x == "bb":
            L += ["rbyte r%d %d" % (i, rng.choice([0, 1, 4, 7, 255])), "r p1 @r%d -1" % i]
        elif x == "bl":     # a control message that is too long for any queue
            L += ["rctl r%d %d %d" % (i, rng.choice([65397, 65398, 65535]), n)] + ["r p1 @r%d %d" % (i, k) for k in rng.choice([(), (2,), (1, 1)])] + ["r p1 @r%d -1" % i]
        elif x == "q":
            n += 1
            L.append("q p1 %d %d" % (rng.choice([0, 1, 3, 40]), n))
        elif x in ("nq", "nc"):     # from within the control callback
            n += 1
            L += ["on p1 ctl 0 " + ("close @r%d" % o["j"] if x == "nc" else "q %d %d" % (rng.choice([0, 1, 3, 40]), n))]
            L += ["rctl r%d %d %d" % (i, rng.choice([1, 3, 50]), n), "r p1 @r%d -1" % i]
        elif x == "nx":
            L += ["on p1 ctl 0 deact", "rctl r%d %d %d" % (i, rng.choice([1, 3, 50]), n)] + rng.choice([[], ["rack r%d 1 1" % i], ["rctl r%d 3 1" % i], ["rbyte r%d 9" % i]]) + ["r p1 @r%d -1" % i]
        elif x == "aD":
            L += ["on p1 cc 0 deact", "ccb p1 1", "r p1 L"]
        elif x in ("dq", "dc"):     # from within the disconnect callback
            n += 1
            L += ["on p1 dc 0 " + ("close @r%d" % o["j"] if x == "dc" else "q %d %d" % (rng.choice([0, 1, 3, 40]), n))]
            L += rng.choice([["close p1 @r%d" % i], ["rclose r%d" % i, "r p1 @r%d -1" % i], ["fault readv 1 104", "r p1 @r%d -1" % i], ["rbyte r%d 9" % i, "r p1 @r%d -1" % i]])
        elif x == "Dq":
            n += 1
            L += ["on p1 dc 0 q %d %d" % (rng.choice([0, 1, 3, 40]), n), "deact p1"]
        elif x in ("aq", "an"):     # from within the connect callback
            n += 1
            L += ["on p1 cc 0 " + ("close @r%d" % i if x == "an" else "q %d %d" % (rng.choice([0, 1, 3, 40]), n)), "ccb p1 1", "r p1 L"]
        elif x == "wm":
            L.append("w p1 M")
        else:
            raise conf.Trouble("op " + x)
    return L + (["deact p1"] if rng.random() < .5 else []) + ["del p1"]


def lifesub_script(ops, np, mx, rng):
    L = ["base %d" % rng.choice([0, 1700000000000000])]
    same_ip = rng.random() < .5
    P = {i: ("10.0.0.5" if same_ip else "10.0.0.%d" % (4 + i), 7000 + (i if same_ip else 0), hex(0x30 + i)) for i in range(1, np + 1)}
    for i in P:
        L.append("raw r%d ip=%s port=%d" % (i, P[i][0], P[i][1]))
    L.append("sub s1 ip=10.0.1.1 node=0x21 max=%d auto=0%s" % (mx, rng.choice(["", "", " alloc=0", " mif=10.0.1.1"] + ([] if any(o["o"][0] == "n" for o in ops) else [" cmp=0 rdy=0"]))))

    def inj(i, pid, ln, *kw):
        L.extend([" ".join(["inj s1 %d %d %d ip=%s src=%s port=%d node=%s" % (pid, ln, 100 * i + pid, rng.choice(["0.0.0.0", P[i][0]]), P[i][0], P[i][1], P[i][2]), *kw]), "netall s1"])
    for o in ops:
        i, p, x = o["i"], o["p"], o["o"]
        if x in ("act", "deact"):
            L.append(x + " s1")
        elif x == "af":
            L += ["fault %s %d" % (SUBSTEPS[i - 1], rng.choice([1, 13, 22, 24, 98])), "act s1"]
        elif x == "cx":
            L.append("close s1 =%d" % rng.choice([mx, 9, 31, 200]))
        elif x in ("an", "aN", "aX"):
            L.append("annret s1 %d" % (x != "aN"))
            inj(i, 0, rng.choice([0, 5]))
            L += (["fault %s" % rng.choice(["connect 1 111", "connect 1 101", "socket 1 24"])] if x == "aX" else []) + ["r s1 M"]
        elif x == "mc":
            inj(i, p, 3 * i)
            L.append("r s1 M")
        elif x in ("nd", "nC", "nT", "nxr", "nxt"):       # from within the ready callback
            L.append("on s1 rdy 0 " + ("d" if x == "nd" else "deact" if x[1] == "x" else "close @r%d" % i))
            if x in ("nT", "nxt"):
                L.append("rpkt r%d %d %d %d node=%s" % (i, p, 3 * i, 100 * i + p, P[i][2]))
                L += rng.choice([[], ["rpkt r%d %d %d %d node=%s" % (i, p, 3 * i, 100 * i + p, P[i][2])], ["rbyte r%d 9" % i]])
                L.append("r s1 @r%d -1" % i)
            else:
                inj(i, p, 3 * i)
                L.append("r s1 M")
        elif x == "nw":
            L += ["on s1 cmp 0 close @r%d" % i, "w s1 @r%d" % i]
        elif x == "nxw":
            L += ["on s1 cmp 0 deact", "w s1 @r%d" % i]
        elif x in ("na", "nxa"):
            L += ["on s1 ann 0 " + ("deact" if x == "nxa" else "close @r%d" % p), "annret s1 1"]
            inj(i, 0, rng.choice([0, 5]))
            L.append("r s1 M")
        elif x == "bd":
            n = rng.choice([0, 1, 40, 65535])
            inj(p, rng.choice([0, 1, 2, 3]), n, "tot=%d" % (rng.randrange(1, 20) if i == 1 or n == 0 else rng.randrange(20, 20 + min(n, 2000))))
            L.append("r s1 M")
        elif x == "wc":
            L.append("w s1 @r%d" % i)
        elif x == "wf":
            L.append("w s1 @r%d -1 111" % i)
        elif x == "cl":
            L.append("close s1 @r%d" % i)
        elif x == "pc":
            L += ["rclose r%d" % i, "r s1 @r%d -1" % i]
        elif x == "rs":
            L += ["fault readv 1 %d" % rng.choice([104, 110]), "r s1 @r%d -1" % i]
        elif x == "bb":
            L += ["rbyte r%d %d" % (i, rng.choice([0, 2, 3, 7, 255])), "r s1 @r%d -1" % i]
        elif x == "bl":     # a packet that is too long for any queue
            L += ["rpkt r%d %d %d 7" % (i, rng.choice([1, 2, 3]), rng.choice([65379, 65400, 65535]))] + ["r s1 @r%d %d" % (i, k) for k in rng.choice([(), (20,), (1, 1)])] + ["r s1 @r%d -1" % i]
        elif x == "d":
            L.append("d s1")
        else:
            raise conf.Trouble("op " + x)
    return L + (["deact s1"] if rng.random() < .5 else []) + ["del s1"]


def core_graph(chk, module, consts, script, tag, limit=None, walklen=50):
    """limit: how many walks at most (all: None)"""
    rng = random.Random("%s/%s" % (tag, chk.seed))
    d = conf.scratch()
    try:
        edges, st, tn = graph(module + ".tla", cfg_with(d, module, consts), d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    init = edges[0][0]
    ws = walks(edges, [init], walklen, rng, limit)
    done = len({(e[0], e[1], str(e[2])) for _, w in ws for e in w})
    sc = [("%s-%d" % (tag, i), script([e[2] for e in w], rng)) for i, (_, w) in enumerate(ws)]
    before = chk.cov["calls_checked"]
    chk.scripts(sc, tag)
    return dict(states=st, transitions=tn, spec_states=st, spec_transitions=len(edges), spec_transitions_replayed_in_the_code=done, walks=len(ws),
                calls=chk.cov["calls_checked"] - before, constants=consts, exhaustive=done == len({(e[0], e[1], str(e[2])) for e in edges}))


def subgen(np=1, w=3, ready=2, out=2, ctl=False, limit=None, tick=25000, leave=()):
    def f(chk):
        c = dict(NP=np, W=w, MAXREADY=ready, MAXOUT=out, CTL=str(ctl).upper(), TICK=tick, NOT="{%s}" % ", ".join('"%s"' % x for x in leave))
        return core_graph(chk, "SubGen", c, lambda ops, rng: sub_script(ops, np, rng), "SubGen-%d-%d-%d-%d-%s-%d" % (np, w, ready, out, ctl, len(leave)), limit)
    return f


def pubgen(ns=1, w=3, q=2, out=2, s=0, r=0, ann=False, limit=None):
    def f(chk):
        c = dict(NS=ns, W=w, MAXQ=q, MAXOUT=out, S=s, R=r, ANN=str(ann).upper())
        return core_graph(chk, "PubGen", c, lambda ops, rng: pub_script(ops, ns, s, r, rng), "PubGen-%d-%d-%d-%d-%d-%d-%s" % (ns, w, q, out, s, r, ann), limit)
    return f


def lifepub(ns=3, mx=2, w=1, limit=None):
    return lambda chk: core_graph(chk, "LifePub", dict(NS=ns, MAX=mx, W=w), lambda ops, rng: lifepub_script(ops, ns, mx, rng), "LifePub-%d-%d-%d" % (ns, mx, w), limit)


def lifesub(np=2, mx=1, ready=1, bad=2, limit=None):
    return lambda chk: core_graph(chk, "LifeSub", dict(NP=np, MAX=mx, MAXREADY=ready, BAD=bad), lambda ops, rng: lifesub_script(ops, np, mx, rng), "LifeSub-%d-%d-%d-%d" % (np, mx, ready, bad), limit)


# ---- RMC: the closed system; TLC checks invariants and liveness, its behaviours are replayed with the real library on both sides

ACT = re.compile(r'Do\(<<\\?"(\w+)\\?", (\d+), (\d+), (\d+)>>\)')


def rmc_script(ops, np, ns, thr, rng):
    L = ["base %d" % rng.choice([0, 1700000000000000, 2147400000])]
    pubs, subs = range(1, np + 1), range(1, ns + 1)
    same = rng.random() < .5
    node = 0x11 if rng.random() < .3 else 0
    port = {i: 7000 if node or rng.random() < .7 else 0 for i in pubs}
    for i in pubs:
        L.append("pub p%d ip=10.0.0.%d node=%s max=%d port=%d acb=%d" % (i, i, hex(node or 0x10 + i), ns + rng.choice([0, 1]), port[i], rng.random() < .5))
    for i in subs:
        L.append("sub s%d ip=10.0.1.%d node=%s max=%d auto=0" % (i, i, hex(0x20 + (0 if same else i)), np + rng.choice([0, 1])))
    L += ["act p%d" % i for i in pubs] + ["act s%d" % i for i in subs]
    if thr[0]:
        L += ["thr p%d %d %d" % (i, *thr) for i in pubs]
    n, seen = 0, set()
    big = rng.random() < .15
    for o, p, s, x in ops:
        n += 1
        ln = rng.choice([4, 5, 6, 9, 40, 300] + ([20000, 65384] if big else []))
        if o == "queue":        # at most one empty payload: the monitor tells payloads apart by their bytes
            e = "e" not in seen and rng.random() < .1
            seen |= {"e"} if e else set()
            L.append("q p%d %d %d" % (p, 0 if e else ln, n))
        elif o == "send":
            L.append("w p%d M" % p)
        elif o == "ann":
            L += ["ann p%d 1000" % p, "tick 1000", "t p%d" % p, "ann p%d 0" % p]
        elif o == "ptime":
            L += ["tick %d" % rng.choice([100000, 100000, 130000]), "t p%d" % p]
        elif o == "stime":
            L += ["tick %d" % rng.choice([50000, 50000, 70000]), "t s%d" % s]
        elif o == "acc":
            L.append("r p%d L" % p)
        elif o in ("pwrite", "pread"):
            L.append("%s p%d @s%d -1" % (o[1], p, s))
        elif o in ("swrite", "sread"):
            L.append("%s s%d @p%d -1" % (o[1], s, p))
        elif o == "pclose":
            L.append("close p%d @s%d" % (p, s))
        elif o == "sclose":
            L.append("close s%d @p%d" % (s, p))
        elif o in ("dlv", "dup"):
            L += ["net s%d %s p%d %d" % (s, "deliver" if o == "dlv" else "dup", p, x), "r s%d M" % s]
        elif o == "lose":
            L.append("net s%d drop p%d %d" % (s, p, x))
        elif o == "compl":
            L.append("w s%d @p%d" % (s, p))
        elif o == "take":
            L.append("d s%d" % s)
        elif o == "ctl":
            L.append("ctl s%d %s %d %d" % (s, "a 10.0.0.%d 7000" % p if node else "n %x" % (0x10 + p), ln % 400, n))
        else:
            raise conf.Trouble("op " + o)
    L.append("settle")
    for i in subs:
        L += ["deact s%d" % i, "del s%d" % i]
    for i in pubs:
        L += ["deact p%d" % i, "del p%d" % i]
    return L


def rmc_graph(np, ns, limit=None, walklen=70, live=True, **c):
    """exhaustive: invariants and liveness, then walks over the graph"""
    c = dict(dict(PUBS="{%s}" % ", ".join(map(str, range(1, np + 1))), SUBS="{%s}" % ", ".join(map(str, range(1, ns + 1)))), **c)

    def f(chk):
        tag = "RMC-" + "-".join(re.sub(r"\W", "", str(v)) for v in c.values())
        rng = random.Random("%s/%s" % (tag, chk.seed))
        d = conf.scratch()
        try:
            cfg = cfg_with(d, "RMC", c)
            if not live:
                t = open(cfg).read().replace("PROPERTY Rest", "")
                open(cfg, "w").write(t)
            dot = os.path.join(d, "g.dot")
            rc, out = conf.tlc("RMC.tla", cfg, args=("-dump", "dot,actionlabels", dot), cwd=d, workers=1 if limit == 0 else 4, mem="12g", timeout=3000)
            if rc or "No error has been found" not in out:
                raise conf.Trouble("TLC on RMC %s: rc=%d\n%s" % (c, rc, out[-3000:]))
            st, tn = conf.stats(out)
            edges, init = [], None
            for ln in open(dot, errors="replace"):
                m = re.match(r"(-?\d+)( -> (-?\d+))? \[label=", ln)
                if m and m.group(2):
                    a = ACT.search(ln)
                    edges.append((m.group(1), m.group(3), (a.group(1), int(a.group(2)), int(a.group(3)), int(a.group(4)))))
                elif m and init is None:
                    init = m.group(1)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        ws = walks(edges, [init], walklen, rng, limit)
        done = len({e for _, w in ws for e in w})
        sc = [("%s-%d" % (tag, i), rmc_script([e[2] for e in w], np, ns, (c.get("S", 0), c.get("R", 0)), rng)) for i, (_, w) in enumerate(ws)]
        before = chk.cov["calls_checked"]
        chk.scripts(sc, tag)
        return dict(states=st, transitions=tn, spec_states=st, spec_transitions=len(set(edges)), spec_transitions_replayed_in_the_code=done, walks=len(ws),
                    calls=chk.cov["calls_checked"] - before, constants=c, liveness_checked=live, exhaustive=done == len(set(edges)))
    return f


def rmc_sim(np, ns, num, depth, procs=8, **c):
    """random behaviours of larger configurations"""
    c = dict(dict(PUBS="{%s}" % ", ".join(map(str, range(1, np + 1))), SUBS="{%s}" % ", ".join(map(str, range(1, ns + 1)))), **c)

    def f(chk):
        tag = "RMCsim-" + "-".join(re.sub(r"\W", "", str(v)) for v in c.values())
        rng = random.Random("%s/%s" % (tag, chk.seed))
        d = conf.scratch()
        try:
            cfg = cfg_with(d, "RMC", c)
            t = open(cfg).read().replace("PROPERTY Rest", "")
            open(cfg, "w").write(t)

            def one(k):
                rc, out = conf.tlc("RMC.tla", cfg, args=("-simulate", "file=%s/b%d,num=%d" % (d, k, max(1, num // procs)), "-depth", str(depth), "-seed", str(chk.seed * 1000 + k)), cwd=d, mem="2g", timeout=2000)
                if rc or "Error:" in out:
                    raise conf.Trouble("TLC on RMC %s: rc=%d\n%s" % (c, rc, out[-3000:]))
                m = re.search(r"number of states generated: ([\d,]+)", out)
                return int(m.group(1).replace(",", "")) if m else 0
            with ThreadPoolExecutor(procs) as ex:
                st = sum(ex.map(one, range(procs)))
            sc = []
            for fn in sorted(os.listdir(d)):
                if re.match(r"b\d+_", fn):
                    ops = [(a[0], int(a[1]), int(a[2]), int(a[3])) for a in ACT.findall(open(os.path.join(d, fn), errors="replace").read())]
                    sc.append(("%s-%s" % (tag, fn), rmc_script(ops, np, ns, (c.get("S", 0), c.get("R", 0)), rng)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        before = chk.cov["calls_checked"]
        chk.scripts(sc, tag)
        return dict(states=st, transitions=st, behaviours=len(sc), depth=depth, calls=chk.cov["calls_checked"] - before, constants=c, exhaustive=False)
    return f


def pairs(chk, jobs_of, what, sides):
    """two executions of every scenario, compared step by step by TLC (Pair); jobs_of: [(id, lines one way, lines the other way)]; what(op): the text of a step, "" if it is not compared"""
    exe = B.build("sim")
    d = conf.scratch()
    body = {i: x for i, x, _ in jobs_of}

    def ops(t):
        return [what(o) for o in t["ops"]] + (["crash %s" % t["crash"].get("w")] if t["crash"] else [])

    def one(a):
        q, p = a
        x, _ = conf.run_sim(exe, [(i, u) for i, u, _ in p], d, "a%d" % q)
        y, _ = conf.run_sim(exe, [(i, v) for i, _, v in p], d, "b%d" % q)
        tr = os.path.join(d, "p%d.ndjson" % q)
        steps = calls = 0
        with open(tr, "w") as g:
            for s, t in zip(x, y):
                ao, bo = ops(s), [o for o in ops(t) if o]
                steps += len(ao) + 1
                calls += len(s["ops"]) + len(t["ops"])
                g.write(json.dumps({"id": s["id"], "a": ao, "b": bo}) + "\n")
        rc, out = conf.tlc("Pair.tla", "Pair.cfg", {"TRACE": tr}, cwd=d, mem="3g")
        st, tn = conf.stats(out)
        if rc or st != steps:
            raise conf.Trouble("TLC on Pair: rc=%d states=%d expected=%d\n%s" % (rc, st, steps, out[-2000:]))
        return conf.parse_reports(out), st, tn, len(x), calls
    try:
        parts = [(q, jobs_of[q::8]) for q in range(8) if jobs_of[q::8]]
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, parts))
        seen, bad = set(), []
        for reps, *_ in outs:
            for i, step, a, b in reps:
                if i not in seen:
                    seen.add(i)
                    bad.append((i, step, a, b))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for i, step, a, b in bad:
        chk.violation(i + ".scn", "%s: %s, step %d is %s, and %s %s" % (i, sides[0], step, a[:200], sides[1], b[:200]), "### %s\n%s\n" % (i, "\n".join(body[i])))
    chk.cov["calls_checked"] += sum(o[4] for o in outs)
    return dict(states=sum(o[1] for o in outs), transitions=sum(o[2] for o in outs), traces=2 * sum(o[3] for o in outs))


def log_pair(n=160):
    """every scenario twice, with the log and without"""
    def f(chk):
        import gen

        def text(o):
            if o["k"] in ("log", "logmsg"):
                return ""
            o = dict(o)
            o.pop("lg", None)
            return json.dumps(o, sort_keys=True)
        return pairs(chk, [(i, ls, [l for l in ls if l.split()[0] not in ("log", "logmsg")]) for i, ls in gen.make("logs", chk.seed * 7 + 3, n)], text, ("with the log", "without it"))
    return f


def apart_pair(n=200):
    """every scenario twice, next to another one in the same process and on its own"""
    def f(chk):
        import gen
        def text(o):        # memory may be shared: it is not compared
            if o.get("wd"):
                return ""
            return json.dumps({k: v for k, v in o.items() if k not in ("mm", "lk", "mem")}, sort_keys=True)
        jobs = []
        for i in range(n):
            a, both = gen.apart(chk.seed, i)
            jobs.append(("apart-%d-%d" % (chk.seed, i), both, a))
        # a scenario that crashes without a neighbour says nothing here
        exe = B.build("sim")
        d = conf.scratch()
        try:
            def crashes(a):
                q, js = a
                r, _ = conf.run_sim(exe, [(i, x) for i, x, _ in js], d, "c%d" % q)
                sus = [j for j, t in zip(js, r) if t["crash"]]
                r, _ = conf.run_sim(exe, [(i, [l[1:] for l in x if l[0] in "|>"]) for i, x, _ in sus], d, "d%d" % q) if sus else ([], 0)
                r2, _ = conf.run_sim(exe, [(i, x) for i, _, x in sus], d, "e%d" % q) if sus else ([], 0)
                return {t["id"] for t in list(r) + list(r2) if t["crash"]}
            with ThreadPoolExecutor(8) as ex:
                out = set().union(*ex.map(crashes, [(q, jobs[q::8]) for q in range(8) if jobs[q::8]]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        jobs = [j for j in jobs if j[0] not in out]
        r = pairs(chk, jobs, text, ("next to other contexts", "on its own"))
        return dict(r, left_out_because_they_crash_on_their_own=len(out))
    return f
