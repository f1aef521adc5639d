"""Development aid: mechanical mutants of the library, to find behaviour no check looks at.
   usage: mutants.py list FILE... | run OUT.jsonl LANES FILE... | one DIR FILE   (scratch copies under /tmp/mut)"""
import glob, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r" == ", " != "), (r" != ", " == "), (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\breturn 0;", "return 1;"), (r"\breturn 1;", "return 0;"),
       (r"\breturn res;", "return 0;"), (r"\+\+", "--"), (r"--(?!>)", "++"), (r"if \((?!!)", "if (1 || "), (r"if \(", "if (0 && "), (r"while ?\(", "while (0 && "), (r"->prev\b", "->next"), (r"->next\b", "->prev"),
       (r"\bRMC_POLLREAD\b", "0"), (r"\bRMC_POLLWRITE\b", "0"), (r"_head\(", "_tail("), (r"_tail\(", "_head("), (r"\bhtonl\(", "("), (r"\bhtons\(", "("), (r"\bntohl\(", "("), (r"\bntohs\(", "(")]


def mutants(path):
    ls = open(path).read().split("\n")
    out, depth, com = [], 0, False
    for n, l in enumerate(ls):
        s = l.strip()
        if s.startswith("/*"):
            com = True
        skip = com or not s or s.startswith("//") or s.startswith("#") or "RMC_LOG" in s or "RMC_LIST_" in s or s.startswith("extern") or "strerror" in s or s.startswith('"')
        if "*/" in s:
            com = False
        if skip:
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if a.startswith("if") or a.startswith("while"):    # keep parentheses balanced: only whole conditions on one line
                    j = m.end()
                    d = 1
                    k = j
                    while k < len(code) and d:
                        d += {"(": 1, ")": -1}.get(code[k], 0)
                        k += 1
                    if d:
                        continue
                    new = code[:m.start()] + m.expand(b) + "(" + code[j:k - 1] + "))" + code[k:]
                out.append((n, l, new))
        if s.endswith(";") and re.match(r"^\s+[\w(*]", l) and not re.match(r"\s*(return|break|continue|goto|case|default|else|static|const|struct|typedef)\b", l) and (("(" in s and s.count("(") == s.count(")")) or re.search(r"[^=!<>]=[^=]", s) or "++" in s or "--" in s):
            # not a declaration, and not the continuation of a statement
            prev = next((x.strip() for x in reversed(ls[:n]) if x.strip() and not x.strip().startswith("//")), "")
            if not re.match(r"\s*[A-Za-z_]\w*(\s*\*+\s*|\s+\*?)[A-Za-z_]\w*(\s*=|\s*;|\[|,)", l) and (prev[-1:] in ";{})\\:" or prev.startswith("#")) and not (prev.endswith(")") and not re.match(r"(if|while|for|else)\b", prev.lstrip("} "))):
                out.append((n, l, re.match(r"\s*", l).group(0) + ";" + (" \\" if l.rstrip().endswith("\\") else "")))
    seen, res = set(), []
    for n, a, b in out:
        if a != b and (n, b) not in seen:
            seen.add((n, b))
            res.append((n, a, b))
    return res


def one(d, f):
    """what the checks say about the tree in d: prints KILLED how | SURVIVED | NOBUILD"""
    os.environ["VP_REPO"] = d
    sys.path.insert(0, V + "/tools")
    import build as B, conf, gen, models, check
    B.REPO = d
    made = []
    try:
        try:
            exe = B.build("sim")
        except SystemExit:
            print("NOBUILD")
            return
        made.append(os.path.dirname(exe))

        class C:
            seed, cov = 1, dict(samples=[], calls_checked=0)
            v = []

            def violation(self, n, t, b):
                self.v.append(t)
        for h, src, fn in (("circ", "circular_buffer", models.circ), ("list", "rmc_list_template", models.lst)):
            if src in f:
                made.append(os.path.dirname(B.build(h)))
                c = C()
                fn(c)
                if c.v:
                    print("KILLED model " + h + " " + c.v[0][:200])
                    return
        for n, seed, sh in ((1, 10, 2), (5, 11, 3), (12, 12, 4)):
            names = list(gen.SUITES)
            small = {"publong": 1, "sublong": 1, "pubmany": 1, "pubbulk": 1, "subbulk": 1, "submany": 1}
            sc = [x for s in names for x in gen.make(s, seed, small.get(s, n))]
            R = conf.conform(sc, shards=sh)
            if R["crashes"]:
                print("KILLED crash %s %s" % (R["crashes"][0][0], str(R["crashes"][0][1])[:150]))
                return
            if R["fails"]:
                lab = sorted({x for q in R["fails"] for x in q["labels"]})
                print("KILLED %d %s %s | %s" % (n, ",".join(lab), R["fails"][0]["id"], R["fails"][0]["msg"][:150]))
                return
        print("SURVIVED")
    except subprocess.TimeoutExpired:
        print("KILLED timeout")
    except conf.Trouble as e:
        print("TROUBLE " + str(e)[:300].replace("\n", " "))
    finally:
        for m in made:
            shutil.rmtree(m, ignore_errors=True)


def run(outp, lanes, files):
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            o = json.loads(l)
            done.add((o["f"], o["n"], o["new"]))
    work = [(f, *m) for f in files for m in mutants("/repo/" + f) if (f, m[0], m[2]) not in done]
    random.Random(1).shuffle(work)
    lock = threading.Lock()
    print(len(work), "mutants")

    def lane(k):
        d = "/tmp/mut/%s-%d" % (os.path.basename(outp), k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for p in glob.glob("/repo/*.[ch]"):
            shutil.copy(p, d)
        while True:
            with lock:
                if not work:
                    break
                f, n, a, b = work.pop(0)
            ls = open("/repo/" + f).read().split("\n")
            ls[n] = b
            open(d + "/" + f, "w").write("\n".join(ls))
            try:
                r = subprocess.run([sys.executable, os.path.abspath(__file__), "one", d, f], capture_output=True, text=True, timeout=600)
                res = (r.stdout.strip().splitlines() or ["ERROR " + r.stderr[-200:]])[-1]
            except subprocess.TimeoutExpired:
                res = "KILLED timeout"
            shutil.copy("/repo/" + f, d)
            with lock:
                with open(outp, "a") as o:
                    o.write(json.dumps(dict(f=f, n=n, old=a, new=b, res=res)) + "\n")
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for n, a, b in mutants("/repo/" + f):
                print("%s:%d\n  - %s\n  + %s" % (f, n + 1, a.strip(), b.strip()))
    elif sys.argv[1] == "run":
        run(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
    else:
        one(sys.argv[2], sys.argv[3])
