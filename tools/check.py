#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's working tree.

Exit 0: it held on everything explored; exit 1 and a VIOLATION line: it did not; anything else: the machinery failed."""
import json, os, re, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import conf, gen, plan

VERIF = B.VERIF


def known_findings():
    out = {}
    for ln in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", ln.strip())
        if m:
            out[m.group(2)] = (m.group(1), m.group(3))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = []          # (replay path, text)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], calls_checked=0, suites={}, models={}, other_labels=[])
        self.rep = os.path.join(VERIF, "build", "replay", prop)
        os.makedirs(self.rep, exist_ok=True)
        self.knf = {}
        self.KF = known_findings()

    def violation(self, name, text, body):
        p = os.path.join(self.rep, re.sub(r"[^\w.-]", "_", name))
        with open(p, "w") as f:
            f.write(body)
        self.viol.append((p, text))

    def scripts(self, scripts, what):
        """run scripts in the real library, check the traces"""
        R = conf.conform(scripts)
        bodies = dict(scripts)
        self.cov["states"] += R["states"]
        self.cov["transitions"] += R["transitions"]
        self.cov["traces_validated_against_impl"] += len(R["traces"])
        n = sum(len(t["ops"]) for t in R["traces"])
        self.cov["calls_checked"] += n
        s = self.cov["suites"].setdefault(what, [0, 0])
        s[0] += len(R["traces"])
        s[1] += n
        if len(self.cov["samples"]) < 2 and scripts:
            self.cov["samples"].append({"scenario": scripts[0][0], "script": scripts[0][1][:60]})
        by = {}
        for f in R["fails"]:
            if self.prop in f["labels"]:
                by.setdefault(f["id"], []).append(f)
            elif len(self.cov["other_labels"]) < 20:
                self.cov["other_labels"].append("%s line %s: %s %s" % (f["id"], f["line"], f["labels"], f["msg"]))
        for i, fs in by.items():
            f = fs[0]
            self.violation(i + ".scn", "%s script line %s, %s of node %s: %s" % (i, f["line"], f["op"], f["node"], f["msg"]), "### %s\n%s\n" % (i, "\n".join(bodies[i])))
        again = [(c[0], bodies[c[0]]) for c in R["crashes"][:8]]
        if self.prop == "C31":      # it counts if it does not happen without the log: models.log_pair
            again = []
        if again:       # a crash or hang of the library: confirm it (a hang could be an overloaded machine)
            R2 = conf.conform(again, shards=2)
            ok = {c[0] for c in R2["crashes"]}
            for c in R["crashes"]:
                if c[0] in ok:
                    self.violation(c[0] + ".scn", "%s: the library crashed or hung: %s %s" % (c[0], c[1], c[2] or ""), "### %s\n%s\n" % (c[0], "\n".join(bodies[c[0]])))
        for k in R["known"]:
            self.knf.setdefault(k["what"][0], []).append(k["id"])

    def model(self, name, fn):
        """fn(self) -> dict(states, transitions, traces, ...)"""
        r = fn(self)
        self.cov["states"] += r.get("states", 0)
        self.cov["transitions"] += r.get("transitions", 0)
        self.cov["traces_validated_against_impl"] += r.get("traces", 0)
        self.cov["models"][name] = {k: v for k, v in r.items()}

    def run(self):
        P = plan.PLAN[self.prop]
        for name in P.get("models", []):
            if not self.viol:
                self.model(name, plan.MODELS[name])
        if P.get("findings"):
            self.scripts([(k.split("/")[-1], v) for k, v in conf.load_scripts(os.path.join(VERIF, "findings", "known.scn"))], "known findings")
        suites = P.get("suites", {})
        if suites and not self.viol:
            sc = []
            for s, n in suites.items():
                sc += gen.make(s, self.seed, n)
            self.scripts(sc, "+".join(suites))
        extra = P.get("extra")
        if extra:
            for name in extra:
                self.scripts(plan.EXTRA[name](self), name)
        if self.tier == "thorough":
            r = 0
            while suites and time.time() - self.t0 < plan.THOROUGH_S and not self.viol:
                r += 1
                sc = []
                for s, n in suites.items():
                    sc += gen.make(s, self.seed * 1000003 + r, n * 2)
                self.scripts(sc, "thorough: " + "+".join(suites))
            for name in P.get("thorough", []):
                if not self.viol:
                    self.model(name, plan.MODELS[name])

    def finish(self):
        kf = 0
        if plan.PLAN[self.prop].get("findings"):
            for k, (prop, text) in self.KF.items():
                if prop == self.prop and k in self.knf:
                    print("KNOWN-FINDING: property=%s %s: %s (e.g. scenario %s)" % (prop, k, text, self.knf[k][0]))
                    kf += 1
            for k, ids in self.knf.items():
                if k not in self.KF:
                    self.violation("unlisted-%s" % k, "a finding that is not listed: %s" % k, "\n".join(ids) + "\n")
        seen = 0
        for p, text in self.viol:
            seen += 1
            if seen <= 10:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + text)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.viol), assumptions=plan.ASSUMPTIONS + plan.PLAN[self.prop].get("assumptions", []))
        if kf:
            ev["coverage"]["known_findings_observed"] = {k: len(v) for k, v in self.knf.items()}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d traces, %d calls, %d states, %d violations, %.1f s" % (self.prop, self.cov["traces_validated_against_impl"], self.cov["calls_checked"], self.cov["states"],
                                                                              len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        c.run()
    except Exception:
        traceback.print_exc()
        if not c.viol:
            sys.exit(3)
    sys.exit(c.finish())


if __name__ == "__main__":
    main()
