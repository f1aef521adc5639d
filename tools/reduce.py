#!/usr/bin/env python3
"""reduce.py SCRIPTFILE ID KEY > smaller script.  KEY: KF1, KF2, a property id, or 'crash'. Greedy removal of script lines (development aid)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conf


def holds(R, key):
    bad = set()
    for k in R["known"]:
        if k["what"][0] == key:
            bad.add(k["id"])
    for f in R["fails"]:
        if key in f["labels"]:
            bad.add(f["id"])
    if key == "crash":
        bad |= {c[0] for c in R["crashes"]}
    return bad


def reduce(ls, key):
    size = max(1, len(ls) // 4)
    while True:
        cand = []
        for i in range(0, len(ls), size):
            c = ls[:i] + ls[i + size:]
            cand.append(("c%d" % i, c))
        R = conf.conform(cand)
        bad = holds(R, key)
        ok = [(i, c) for i, c in cand if i in bad]
        if ok:
            # try removing all removable pieces at once, else one
            drop = {int(i[1:]) for i, _ in ok}
            allc = [x for j, x in enumerate(ls) if (j // size) * size not in drop]
            if len(ok) > 1 and "all" in holds(conf.conform([("all", allc)]), key):
                ls = allc
            else:
                ls = ok[len(ok) // 2][1]
            continue
        if size == 1:
            return ls
        size = max(1, size // 2)


if __name__ == "__main__":
    s = dict(conf.load_scripts(sys.argv[1]))[sys.argv[2]]
    out = reduce(s, sys.argv[3])
    print("### %s" % sys.argv[2])
    print("\n".join(out))
