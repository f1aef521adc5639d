"""Development aid: writes the table of planted changes into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c07-ghost": "first missed; suite subconn added", "c23-refused-twice": "first missed by C23 (seen as C10/C14/C18); labels added",
    "c25-tail-loss": "first missed; suite cleanlate added", "c03-late-announce": "first written for C25, where it is not a violation",
}
MISSED.update(json.load(open(V + "/tools/missed.json")) if os.path.exists(V + "/tools/missed.json") else {})
L = ["| planted change | what it needs in order to manifest | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    n = MISSED.get(i, "")
    by = "not caught" if n.startswith("NOT") else "check " + m["property"]
    L.append("| %s | %s | %s%s |" % (i, m["needs"].replace("|", "/"), by, " (%s)" % n if n else ""))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- SEEDED -->.*<!-- /SEEDED -->", lambda _: "<!-- SEEDED -->\n" + "\n".join(L) + "\n<!-- /SEEDED -->", s, flags=re.S)
open(p, "w").write(s)
