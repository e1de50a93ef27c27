#!/opt/venv/bin/python
"""Writes /verif/DESIGN.md: the text below plus one section per property taken from the checks themselves."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()
# property: (oracle, notes on domain and decisions)
N = json.load(open(os.path.join(HERE, "tools", "design_notes.json")))

seeds = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m["needs"]))
ALSO = {"c03-near-circular-series": "C10", "c08-rkf45-nominal-step": "C10", "c22-safety-length": "C26", "c23-penalty-units": "C05",
        "c24-gradient-without-penalty": "C05", "c24-coast-feels-thrust": "C08"}
out = [HEAD.rstrip(), ""]
for p in props:
    i = p["id"]
    m = importlib.import_module("vp.checks." + i.lower())
    n = N.get(i, {})
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["* **Technique**: %s." % man[i]["technique"]]
    if n.get("oracle"):
        out += ["* **Oracle**: %s" % n["oracle"]]
    out += ["* **Workload**: %s." % m.RULE.rstrip(".")]
    out += ["* **Bounds**: %d random cases quick, %d thorough, plus the structured ones; monitors that must have fired or the run is inconclusive: %s." % (
        m.N["quick"], m.N["thorough"], ", ".join("`%s`" % r for r in m.REQUIRED))]
    if getattr(m, "ASSUMPTIONS", None):
        out += ["* **Assumed / outside**: %s." % "; ".join(a.rstrip(".") for a in m.ASSUMPTIONS)]
    if n.get("notes"):
        out += ["* **Decisions**: %s" % n["notes"]]
    out += ["* **Beyond the tests**: %s" % p["why_tests_cant"]]
    s = seeds.get(i, [])
    if s:
        out += ["* **Planted changes caught** by this check (%d): %s." % (len(s), "; ".join("`%s`%s" % (d, " (also by %s)" % ALSO[d] if d in ALSO else "") for d, _ in s))]
    out += [""]
fx = [l.split(None, 3) for l in open(os.path.join(HERE, "known_findings.txt")) if l.startswith("fixed:")]
TAIL = TAIL.replace("FIXES", "\n".join("* %s `%s` %s" % (f[1].split("=")[1], f[2], f[3].strip()) for f in fx))
TAIL = TAIL.replace("SEEDN", str(sum(map(len, seeds.values()))))
mu = os.path.join(HERE, "tools", "mutation.md")
TAIL = TAIL.replace("MUTATION", open(mu).read().rstrip() if os.path.exists(mu) else "")
out.append(TAIL.rstrip())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len("\n".join(out)), "characters")
