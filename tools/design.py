"""fills the generated parts of DESIGN.md (table of checks, known findings, planted bugs) from DESIGN.in.md"""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + "/DESIGN.in.md").read()
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
rows = []
for p in props:
    f = H + "/evidence/%s.json" % p["id"]
    src = "".join(open(x).read() for x in glob.glob(H + "/checks/%s*.py" % p["id"].lower()))
    names = re.findall(r'@harness\("%s", "([\w ]+)"' % p["id"], src)
    rows.append("### %s %s\n" % (p["id"], p["title"]))
    rows.append(p["statement"] + "\n")
    doc = re.match(r'"""(.*?)"""', src, re.S)
    for m in re.finditer(r'@harness\("%s", "([\w ]+)"(.*?)\)\ndef ' % p["id"], src, re.S):
        b = re.search(r'bounds=((?:\s*"(?:[^"\\]|\\.)*"\s*)+)', m.group(2))
        bounds = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', b.group(1))) if b else ""
        rows.append("* `%s`: all inputs within: %s" % (m.group(1), bounds))
    rows.append("")
t = t.replace("@@TABLE@@", "\n".join(rows))
k = json.load(open(H + "/known_findings.json"))
t = t.replace("@@KNOWN@@", "\n".join("* %s: %s" % (e["property"], e["what"]) for e in k["known"]) or "No unrepaired finding.")
seeds = []
res = json.load(open(H + "/tools/seed_results.json")) if os.path.exists(H + "/tools/seed_results.json") else {}
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    seeds.append("* `%s` (%s): %s; needs %s. %s" % (n, m["property"], m["what_it_breaks"], m["needs"], res.get(n, "")))
t = t.replace("@@SEEDS@@", "\n".join(seeds))
open(H + "/DESIGN.md", "w").write(t)
