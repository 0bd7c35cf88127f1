"""Writes DESIGN.md: head + one section per property (from tools/properties.py and rv/props) + findings + bugs."""
import importlib, json, os, re, sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
out = [open(f"{D}/DESIGN.head.md").read().rstrip()]
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
import properties
notes = {}
cur = None
for line in open(f"{D}/DESIGN.notes.md"):
    m = re.match(r"## (C\d\d)", line)
    if m:
        cur = m.group(1); notes[cur] = ""
    elif cur:
        notes[cur] += line
man = {c["property"]: c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]}
for p in props:
    src = open(f"{V}/rv/props/{p['id'].lower()}.py").read()
    rule = re.sub(r"\s+", " ", "".join(re.findall(r'"([^"]*)"', re.search(r"RULE = \((.*?)\)\n", src, re.S).group(1))))
    ass = re.search(r"ASSUMPTIONS = \[(.*?)\]\n", src, re.S)
    ass = [re.sub(r"\s+", " ", a) for a in re.findall(r'"([^"]*)"', ass.group(1))] if ass else []
    out.append(f"\n### {p['id']} {p['title']}\n")
    out.append(f"*Workload and oracle.* {rule[0].upper() + rule[1:]}.")
    if ass:
        out.append("*Assumes:* " + "; ".join(ass) + ".")
    if p["id"] in notes:
        out.append(notes[p["id"]].strip())
k = json.load(open(f"{V}/known_findings.json"))
out.append("\n## Defects found and repaired\n\nEach is a `fix:` commit in /repo; the check named reports it again if it returns.\n")
for f in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    out.append(f"* {m.group(1)} `{m.group(2)}` {m.group(3)}")
out.append("\n## Known findings (not repaired)\n")
out.append(open(f"{D}/DESIGN.findings.md").read().strip())
out.append("\n## Planted changes and what catches them\n")
out.append(open(f"{D}/DESIGN.seeds.md").read().strip())
out.append("\n| change | property | needs | quick check |\n|---|---|---|---|")
res = json.load(open(f"{D}/seed_results.json")) if os.path.exists(f"{D}/seed_results.json") else {}
for s in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, '?')} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
