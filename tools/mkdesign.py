"""DESIGN.md from DESIGN.in.md, the property table, the harness docstrings and
seeded/"""
import ast, json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
out = []
for l in open("properties.jsonl"):
    p = json.loads(l)
    t = ast.parse(open(f"pv/props/{p['id']}.py").read())
    doc = " ".join((ast.get_docstring(t) or "").split())
    ass = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(
                n.targets[0], "id", "") == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
    out.append(f"### {p['id']} {p['title']}\n\n{doc}\n\n"
               f"*Symbolic:* {p['quantifier']['text']}. *Tests cannot settle "
               f"it because* {p['why_tests_cant']}."
               + (f" *Assumptions:* {'; '.join(ass)}." if ass else ""))
s = open("tools/DESIGN.in.md").read().replace("@@PROPS@@", "\n\n".join(out))
rows = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
res = json.load(open("tools/seeded_results.json")) if os.path.exists(
    "tools/seeded_results.json") else {}
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[1]
    rows.append(f"| {i} | {m['property']} | {m['needs']} | "
                f"{res.get(i, '?')} |")
s = s.replace("@@SEEDED@@", "\n".join(rows))
mut = "tools/mutation.md"
s = s.replace("@@MUT@@", open(mut).read().strip() if os.path.exists(mut)
              else "")
open("DESIGN.md", "w").write(s.rstrip() + "\n")
