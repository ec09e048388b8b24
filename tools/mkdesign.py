"""Writes DESIGN.md."""
import ast, json, glob, os, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
D = runpy.run_path("tools/design/props.py")["D"]
props = [json.loads(l) for l in open("properties.jsonl")]
out = [open("tools/design/head.md").read(), "## 4. Per property\n\n`proved` = for all inputs; `bounded` = for all values up to the stated size; `native` = executed only.\n"]
for q in props:
    i = q["id"]
    e = json.load(open(f"evidence/{i}.json")) if os.path.exists(f"evidence/{i}.json") else {"coverage": {}, "assumptions": []}
    modes = e["coverage"].get("contracts", {})
    out.append(f"### {i} {q['title']}\n\n{D[i]}\n")
    for n in ast.parse(open(f"contracts/{i}.py").read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                    kw = {k.arg: k.value for k in d.keywords}
                    doc = " ".join((ast.get_docstring(n) or "").split())
                    m = modes.get(n.name, "?")
                    b = f" ({ast.literal_eval(kw['bound'])})" if "bound" in kw else ""
                    out.append(f"- `{n.name}` **{m}**{b}{': ' + doc if doc else ''}")
    a = [x for x in e["assumptions"] if isinstance(x, str)]
    if a:
        out.append("\nAssumed: " + "; ".join(a) + ".")
    out.append("")
k = json.load(open("known_findings.json"))
out.append("## 5. Findings and repairs\n\nRecorded, not repaired (`known_findings.json`, printed as KNOWN-FINDING on every run):\n")
for f in k["findings"]:
    out.append(f"- {f['property']} `{f['contract']}`: {f['what']}")
out.append("\nRepaired by `fix:` commits in /repo (each found by a failing obligation or its native search, each demonstrated on the code before the fix):\n")
for f in k["fixed"]:
    out.append("- " + f.removeprefix("fixed: "))
out.append("\n" + open("tools/design/tail.md").read())
out.append("## 8. Seeded changes (`/verif/seeded`)\n\n| id | property | needs | caught by |\n|---|---|---|---|")
caught = json.load(open("tools/design/caught.json"))
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[1]
    out.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
open("DESIGN.md", "w").write("\n".join(out) + "\n")
