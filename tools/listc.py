"""listc.py: every contract with its mode in the last evidence and the first line of its docstring."""
import ast, json, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for f in sorted(glob.glob("contracts/[A-Z]*.py")):
    pid = os.path.basename(f)[:-3]
    modes = json.load(open(f"evidence/{pid}.json"))["coverage"].get("contracts", {}) if os.path.exists(f"evidence/{pid}.json") else {}
    print(f"== {pid}")
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                    kw = {k.arg: ast.unparse(k.value) for k in d.keywords}
                    doc = (ast.get_docstring(n) or "").split("\n")[0]
                    print(f"{n.name} [{modes.get(n.name, '?')}{' ' + kw['bound'] if 'bound' in kw else ''}] {doc}")
