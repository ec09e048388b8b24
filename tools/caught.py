"""caught.py [SEED...]: run each seed's check against it and record in tools/design/caught.json what reports it."""
import json, pathlib, re, subprocess, sys
root = pathlib.Path("/verif")
f = root / "tools/design/caught.json"
known = json.loads(f.read_text())
for d in sorted((root / "seeded").iterdir()):
    if sys.argv[1:] and d.name not in sys.argv[1:]:
        continue
    p = json.loads((d / "meta.json").read_text())["property"]
    r = subprocess.run(["bash", "tools/iso.sh", str(d / "patch.diff"), "bash", "/verif/check.sh", p], cwd=root, capture_output=True, text=True)
    names = {}
    for l in r.stdout.splitlines():
        m = re.match(rf"VIOLATION property={p} replay=\S*/{p}-(\w+?)\.json(.*)", l)
        if m:
            names.setdefault(m[1], "no-failing-input-found" not in l)
    known[d.name] = f"{p}: " + ", ".join(f"`{n}`" + ("" if w else " (no failing input)") for n, w in sorted(names.items())) if names else "not caught"
    print(d.name, known[d.name], flush=True)
f.write_text(json.dumps({k: known[k] for k in sorted(known) if (root / "seeded" / k).exists()}, indent=1) + "\n")
