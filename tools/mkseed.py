"""mkseed.py SPEC.py...: turn a planted-bug description into /verif/seeded/<id>/ and try it.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import json, os, subprocess, sys, pathlib, tempfile
b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def one(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    d = pathlib.Path("/verif/seeded") / ns["ID"]
    d.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        for f, old, new in ns["EDITS"]:
            for side in "ab":
                q = pathlib.Path(t) / side / f
                q.parent.mkdir(parents=True, exist_ok=True)
                if side == "b" and q.exists():
                    s = q.read_text()
                else:
                    s = open("/repo/" + f).read()
                if side == "b":
                    assert s.count(old) == 1, (ns["ID"], f, old, s.count(old))
                    s = s.replace(old, new)
                q.write_text(s)
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv-%s/bin/python -B "$(dirname "$0")/demo.py"\n' % ns.get("VENV", "pb5"))
    (d / "meta.json").write_text(json.dumps({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    iso = ["bash", "/verif/tools/iso.sh"]
    out = [ns["ID"]]
    r = subprocess.run(iso + ["-", "bash", str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    out.append(f"demo clean {r.returncode}" + (r.stderr[-300:] if r.returncode else ""))
    r = subprocess.run(iso + [str(d / "patch.diff"), "bash", str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    out.append(f"patched {r.returncode} {(r.stdout + r.stderr)[-120:]!r}")
    o = f"/tmp/seed-{ns['ID']}.json"
    if "--notest" not in sys.argv:
        r = subprocess.run(iso + [str(d / "patch.diff"), "bash", "-c", f"bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILDFAIL; bash /opt/vp/test.sh {o} >/dev/null 2>&1"], capture_output=True, text=True)
        ps = set(json.load(open(o))["passed"])
        lost = [x for x in b if x not in ps]
        out.append(f"tests lost {len(lost)} {lost[:3]} {r.stdout.strip()}")
    r = subprocess.run(iso + [str(d / "patch.diff"), "bash", "/verif/check.sh", ns["PROPERTY"]], capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    out.append(f"check {r.returncode} {v[:2]}")
    print("\n   ".join(out), flush=True)
for s in sys.argv[1:]:
    if not s.startswith("--"):
        try:
            one(s)
        except Exception as e:
            print(s, "ERROR", repr(e), flush=True)
