"""mut.py PROP FILE OLD NEW [--only X]: run a check against a private copy of /repo with one textual change."""
import subprocess, sys, os, tempfile, pathlib
prop, f, old, new = sys.argv[1:5]
s = open("/repo/" + f).read()
if s.count(old) != 1:
    sys.exit(f"exit: OLD occurs {s.count(old)} times")
with tempfile.TemporaryDirectory() as t:
    for side, c in ("a", s), ("b", s.replace(old, new)):
        q = pathlib.Path(t) / side / f
        q.parent.mkdir(parents=True, exist_ok=True)
        q.write_text(c)
    d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
    open(t + "/p", "w").write(d)
    r = subprocess.run(["bash", "/verif/tools/iso.sh", t + "/p", "bash", "/verif/check.sh", prop, *sys.argv[5:]], capture_output=True, text=True)
print("exit", r.returncode)
print(r.stdout[-1500:], r.stderr[-500:])
