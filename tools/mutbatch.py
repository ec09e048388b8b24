"""mutbatch.py SPEC.py [-j N] [-k FILTER]: run checks against private copies of /repo with the textual changes listed in SPEC (M = [(property, note, [(file, old, new), ...])])."""
import subprocess, sys, os, tempfile, pathlib, runpy, concurrent.futures as cf
a = sys.argv[1:]
j = int(a[a.index("-j") + 1]) if "-j" in a else 2
flt = a[a.index("-k") + 1] if "-k" in a else ""
M = runpy.run_path(a[0])["M"]


def one(m):
    prop, note, edits = m
    with tempfile.TemporaryDirectory() as t:
        texts = {}
        for f, old, new in edits:
            s = texts.get(f) or open("/repo/" + f).read()
            if s.count(old) != 1:
                return prop, note, f"OLD occurs {s.count(old)} times: {old[:60]!r}"
            texts[f] = s.replace(old, new)
        for f, c in texts.items():
            for side, c in ("a", open("/repo/" + f).read()), ("b", c):
                q = pathlib.Path(t) / side / f
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_text(c)
        d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
        open(t + "/p", "w").write(d)
        r = subprocess.run(["bash", "/verif/tools/iso.sh", t + "/p", "bash", "/verif/check.sh", prop], capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return prop, note, f"exit {r.returncode} " + (v[0].split("/")[-1] if v else r.stderr[-300:])


with cf.ThreadPoolExecutor(j) as ex:
    for p, n, o in ex.map(one, [m for m in M if any(f in m[0] + m[1] for f in flt.split("|"))]):
        print(("   " if o.startswith("exit 1") else "** ") + p, n, "->", o, flush=True)
