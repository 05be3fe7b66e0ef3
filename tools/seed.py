"""Create and confirm planted bugs: python3 tools/seed.py SPEC.py — each entry S[id]=dict(property, file, subs=[(old,new)], demo, needs, breaks)."""
import json, os, runpy, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/seedwork"
SH = '#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nexec "$PY" "$HERE/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(spec):
    S = runpy.run_path(spec)["S"]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for sid, d in S.items():
        shutil.rmtree(WORK, ignore_errors=True)
        sh(f"cp -a /repo {WORK}")
        subs = d["subs"] if isinstance(d["subs"], list) else [d["subs"]]
        for s in subs:
            fn, old, new = s if len(s) == 3 else (d["file"],) + tuple(s)
            p = f"{WORK}/pyactr/{fn}"
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, "BAD old text count", t.count(old))
                break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = sh(f"git -C {WORK} diff").stdout
            out = f"{VERIF}/seeded/{sid}"
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(d["demo"])
            open(out + "/demo.sh", "w").write(SH)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
            r0 = sh(f"bash {out}/demo.sh", cwd="/repo")
            r1 = sh(f"bash {out}/demo.sh", cwd=WORK)
            lines = []
            # lines changed must be original ones
            added = set(l[1:].strip() for l in sh("git -C /repo diff 58fc1a2").stdout.splitlines() if l.startswith("+") and not l.startswith("+++"))
            bad = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in added and l[1:].strip()]
            t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=15 -o python_files='tests.py test_*.py *_test.py' pyactr 2>&1 | tail -3", cwd=WORK)
            print(sid, "demo", r0.returncode, r1.returncode, "| tests:", t.stdout.strip().splitlines()[-1:], "| touches own lines:" if bad else "", bad or "")
            if r0.returncode:
                print(r0.stdout[-800:], r0.stderr[-800:])
    shutil.rmtree(WORK, ignore_errors=True)


main(sys.argv[1])
