"""Create /verif/seeded/<id>/ from a spec: python3 tools/seed.py SPEC.py [--notest]

SPEC.py defines ID, PROPERTY, FILE, OLD, NEW (or EDITS=[(file, old, new)]), DEMO (python source run with cwd
/repo on sys.path; exit nonzero when the property is broken), NEEDS, BREAKS.
The change is applied in a scratch copy only; the stable tests must pass and the demo must separate the trees.
"""
import json, os, runpy, shutil, subprocess, sys

spec = runpy.run_path(sys.argv[1])
pid = spec["ID"]
edits = spec.get("EDITS") or [(spec["FILE"], spec["OLD"], spec["NEW"])]
out = f"/verif/seeded/{pid}"
work = f"/tmp/seed_{pid}"
shutil.rmtree(work, ignore_errors=True)
subprocess.run(["git", "worktree", "prune"], cwd="/repo", check=True)
subprocess.run(["cp", "-a", "/repo", work], check=True)
try:
    for file, old, new in edits:
        p = os.path.join(work, file)
        s = open(p).read()
        first = s[: s.find(old)].count("\n") + 1
        kept = new.splitlines()
        mine = [b for b, l in zip(subprocess.run(["git", "blame", "-s", "-L", f"{first},+{max(1, old.count(chr(10)))}", file], cwd=work, capture_output=True, text=True).stdout.splitlines(), old.splitlines()) if l not in kept]
        if mine and not any(b.startswith("^") for b in mine):
            print("NOTE: changes only lines added since the original commit:", mine)
        assert s.count(old) == 1, (file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True, check=True).stdout
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
    open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
    ok = True
    for tree, want in (("/repo", 0), (work, 1)):
        r = subprocess.run(["bash", f"{out}/demo.sh"], cwd=tree, capture_output=True, text=True)
        good = (r.returncode == 0) == (want == 0)
        ok &= good
        print(f"demo on {tree}: rc={r.returncode} {'ok' if good else 'WRONG'}", (r.stdout + r.stderr)[-300:].strip() if not good or want else "")
    if "--notest" not in sys.argv:
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", []) or [])
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--ignore=tests/ota/test_ota_providers.py", "--deselect", "tests/test_serial.py::test_pyserial_error_remapping", "--deselect", "tests/test_quirks_v2.py::test_quirks_v2", "-p", "no:cacheprovider", "tests"], cwd=work, capture_output=True, text=True,
                           env={**os.environ, "PYTHONPATH": work})
        tail = r.stdout.strip().splitlines()[-1:]
        print("tests:", tail)
        ok &= "failed" not in tail[0] and "error" not in tail[0]
    if "--nocheck" not in sys.argv:
        r = subprocess.run(["bash", "/verif/run", spec["PROPERTY"]], env={**os.environ, "VERIF_REPO": work, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, capture_output=True, text=True, cwd="/verif")
        print("check:", "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", r.stdout.strip()[-400:])
    print("SEED", pid, "OK" if ok else "BAD")
    if not ok:
        shutil.rmtree(out)
finally:
    shutil.rmtree(work, ignore_errors=True)
