"""plant.py NAME...: (re)creates seeded/<NAME> from plants/<NAME>.py and
confirms it in a scratch copy; then, with --check, runs the property's check
against /repo with the patch applied."""
import json, os, pathlib, runpy, shutil, subprocess, sys, time

ROOT = pathlib.Path(__file__).resolve().parent.parent
HERE = ROOT / "tools"


def sh(cmd, cwd="/repo", **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def suite():
    sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/plant-out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open("/tmp/plant-out.json"))
    stable = base.get("stable") or base.get("passed") or base
    passed = out.get("passed", out)
    return sorted(set(stable) - set(passed))


def plant(name, check):
    p = runpy.run_path(str(HERE / "plants" / f"{name}.py"))
    dst = ROOT / "seeded" / name
    dst.mkdir(parents=True, exist_ok=True)
    assert not sh("git status --porcelain").stdout.strip(), "/repo is dirty"
    shutil.copy(HERE / "demolib.py", dst / "demolib.py")
    (dst / "demo.py").write_text(p["DEMO"].lstrip())
    (dst / "demo.sh").write_text('#!/bin/bash\nexport PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1\n'
                                 'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (dst / "meta.json").write_text(json.dumps(
        {"property": p["PROPERTY"], "needs": p["NEEDS"], "what_it_breaks": p["BREAKS"]}, indent=1) + "\n")
    clean = sh(f"bash {dst}/demo.sh", timeout=300)
    try:
        for file, old, new in p["EDITS"]:
            f = pathlib.Path("/repo") / file
            s = f.read_text()
            assert s.count(old) == 1, (file, s.count(old), old)
            f.write_text(s.replace(old, new))
        (dst / "patch.diff").write_text(sh("git diff").stdout)
        bad = sh(f"bash {dst}/demo.sh", timeout=300)
        lost = suite()
        verdict = ""
        if check:
            t = time.time()
            r = sh(f"bash {ROOT}/check.sh {p['PROPERTY']} quick", cwd=str(ROOT))
            lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            verdict = f"check exit {r.returncode} {len(lines)} violations {time.time() - t:.0f}s"
            if r.returncode == 2:
                verdict += r.stdout[-300:] + r.stderr[-300:]
    finally:
        sh("git checkout -- .")
        sh("bash /opt/vp/build.sh")
    ok = clean.returncode == 0 and bad.returncode != 0 and not lost
    print(f"{name}: {'OK' if ok else 'BAD'} clean={clean.returncode} planted={bad.returncode} lost={lost[:3]} {verdict}", flush=True)
    if clean.returncode:
        print(clean.stdout[-600:], clean.stderr[-900:])
    if not bad.returncode or "AssertionError" not in bad.stderr:
        print("planted demo:", bad.stdout[-300:], bad.stderr[-500:])


for n in sys.argv[1:]:
    if not n.startswith("-"):
        plant(n, "--check" in sys.argv)
