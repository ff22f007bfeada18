"""probe.py FILE [NAME...]: applies each mutant of FILE (a Python file with
MUTANTS = [(name, property, [(file, old, new)...])]) to a scratch copy of
/repo, runs the suite and the property's check there, and prints one line per
mutant: lost (the suite notices), caught, MISSED or BROKEN (no answer).
Run it via isolated.sh: /repo must be a scratch copy."""
import json, pathlib, runpy, subprocess, sys, time

ROOT = pathlib.Path(__file__).resolve().parent.parent


def sh(cmd, cwd="/repo"):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def suite(tag):
    out_file = f"/tmp/probe-{tag}.json"
    sh(f"bash /opt/vp/build.sh; bash /opt/vp/test.sh {out_file}")
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open(out_file))
    stable = base.get("stable") or base.get("passed") or base
    # test_partial_match compares two random sets, which may be equal
    return sorted(t for t in set(stable) - set(out.get("passed", out)) if "test_partial_match" not in t)


def probe(name, prop, edits):
    assert not sh("git status --porcelain").stdout.strip(), "/repo is dirty"
    try:
        for file, old, new in edits:
            f = pathlib.Path("/repo/src/koreo") / file
            s = f.read_text()
            if s.count(old) != 1:
                return print(f"{name}: {s.count(old)} places for {old[:60]!r}", flush=True)
            f.write_text(s.replace(old, new))
        lost = suite(name)
        if lost:
            return print(f"{name}: lost {len(lost)} {lost[0][-60:]}", flush=True)
        for p in prop.split():
            t = time.time()
            r = sh(f"bash {ROOT}/check.sh {p} quick", cwd=str(ROOT))
            lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN")
            print(f"{name}: {p} {verdict} {len(lines)} {time.time() - t:.0f}s", flush=True)
            if verdict == "BROKEN":
                print(r.stdout[-300:], r.stderr[-600:], flush=True)
    finally:
        sh("git checkout -- .")


mutants = runpy.run_path(sys.argv[1])["MUTANTS"]
for m in mutants:
    if len(sys.argv) < 3 or any(m[0].startswith(a) for a in sys.argv[2:]):
        probe(*m)
