"""Which seeded patches remove or follow lines /repo's own commits added."""
import pathlib, re, subprocess
root = pathlib.Path(__file__).resolve().parent.parent
base = "ee4efb1"
for d in sorted((root / "seeded").iterdir()):
    file, n, own, total = None, 0, 0, 0
    for line in (d / "patch.diff").read_text().splitlines():
        if line.startswith("--- "):
            file = line[6:]
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", file], capture_output=True, text=True).stdout.splitlines()
        elif m := re.match(r"@@ -(\d+)", line):
            n = int(m.group(1))
        elif line.startswith("-"):
            total += 1
            own += not blame[n - 1].startswith("^" + base)
            n += 1
        elif line.startswith(" "):
            n += 1
    if own or not total:
        print(d.name, f"{own} of {total} removed lines are ours")
