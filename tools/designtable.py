"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
f = root / "DESIGN.md"
f.write_text(re.sub(r"(?s)<!-- seeded -->.*<!-- /seeded -->",
                    lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", f.read_text()))
