"""Readable view of a replay file: python tools/show.py replays/C05-0.json"""
import json, sys
def u(v):
    if isinstance(v, list) and v and isinstance(v[0], str):
        t = v[0]
        if t == "z" and len(v) == 1: return None
        if t == "none" and len(v) == 1: return "<absent>"
        if len(v) == 2 and t in "bsn": return float(v[1]) if t == "n" and "." in str(v[1]) else (int(v[1]) if t == "n" and str(v[1]).lstrip("-").isdigit() else v[1])
        if len(v) == 2 and t == "l": return [u(x) for x in v[1]]
        if len(v) == 2 and t == "m": return {k: u(x) for k, x in (v[1].items() if isinstance(v[1], dict) else [])}
        if len(v) == 2 and t == "e": return f"<!{v[1]}>"
    if isinstance(v, list): return [u(x) for x in v]
    if isinstance(v, dict): return {k: u(x) for k, x in v.items()}
    return v
LIM = int(__import__("os").environ.get("LIM", 260))
for f in sys.argv[1:]:
    d = json.load(open(f))
    print("==", f, d["clause"], d["occurrences"])
    s = u(d["smallest"])
    c = s.get("case") if isinstance(s, dict) else None
    if isinstance(c, dict):
        for k, v in c.items():
            if isinstance(v, list) and v and isinstance(v[0], dict):
                print(f" {k}:")
                for x in v[:3]:
                    for kk, vv in x.items(): print(f"    {kk}: {json.dumps(vv, ensure_ascii=False)[:LIM]}")
                    print("    --")
            else: print(f" {k}: {json.dumps(v, ensure_ascii=False)[:LIM]}")
        if s.get("input") is not None: print(" input:", json.dumps(s["input"], default=str, ensure_ascii=False)[:3000])
    else: print(json.dumps(s, default=str)[:4000])
