"""C10, C13: Function.tla / FunctionSem.tla / FunctionTrace.tla against real
ValueFunctions and ResourceFunctions."""

import copy
import json

import check_wf
import fnharness as f
import wfgen
from common import guard
from values import text

CFG = """CONSTANTS Kinds_ = {%s} MaxPre = %d MaxPost = %d Sites = {%s} MaxBad = %d Worlds = {%s}
INIT Init
NEXT Next
INVARIANTS Conforms Untouched FailsClean Ends
%s
CHECK_DEADLOCK FALSE
"""
JCFG = "INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n"
SITES = ["locals", "apiConfig", "resource", "template", "overlays", "create", "return"]


def names(xs):
    return ",".join(f'"{x}"' for x in xs)


def normal(fn):
    """An abstract function as TLC prints it."""
    fn = copy.deepcopy(fn)
    fn["bad"] = sorted(fn["bad"])
    return fn


def assertion(rng, place, j, t, k, me=False):
    m = f"{place}{rng.choice(['m', 'message ', 'it is '])}{j}"
    m = rng.choice([m] * 6 + ["", " ", f" {m}", f"{m} ", f"{m}\n", f"{m}\nand more\n{m}", f"é-{m}-✓", m.upper(),
                              f"{m} {{not}} a %s", f"{m}: /a/b#c", f'say "{m}" twice', m * 20])
    return {"t": t, "k": k, "m": m, "me": me, "d": rng.choice([0, 0, 1, 5, 30, 60, 900, 86400])}


def assertions(rng, place, n, odd):
    """A list of n assertions."""
    style = rng.choice(["true", "late", "mixed", "mixed", "false", "okfirst"] + ["last", "last"] * (n > 6))
    if style == "last":
        # only one of the last few decides
        out = [assertion(rng, place, j, "T", rng.choice(f.KINDS)) for j in range(n)]
        out[-rng.randint(1, 3)]["t"] = rng.choice("FFFX" if odd else "F")
        return out
    out = []
    for j in range(n):
        p = {"true": 0.0, "late": 0.5 if j > n // 2 else 0.0, "mixed": 0.4, "false": 1.0,
             "okfirst": 0.7}[style]
        t = "F" if rng.random() < p else "T"
        k = rng.choice(f.KINDS)
        if style == "okfirst" and j < 2:
            k = "ok"
        out.append(assertion(rng, place, j, t, k, me=k != "ok" and rng.random() < odd / 2))
    if out and rng.random() < odd:
        rng.choice(out)["t"] = rng.choice("XXN")
    return out


def random_function(rng, prop):
    kind = rng.choice(["vf", "rf", "rf"] if prop == "C10" else ["vf", "vf", "rf"])
    sites = ["locals", "return"] if kind == "vf" else SITES
    if prop == "C10":
        n = rng.choice([0, 0, 0, 1, 2, 3])
        odd = 0.3
        badn = rng.choice([0, 1, 1, 1, 1, 2])
    else:
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 17, 20])
        odd = rng.choice([0.0, 0.0, 0.0, 0.25, 1.0])
        badn = rng.choice([0, 0, 0, 1, 1])
    bad = rng.sample(sites, min(badn, len(sites)))
    if "resource" in bad and "template" in bad:
        bad.remove("resource")
    fn = {
        "kind": kind, "pre": assertions(rng, "pre", n, odd), "post": [], "bad": sorted(bad),
        "world": "good", "readonly": False, "mayCreate": True, "cd": rng.choice([0, 1, 30, 77]),
        "ud": rng.choice([0, 1, 31, 78]),
    }
    if kind == "rf":
        if prop == "C13" and rng.random() < 0.6:
            # leave the decision to the postconditions
            fn["pre"] = assertions(rng, "pre", rng.choice([0, 1, 3]), 0.0)
            for a in fn["pre"]:
                a["t"] = "T"
            fn["post"] = assertions(rng, "post", n or 3, odd)
        elif rng.random() < 0.4:
            fn["post"] = assertions(rng, "post", rng.choice([1, 2, 3]), odd)
        fn["world"] = rng.choice(["absent", "stale", "good", "good", "good"])
        fn["readonly"] = rng.random() < 0.2
        fn["mayCreate"] = fn["readonly"] or rng.random() < 0.85
    return fn


def execute(fn, rng):
    fn = normal(fn)
    spec, aux = f.materialize(fn, rng)
    obs = f.run_function(fn, spec, aux)
    fn = copy.deepcopy(fn)
    for a in fn["pre"] + fn["post"]:
        a["m"] = text(a["m"])
    return {"fn": fn, "obs": obs, "spec": json.dumps({"spec": spec, "aux": [[c.__name__, n, s] for c, _, n, s in aux]})}


def runnable(fn):
    return not {"resource", "template"} <= set(fn["bad"])


def corrupt(cases, prop):
    out = []
    for c in cases:
        if len(out) >= 80:
            break
        c = copy.deepcopy(c)
        o = c["obs"]
        k = len(out) % 5
        if prop == "C10":
            # failures no reading explains away: nothing is decided before them
            sure = (o["c"] == "PermFail" and not c["fn"]["pre"] and not c["fn"]["post"]
                    and (c["fn"]["kind"] == "vf" or "locals" in c["fn"]["bad"]) and c["fn"]["bad"])
            if sure and k == 0:
                o["names"] = []
            elif sure and k == 1:
                o["c"] = "Retry"
            elif k == 2:
                o["raised"] = True
            elif k == 3:
                o["leak"] = True
            elif k == 4 and o["c"] == "PermFail" and c["fn"]["kind"] == "rf" and o["calls"] == ["get"] \
                    and set(c["fn"]["bad"]) & {"resource", "template", "overlays"} and not c["fn"]["post"]:
                o["calls"] = ["get", "patch"]
            else:
                continue
        else:
            if any(a["me"] for a in c["fn"]["pre"] + c["fn"]["post"]):
                continue
            if o["c"] in ("Skip", "DepSkip") and k % 2:
                o["c"] = "DepSkip" if o["c"] == "Skip" else "Skip"
            elif o["m"].startswith(("pre", "post")) and k == 0:
                o["m"] += "0"
            elif o["c"] == "Retry" and o["m"].startswith(("pre", "post")):
                o["d"] += 1
            elif o["c"] == "Ok" and (c["fn"]["pre"] or c["fn"]["post"]):
                o["c"] = "Skip"
            elif o["m"].startswith("pre") and not o["calls"]:
                o["calls"] = ["get"]
            else:
                continue
        out.append(c)
    return out


def slim(cases):
    return [{"fn": c["fn"], "obs": c["obs"]} for c in cases]


def run_check(ctx):
    prop, rng = ctx.prop, ctx.rng
    if prop == "C13":
        res = ctx.model_check("Function", CFG % (names(["vf"]), 3, 0, "", 0, names(["good"]),
                                                 "ACTION_CONSTRAINT Emit"), min_states=10000)
        fns = res.prints("T")
        res = ctx.model_check("Function", CFG % (names(["rf"]), 1, 2, names(["locals", "return"]), 1,
                                                 names(["absent", "good"]), "ACTION_CONSTRAINT Emit"),
                              min_states=10000, workers=4)
        fns2 = [x for x in res.prints("T") if len(x["post"]) or len(x["pre"])]
        if not ctx.quick:
            ctx.model_check("Function", CFG % (names(["vf"]), 4, 0, names(["locals", "return"]), 2,
                                               names(["good"]), ""), workers=8, timeout=2400, heap="8g")
        few = rng.sample(fns, ctx.pick(1500, len(fns)))
        few += rng.sample(fns2, min(len(fns2), ctx.pick(1200, 30000)))
    else:
        res = ctx.model_check("Function", CFG % (names(["vf", "rf"]), 1, 1, names(SITES), 2,
                                                 names(["absent", "stale", "good"]), ""),
                              min_states=10000, workers=8)
        res = ctx.model_check("Function", CFG % (names(["vf", "rf"]), 0, 1, names(SITES), 2,
                                                 names(["absent", "stale", "good"]), "ACTION_CONSTRAINT Emit"),
                              min_states=1000, workers=4)
        fns = [x for x in res.prints("T") if runnable(x)]
        few = rng.sample(fns, min(len(fns), ctx.pick(1500, len(fns))))
    cases = []
    with guard(ctx.pick(500, 3000)):
        for fn in few:
            if runnable(fn):
                cases.append(execute(fn, rng))
        ctx.log(f"{len(cases)} behaviours of the design model executed")
        for _ in range(ctx.pick(1600 if prop == "C10" else 1000, 20000)):
            cases.append(execute(random_function(rng, prop), rng))
    counts = {}
    for c in cases:
        key = c["fn"]["kind"] + ":" + c["obs"]["c"]
        counts[key] = counts.get(key, 0) + 1
    ctx.coverage["outcomes_seen"] = counts
    ctx.coverage["sites"] = {s: sum(s in c["fn"]["bad"] for c in cases) for s in SITES}
    ctx.coverage["longest_assertion_list"] = max(max(len(c["fn"]["pre"]), len(c["fn"]["post"])) for c in cases)
    ctx.samples.append(json.loads(cases[-1]["spec"]))
    ctx.check_cases("FunctionTrace", slim(cases), label="functions", env={"PROP": prop}, cfg=JCFG, shards=8,
                    replay_info=lambda i: json.loads(cases[i]["spec"]))
    if not ctx.violations:
        ctx.self_check("FunctionTrace", slim(corrupt(rng.sample(cases, len(cases)), prop)), min_n=40,
                       env={"PROP": prop}, cfg=JCFG)
    if prop == "C10":
        workflows(ctx)


def workflows(ctx):
    """Step inputs, skipIf, forEach, switchOn and state which fail."""
    functions = wfgen.Functions(per=8)
    with guard(ctx.pick(300, 2000)):
        cases = check_wf.random_cases(
            ctx, functions, ctx.pick(350, 4000), 1, err=0.12, sites=0.12,
            kinds=("vf", "vf", "rf", "make"), modes=["ok"] * 8 + ["skip", "err", "err"])
    ctx.log(f"{len(cases)} workflows executed")
    ctx.coverage["workflows"] = len(cases)
    ctx.coverage["failing_steps"] = sum(x["r"] == "Failure" for c in cases for r in c["runs"] for x in r["conds"])
    check_wf.judge(ctx, cases, "workflows")
    if not ctx.violations:
        bad = []
        for c in copy.deepcopy(ctx.rng.sample(cases, len(cases))):
            r = c["runs"][-1]
            if r["over"]["c"] != "PermFail" or r["over"]["ms"]:
                continue
            k = len(bad) % 4
            if k == 0:
                r["raised"] = True
            elif k == 1:
                r["leak"] = True
            elif k == 2:
                for x in r["conds"]:
                    x["r"] = "Ready" if x["r"] == "Failure" else x["r"]
            else:
                r["over"]["c"] = "Retry"
            bad.append({k: v for k, v in c.items() if k != "spec"})
        ctx.self_check("WorkflowTrace", bad[:60], min_n=20, env={"PROP": "C10"}, cfg=JCFG, label="workflow self-check")
