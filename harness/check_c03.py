"""C03: outcome aggregation (Outcome.tla / OutcomeTrace.tla)."""

import copy
import itertools

import env  # noqa: F401
from koreo import result

import check_wf
import wfgen
from common import guard

CLS = {
    "DepSkip": result.DepSkip,
    "Skip": result.Skip,
    "Retry": result.Retry,
    "PermFail": result.PermFail,
    "Ok": result.Ok,
}

# Ok values of many shapes; the value of an outcome is recovered by identity
# of the token it contains, so lists, None-like and falsy values are told apart
def value_for(n):
    return [
        {"v": n},
        [n, [n]],
        f"v{n}",
        (n,),
        n * 1000003,
        {"v": [], "n": n},
        ["x", {"n": n}],
    ][n % 7]


def build(o, loc):
    location = f"loc{o['v']}" if loc else None
    if o["c"] == "Ok":
        return result.Ok(data=value_for(o["v"]), location=location)
    kw = {"message": o["m"] or None, "location": location}
    if o["c"] == "Retry":
        kw["delay"] = o["d"]
    return CLS[o["c"]](**kw)


def tokens(msg):
    out = []
    for part in (msg or "").replace(",", " ").split():
        out.append(part)
    return out


def project(res, vals, unwrapped, seq):
    for name, cls in CLS.items():
        if isinstance(res, cls):
            break
    else:
        name = "Ok"
    r = {"c": name, "ms": [], "d": 0, "vs": [], "raised": False}
    if name == "Ok":
        data = res if unwrapped else getattr(res, "data", None)
        if unwrapped and isinstance(res, result.Ok):
            data = None
        if not isinstance(data, list):
            r["vs"] = [-1]
        else:
            r["vs"] = [seq[vals.index(x)]["v"] if x in vals else -1 for x in data]
    else:
        r["ms"] = tokens(res.message)
        if name == "Retry":
            r["d"] = res.delay
    return r


CONTAINERS = {
    "list": list,
    "tuple": tuple,
    "generator": lambda s: (x for x in s),
    "dictvalues": lambda s: dict(enumerate(s)).values(),
}


def run_one(seq, how, unwrapped, loc):
    objs = [build(o, loc) for o in seq]
    vals = [value_for(o["v"]) if o["c"] == "Ok" else object() for o in seq]
    # values are unique per position except by construction; keep first match
    try:
        if unwrapped:
            items = [x.data if isinstance(x, result.Ok) else x for x in objs]
            res = result.unwrapped_combine(CONTAINERS[how](items))
        else:
            res = result.combine(CONTAINERS[how](objs))
        rec = project(res, vals, unwrapped, seq)
        # aggregating the same outcomes again must not be affected
        again = (
            result.unwrapped_combine(CONTAINERS[how](items))
            if unwrapped
            else result.combine(CONTAINERS[how](objs))
        )
        if project(again, vals, unwrapped, seq) != rec:
            rec = {**rec, "c": "unstable"}
    except Exception as err:
        rec = {"c": "", "ms": [], "d": 0, "vs": [], "raised": True, "error": repr(err)}
    rec["how"] = f"{'unwrapped_' if unwrapped else ''}combine({how})"
    return {"kind": "combine", "seq": seq, "res": rec}


CFG = """CONSTANTS MaxLen = %d Universe = "%s"
INIT Init
NEXT Next
INVARIANTS Lossless Split Swap
%s
CHECK_DEADLOCK FALSE
"""
JCFG = 'CONSTANTS MaxLen = 1 Universe = "all"\nINIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n'


def random_seq(rng):
    n = rng.choice([1, 2, 3, 5, 6, 8, 10, 13])
    classes = rng.choice(
        [
            ["Ok"],
            ["Retry"],
            ["PermFail"],
            ["Ok", "Skip", "DepSkip"],
            ["Retry", "Ok"],
            ["PermFail", "Retry"],
            list(CLS),
            ["Skip", "DepSkip"],
        ]
    )
    long = "x" * rng.choice([0, 0, 0, 0, 90, 600])
    seq = []
    for k in range(1, n + 1):
        c = rng.choice(classes)
        seq.append(
            {
                "c": c,
                "m": f"m{k}{long}" if c != "Ok" and rng.random() < 0.7 else "",
                "d": rng.choice([0, 1, 5, 30, 60, 61, 900, 86400]) if c == "Retry" else 0,
                "v": k,
            }
        )
    return seq


def corrupt(cases):
    out = []
    for c in cases:
        r = copy.deepcopy(c["res"])
        if r["c"] == "Ok" and len(r["vs"]) > 1:
            r["vs"] = r["vs"][::-1] if len(out) % 2 else r["vs"][:-1]
        elif r["c"] in ("Retry", "PermFail") and len(r["ms"]) > 1:
            r["ms"] = r["ms"][1:]
        elif r["c"] == "Retry":
            r["d"] += 1
        elif r["c"] == "Skip":
            r["c"] = "DepSkip"
        else:
            continue
        out.append({**c, "res": r})
        if len(out) >= 80:
            break
    return out


def run(ctx):
    res = ctx.model_check(
        "Outcome", CFG % (4, "few", "ACTION_CONSTRAINT Emit"), min_states=5000
    )
    seqs = res.prints("T")
    if not ctx.quick:
        ctx.model_check("Outcome", CFG % (6, "few", ""), workers=8, timeout=1800)
    ctx.model_check("Outcome", CFG % (3, "all", ""))

    hows = list(itertools.product(CONTAINERS, (False, True), (False, True)))
    cases = []
    with guard(300):
        for k, s in enumerate(seqs):
            for how in (hows if len(s) < 3 else [hows[k % 16], hows[(k // 3 + 5) % 16]]):
                cases.append(run_one(s, *how))
        for _ in range(ctx.pick(4000, 60000)):
            s = random_seq(ctx.rng)
            t = s[:]
            ctx.rng.shuffle(t)
            cases.append(run_one(s, *ctx.rng.choice(hows)))
            cases.append(run_one(t, *ctx.rng.choice(hows)))
    ctx.samples.append(cases[len(cases) // 2])
    ctx.check_cases("OutcomeTrace", cases, label="combine/unwrapped_combine", cfg=JCFG, shards=8)

    if not ctx.violations:
        ctx.self_check(
            "OutcomeTrace", corrupt(ctx.rng.sample(cases, 600)), min_n=50, cfg=JCFG
        )
    ctx.coverage["exhaustive"] = True
    if not ctx.violations:
        workflows(ctx)


def workflows(ctx):
    """The overall outcome of real Workflow passes."""
    with guard(ctx.pick(300, 3000)):
        functions = wfgen.Functions(per=8)
        bad = ["ok", "ok", "skip", "depskip", "retry", "retry", "perm", "err"]
        runs = check_wf.random_cases(ctx, functions, ctx.pick(300, 4000), 1, kinds=("vf",), err=0.02,
                                     modes=bad)
        runs += check_wf.random_cases(ctx, functions, ctx.pick(200, 3000), 1,
                                      kinds=("vf", "vf", "rf", "make", "rec", "del"), err=0.0, modes=bad)
    check_wf.summary(ctx, runs)
    check_wf.judge(ctx, runs, "workflows")
    if not ctx.violations:
        sample = [{k: v for k, v in c.items() if k != "spec"} for c in runs]
        ctx.self_check("WorkflowTrace", check_wf.corrupt(sample, "C03", ctx.rng), min_n=20,
                       env={"PROP": "C03"}, cfg=check_wf.JCFG)
