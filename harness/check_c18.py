"""C18: cases of a FunctionTest chain; variants and skips leave no trace."""

import copy

import vloop
from check_ft import chain_case, family_case, model, random_chain
from common import guard


def corrupt(rng, cases):
    out = []
    for c in copy.deepcopy(rng.sample(cases, len(cases))):
        runs = [r for r in c["runs"] if r["results"]]
        if rng.random() < 0.1:
            c["snaps"].append({"what": "function", "before": "a", "after": "b"})
        elif not runs:
            continue
        elif c["k"] == "family":
            # one result of a run changes; it must have a counterpart elsewhere
            first = c["runs"][0]
            if first["raised"]:
                continue
            live = [n for n in range(len(first["results"])) if not c["cases"][first["order"][n] - 1]["skip"]]
            if not live:
                continue
            o = first["results"][rng.choice(live)]
            o["c"] = "Skip" if o["c"] != "Skip" else "Ok"
        else:
            live = [n for n in range(len(runs[0]["results"])) if not c["cases"][n]["skip"]]
            if not live:
                continue
            n = rng.choice(live)
            o = runs[0]["results"][n]
            if c["cases"][n]["bad"]:
                continue
            if o["c"] == "Ok" and o["v"][0] == "m" and "seen" in o["v"][1]:
                o["v"][1]["seen"] = ["s", "another"]
            else:
                o["c"] = "Skip" if o["c"] != "Skip" else "Ok"
        out.append(c)
    return out


def run(ctx):
    rng = ctx.rng
    scen = model(ctx)
    rng.shuffle(scen)
    chains, families, specs = [], [], []

    async def everything():
        for s in scen[: ctx.pick(700, 6000)]:
            chains.append(await chain_case(s["f"], s["base"], s["cases"], omit_plural=rng.random() < 0.1,
                                           owned=rng.random() < 0.5))
        for _ in range(ctx.pick(400, 6000)):
            chains.append(await chain_case(*random_chain(rng), omit_plural=rng.random() < 0.1, owned=rng.random() < 0.5))
        ctx.log(f"{len(chains)} chains run")
        for _ in range(ctx.pick(120, 1500)):
            c, s = await family_case(rng)
            families.append(c)
            specs.append(s)
        ctx.log(f"{len(families)} families of related tests run")

    with guard(ctx.pick(600, 3000)):
        vloop.run(everything())
    ctx.coverage["chains"] = len(chains)
    ctx.coverage["families"] = len(families)
    ctx.coverage["cases_run"] = sum(len(r["results"]) for c in chains + families for r in c["runs"])
    ctx.samples += [specs[-1][:4]]
    env = {"PROP": "C18"}
    ctx.check_cases("FTestTrace", chains, label="chains", shards=8, replay_info=lambda i: chains[i]["cases"], env=env)
    ctx.check_cases("FTestTrace", families, label="families", shards=8, replay_info=lambda i: specs[i], env=env)
    if not ctx.violations:
        ctx.self_check("FTestTrace", corrupt(rng, chains)[: ctx.pick(150, 1500)], label="chains", min_n=50, env=env)
        ctx.self_check("FTestTrace", corrupt(rng, families)[: ctx.pick(60, 600)], label="families", min_n=20, env=env)
