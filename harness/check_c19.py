"""C19: a test case passes if and only if its assertion holds."""

import copy

import vloop
from check_ft import chain_case, claims_case, known_claims, model, random_chain
from common import guard


def corrupt(rng, cases):
    """Flip the verdict of one claim which is certainly right or wrong."""
    out = []
    for c in copy.deepcopy(rng.sample(cases, len(cases))):
        sure = [x for x in c["claims"] if x["as"]["k"] in ("delete",) or (x["as"]["k"] == "outcome" and x["as"]["c"] != c["b"]["c"])
                or (x["as"]["k"] == "return" and c["b"]["c"] != "Ok")]
        if sure:
            x = rng.choice(sure)
            x["pass"] = not x["pass"]
            out.append(c)
    return out


def run(ctx):
    rng = ctx.rng
    scen = model(ctx)
    rng.shuffle(scen)
    chains, claims = [], []

    async def everything():
        for s in scen[: ctx.pick(300, 6000)]:
            chains.append(await chain_case(s["f"], s["base"], s["cases"]))
        for _ in range(ctx.pick(200, 4000)):
            chains.append(await chain_case(*random_chain(rng)))
        ctx.log(f"{len(chains)} chains run")
        for _ in range(ctx.pick(350, 5000)):
            claims.append(await claims_case(rng, ctx.pick(40, 80)))
        claims.extend(await known_claims(rng))
        ctx.log(f"{len(claims)} functions with claims about them")

    with guard(ctx.pick(600, 3000)):
        vloop.run(everything())
    kinds = {}
    for c in claims:
        for x in c["claims"]:
            key = f"{x['as']['k']} of {c['b']['c']}: {'pass' if x['pass'] else 'fail'}"
            kinds[key] = kinds.get(key, 0) + 1
    ctx.coverage["claims"] = dict(sorted(kinds.items()))
    ctx.samples += [claims[0]["claims"][:2]]
    env = {"PROP": "C19"}
    ctx.check_cases("FTestTrace", claims, label="claims", shards=8, replay_info=lambda i: claims[i]["b"], env=env)
    ctx.check_cases("FTestTrace", chains, label="chains", shards=8, replay_info=lambda i: chains[i]["cases"], env=env)
    if not ctx.violations:
        ctx.self_check("FTestTrace", corrupt(rng, claims)[: ctx.pick(100, 1000)], label="claims", min_n=40, env=env)
