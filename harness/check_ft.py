"""C18, C19: FTest.tla / FTestTrace.tla against real FunctionTests."""

import copy
import json

import celpy
from koreo import cache
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.structure import ValueFunction

import vloop
from check_c12 import INPUT_SETS, Watch, Writer, projection, spec_of, valued, written
from check_rf import untag
from cluster import Cluster
from common import guard
from ftharness import (AS0, OWNER, VERSION, behave, claim_delete, claim_outcome, claim_resource, claim_return, fresh,
                       ident, known_function, offer_test, outcome, run_test)
from rfharness import NONE, deep_merge, offer, offer_ok
from values import enc

MODEL = """CONSTANTS Engine = "%s" MaxCases = %d Scope = "%s"
INIT Init
NEXT Next
INVARIANTS Chain Carried Sound
%s
CHECK_DEADLOCK FALSE
"""
BROKEN = ["skip-sets-up", "variant-inputs-stay", "variant-resource-stays", "variant-setup-stays", "setup-only",
          "inputs-revert"]


def model(ctx):
    emit = "ACTION_CONSTRAINT Emit"
    scen = ctx.model_check("FTest", MODEL % ("koreo", 3, "small", emit), min_states=20000, workers=6).prints("T")
    scen += ctx.model_check("FTest", MODEL % ("koreo", 2, "large", emit), min_states=10000, workers=6).prints("T")
    for engine in BROKEN:
        if not ctx.tlc("FTest", MODEL % (engine, 3, "small", ""), workers=4, allow_violation=True).violated:
            raise RuntimeError(f"the model does not tell {engine} apart")
    ctx.coverage["broken_engines_rejected_by_the_model"] = BROKEN
    if not ctx.quick:
        ctx.model_check("FTest", MODEL % ("koreo", 4, "small", ""), min_states=200000, workers=8, timeout=3000)
        ctx.model_check("FTest", MODEL % ("koreo", 3, "large", ""), min_states=200000, workers=8, timeout=3000)
    return scen


def api_facts(fn):
    """What a run could change on the API class of a function."""
    api = fn.crud_config.resource_api if isinstance(fn, ResourceFunction) else None
    return [str(getattr(api, a, None)) for a in ("kind", "version", "plural", "endpoint", "singular", "namespaced")]


def watch_test(ft, fn, kind_cls, fn_name):
    w = Watch()
    w.add("function", fn, lambda f: [projection(f), api_facts(f)])
    w.add("function-spec", spec_of(kind_cls, fn_name), json.dumps)
    if isinstance(ft, FunctionTest):
        w.add("inputs", ft.inputs)
        w.add("current-resource", ft.initial_resource)
        for n, t in enumerate(ft.test_cases or ()):
            w.add(f"case-{n}", [t.input_overrides, t.current_resource, t.variant, t.skip, t.label])
            w.add(f"assertion-{n}", projection(t.assertion), json.dumps)
    return w


# --- chains


def chain_assertion(a):
    """The spec of an assertion given in the specification's terms."""
    if a["k"] == "return":
        return {"expectReturn": untag(a["v"])}
    if a["k"] == "resource":
        return {"expectResource": untag(a["v"])}
    if a["k"] == "delete":
        return {"expectDelete": a["v"][1]}
    return claim_outcome(a["c"], a.get("m", ""), max(a["d"], 0))[0]


def case_spec(t, n):
    spec = {"label": f"case {n}", **chain_assertion(t["as"])}
    for key, field in (("ov", "inputOverrides"), ("cur", "currentResource"), ("lay", "overlayResource")):
        if t[key] != NONE:
            spec[field] = untag(t[key])
    if t["bad"]:
        spec["overlayResource"] = {**spec.get("overlayResource", {}), "bad": "=1 / 0"}
    if t["variant"]:
        spec["variant"] = True
    if t["skip"]:
        spec["skip"] = True
    return spec


def maps(v):
    """TLC writes an empty function as []"""
    return v


async def chain_case(f, base, cases, *, omit_plural=False, owned=True):
    f = {**f, "ident": untag(f["ident"]), "static": untag(f["static"])}
    kind = f"Chain{fresh()}" if omit_plural else f["ident"]["kind"]
    if omit_plural:
        f["ident"] = {**f["ident"], "kind": kind}
        base = {**base, "res": rekind(base["res"], kind)}
        cases = [{**t, "cur": rekind(t["cur"], kind), "as": {**t["as"], "v": rekind(t["as"]["v"], kind)}} for t in cases]
    name = await known_function(f, omit_plural, owned)
    cls = ValueFunction if f["kind"] == "vf" else ResourceFunction
    fn = cache.get_resource_from_cache(cls, name)
    ins = untag(base["ins"])
    res = None if base["res"] == NONE else untag(base["res"])
    specs = [case_spec(t, n) for n, t in enumerate(cases)]
    ft = await offer_test(cls.__name__, name, ins, res, specs)
    record = {"k": "chain", "f": {**f, "ident": enc(f["ident"]), "static": enc(f["static"])}, "base": base,
              "cases": cases, "runs": [], "snaps": []}
    if not isinstance(ft, FunctionTest):
        record["runs"] = [{"raised": True, "results": []}]
        record["error"] = str(ft)[:200]
        return record
    watch = watch_test(ft, fn, cls, name)
    for _ in range(2):
        record["runs"].append(await run_test(ft))
    record["snaps"] += watch.look()
    if omit_plural and cls is ResourceFunction:
        record["snaps"].append(await still_works(fn, kind))
    return record


async def still_works(fn, kind):
    """The function must find its kind in a real cluster after its tests."""
    cluster = Cluster()
    cluster.lookup[f"{kind}.{VERSION}"] = "plurals"
    await reconcile_resource_function(cluster.api(), "t", fn, OWNER, celpy.json_to_cel({"mode": "go", "v": 1}))
    seen = [r["plural"] for r in cluster.log] or ["plurals"]
    return {"what": "endpoint", "before": "plurals", "after": seen[0]}


def rekind(v, kind):
    if v[0] != "m" or "kind" not in v[1] or "apiVersion" not in v[1]:
        return v
    return ["m", {**v[1], "kind": ["s", kind]}]


class Mirror:
    """Follows a chain in order to write assertions; TLC has the verdict."""

    def __init__(self, f, ins, res):
        self.f, self.ins, self.res = f, ins, res

    def start(self, t):
        ins = deep_merge(self.ins, t["ov"]) if t["ov"] else self.ins
        if t["lay"]:
            return ins, (deep_merge(self.res, t["lay"]) if self.res else None)
        return ins, (t["cur"] or self.res)

    def act(self, ins, res):
        f, mode = self.f, ins.get("mode")
        o = {"c": "Ok", "m": "", "d": 0, "v": None, "sent": None, "deleted": False, "after": res}
        stop = {"skip": ("Skip", "mode says skip", 0), "dep": ("DepSkip", "mode says wait", 0),
                "retry": ("Retry", "mode says retry", 7), "perm": ("PermFail", "mode says stop", 0)}.get(mode)
        if stop:
            return {**o, "c": stop[0], "m": stop[1], "d": stop[2]}
        if f["kind"] == "vf":
            return {**o, "v": deep_merge(res or {}, {**f["static"], "seen": ins})}
        target = {**f["ident"], "spec": {**f["static"], "seen": ins}}

        def seen(res):
            if f["post"] and not (res.get("status") or {}).get("ready"):
                return {**o, "c": "Retry", "m": "Not ready yet", "d": 5}
            return {**o, "v": {"seen": ins, "spec": res.get("spec", "no spec"), "status": res.get("status", "no status")}}

        if f["del"]:
            return {**o, "c": "Retry", "m": "Deleting", "d": 0, "deleted": True, "after": None} if res else seen({})
        if not res:
            if f["ro"] or not f["create"]:
                return {**o, "c": "Retry", "m": "not found", "d": 0}
            return {**o, "c": "Retry", "m": "Creating", "d": f["cd"], "sent": target, "after": target}
        if f["ro"] or f["update"] == "never" or within(target, res):
            return seen(res)
        if f["update"] == "recreate":
            return {**o, "c": "Retry", "m": "Deleting", "d": f["ud"], "deleted": True, "after": None}
        new = {**res, **target}
        return {**o, "c": "Retry", "m": "Patching", "d": f["ud"], "sent": new, "after": new}


def within(t, a):
    if isinstance(t, dict):
        return isinstance(a, dict) and all(k in a and within(v, a[k]) for k, v in t.items())
    if isinstance(t, list):
        return isinstance(a, list) and len(t) == len(a) and all(map(within, t, a))
    return enc(t) == enc(a)


def right_claim(rng, b):
    picks = [lambda: claim_outcome(b["c"], rng.choice(["", b["m"], b["m"][2:]]), rng.choice([0, b["d"]])),
             lambda: claim_delete(b["deleted"])]
    if b["c"] == "Ok" and b["v"]:
        picks = [lambda: claim_return(b["v"])] * 3 + picks[:1]
    if b["sent"]:
        picks = [lambda: claim_resource(b["sent"])] * 3 + picks[:1]
    if b["deleted"]:
        picks += [lambda: claim_delete(True)]
    return rng.choice(picks)()


def wrong_claim(rng, b):
    picks = [lambda: claim_outcome(rng.choice([c for c in ("Skip", "DepSkip", "PermFail", "Ok", "Retry") if c != b["c"]])),
             lambda: claim_delete(not b["deleted"]),
             lambda: claim_resource(rng.choice(list(perturb(rng, b["sent"] or {"spec": {"a": 1}})))),
             lambda: claim_return(rng.choice(list(perturb(rng, b["v"] or {"a": 1, "b": 2}))) or {"a": 1})]
    return rng.choice(picks)()


def for_kind(f, make):
    while True:
        spec, as_ = make()
        if f["kind"] == "rf" or as_["k"] in ("return", "outcome"):
            if not (as_["k"] in ("return", "resource") and not next(iter(spec.values()))):
                return as_


def random_chain(rng):
    f = {"kind": "rf" if rng.random() < 0.8 else "vf", "ident": ident(),
         "static": rng.choice([{"keep": 1}, {"keep": [1, {"a": "b"}], "deep": {"x": {"y": True}}}, {"on": False}]),
         "update": rng.choice(["patch", "patch", "recreate", "never"]), "create": rng.random() < 0.9,
         "ro": rng.random() < 0.08, "del": rng.random() < 0.08, "post": rng.random() < 0.5, "cd": 3, "ud": 4}
    ins = {"mode": "go", "v": 0, **rng.choice([{}, {"list": [1, 2]}, {"map": {"a": 1, "b": {"c": 2}}}, {"t": True}])}

    def live():
        return {**ident(), "spec": {**f["static"], "seen": {**ins, "v": rng.choice([0, 1])},
                                    **rng.choice([{}, {"more": 1}])},
                **rng.choice([{}, {"status": {"ready": rng.random() < 0.5}}])}

    res = live() if rng.random() < 0.5 else None
    m = Mirror(f, ins, res)
    cases = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 20])):
        t = {"ov": None, "cur": None, "lay": None, "bad": False,
             "variant": rng.random() < 0.45, "skip": rng.random() < 0.15}
        if rng.random() < 0.45:
            t["ov"] = rng.choice([{"v": rng.choice([0, 1, 2])}, {"mode": rng.choice(["skip", "dep", "retry", "perm", "go"])},
                                  {"map": {"b": {"d": rng.choice([3, "x"])}}}, {"list": [rng.choice([1, 5])]},
                                  {"new": rng.choice([False, "", [], {"x": 1}])}, {"v": 2, "t": False}, {"v": {"now": "map"}}])
        r = rng.random()
        if r < 0.3 and (m.res or rng.random() < 0.02):
            t["lay"] = rng.choice([{"status": {"ready": rng.random() < 0.6}}, {"spec": {"keep": "drift"}},
                                   {"status": {"n": rng.choice([1, 2])}}, {"spec": {"extra": {"a": [1]}}},
                                   {"metadata": {"labels": {"a": "b"}}}, {"spec": {"seen": {"v": 9}}}])
            if rng.random() < 0.05:
                t["bad"] = True
        elif r < 0.42:
            t["cur"] = live()
        ins2, res2 = m.start(t)
        b = m.act(ins2, res2)
        bad = t["bad"] or (t["lay"] and not m.res)
        right = rng.random() < (0.6 if t["variant"] else 0.985)
        t["as"] = for_kind(f, lambda: (right_claim if right else wrong_claim)(rng, b))
        if not t["skip"] and not t["variant"] and not bad:
            m.ins, m.res = ins2, b["after"]
        for k in ("ov", "cur", "lay"):
            t[k] = NONE if t[k] is None else enc(t[k])
        cases.append(t)
    return ({**f, "ident": enc(f["ident"]), "static": enc(f["static"])},
            {"ins": enc(ins), "res": NONE if res is None else enc(res)}, cases)


# --- families: any function, related tests


async def any_function(rng, simple=False):
    """(class, name, fn, inputs, kind, plural): a random function."""
    n = fresh()
    inputs = dict(INPUT_SETS[rng.randrange(2)])
    inputs.update({"mode": "go", "v": 0, "tpl": f"f-tpl-{n}"})
    from ftharness import PRE
    pre = PRE if rng.random() < 0.6 else rng.sample(PRE, 2)
    if rng.random() < 0.3:
        name = f"f-vf-{n}"
        doc = Writer(rng, inputs).doc(rng.choice([1, 2, 3]))
        doc["seen"] = rng.choice(["=inputs.v", "=inputs.v", "=inputs"])
        spec = {"preconditions": pre, "return": written(doc)}
        fn = await offer_ok(ValueFunction, prepare_value_function, name, spec)
        return ValueFunction, name, fn, inputs, None, None
    kind, plural = f"F{n}", f"f{n}s"
    w = Writer(rng, inputs)
    base = {**w.doc(rng.choice([0, 1, 2])), "keep": "kept"}
    base.pop("metadata", None)
    if rng.random() < 0.4:
        base["metadata"] = rng.choice([{"annotations": {"a": "b"}}, {"annotations": {"a": "b", "c": "d"}, "labels": {"l": "m"}},
                                       {"labels": {"l": "m"}}])
    api = {"apiVersion": VERSION, "kind": kind, "name": "thing", "namespace": "ns1"}
    if rng.random() < 0.7:
        api["plural"] = plural
    if rng.random() < 0.5:
        api["owned"] = rng.random() < 0.5
    if rng.random() < 0.06:
        api["readonly"] = True
    elif rng.random() < 0.06:
        api["deleteIfExists"] = True
    spec = {"preconditions": pre, "apiConfig": api}
    if rng.random() < 0.4:
        tdoc = {"apiVersion": VERSION, "kind": kind, **valued(base)}
        await offer_ok(ResourceTemplate, prepare_resource_template, inputs["tpl"], {"template": tdoc})
        spec["resourceTemplateRef"] = {"name": rng.choice(["=inputs.tpl", inputs["tpl"]])}
        spec["overlays"] = [{"overlay": {"seen": "=inputs.v"}}]
        if rng.random() < 0.4:
            spec["overlays"].append({"overlay": written(Writer(rng, inputs, rate=0.5).doc(1)), "skipIf": "=inputs.v == 1"})
    else:
        spec["resource"] = {**written(base), "seen": "=inputs.v", "list": ["=inputs.v", 2]}
    if rng.random() < 0.3:
        spec["create"] = rng.choice([{"enabled": False}, {"delay": 9}, {"overlay": {"made": "=inputs.v"}}])
    if rng.random() < 0.6:
        spec["update"] = rng.choice([{"patch": {"delay": 4}}, {"recreate": {"delay": 6}}, {"never": {}}])
    if rng.random() < 0.4:
        spec["postconditions"] = [{"assert": "=has(resource.status) && has(resource.status.ready) && resource.status.ready",
                                   "retry": {"message": "Not ready yet", "delay": 5}}]
    if rng.random() < 0.7:
        spec["return"] = {"seen": "=inputs.v", "s": "=inputs.s", "l": "=inputs.l",
                          **rng.choice([{}, {"status": "=has(resource.status) ? resource.status : 'none'"}])}
    name = f"f-rf-{n}"
    fn = await offer_ok(ResourceFunction, prepare_resource_function, name, spec)
    return ResourceFunction, name, fn, inputs, kind, plural


def live_for(rng, kind, made):
    """A resource: what was made, or something drifted from it."""
    res = copy.deepcopy(made) if made and rng.random() < 0.8 else {"keep": "other"}
    res = {**res, **ident(kind)}
    if rng.random() < 0.4:
        res["keep"] = rng.choice(["drift", 5, None])
    if rng.random() < 0.6:
        res["status"] = {"ready": rng.random() < 0.7}
    if rng.random() < 0.3:
        res["metadata"] = {**res["metadata"], "labels": {"a": "b"}}
    return res


async def made_by(fn, inputs, plural, kind):
    if not isinstance(fn, ResourceFunction):
        return None
    # a copy is evaluated, so that the lookup of the kind is not done for `fn`
    _, _, body = await behave(fn, inputs, None, plural or "x", kind and f"{kind}.{VERSION}")
    return body


async def family_case(rng):
    cls, name, fn, inputs, kind, plural = await any_function(rng)
    mirror_made = {"keep": "kept", "seen": 0, "list": [0, 2]}
    res = live_for(rng, kind or "Thing", mirror_made) if rng.random() < 0.7 else None
    cases, specs = [], []
    n = rng.choice([3, 5, 8, 12, 20])
    for k in range(n):
        t = {"variant": rng.random() < 0.5, "skip": rng.random() < 0.15}
        spec = {"label": f"case {k}"}
        if rng.random() < 0.5:
            spec["inputOverrides"] = rng.choice([{"v": rng.choice([0, 1, 2])}, {"s": "changed"}, {"l": [rng.choice([1, 2])]},
                                                 {"m": {"a": {"b": rng.choice([1, 2])}}}, {"tpl": "no-such-template"},
                                                 {"mode": rng.choice(["skip", "retry", "perm", "go"])}])
        lay = False
        if res is not None and rng.random() < 0.3:
            lay = True
            spec["overlayResource"] = rng.choice([{"status": {"ready": rng.random() < 0.7}}, {"keep": "drift"},
                                                  {"seen": rng.choice([0, 1])}, {"bad": "=1 / 0"}, {"list": [0, 2]}])
        elif rng.random() < 0.2:
            spec["currentResource"] = live_for(rng, kind or "Thing", mirror_made)
        if t["variant"]:
            spec["variant"] = True
        if t["skip"]:
            spec["skip"] = True
        cases.append({"plain": not (t["variant"] or t["skip"]), "skip": t["skip"], "lay": lay})
        specs.append(spec)
    # Assertions: what the function does, so that the chain goes on; found by
    # running the plain cases with an assertion about their outcome.
    order = []
    for spec in specs:
        spec.update(claim_outcome("Ok")[0])
    for k in range(n):
        if cases[k]["skip"]:
            continue
        probe = {**specs[k], "variant": True}
        ft = await offer_test(cls.__name__, name, inputs, res, [specs[j] for j in order] + [probe])
        got = await run_test(ft)
        if got["raised"] or len(got["results"]) <= len(order):
            continue
        o = got["results"][-1]
        specs[k].pop("expectOutcome")
        wrong = rng.random() < (0.4 if cases[k]["plain"] is False else 0.03)
        c = "Skip" if wrong else o["c"]
        specs[k].update(claim_outcome(c, "", o["d"])[0])
        if cases[k]["plain"]:
            order.append(k)
            if wrong:
                break
    watch_ft = await offer_test(cls.__name__, name, inputs, res, specs)
    watch = watch_test(watch_ft, fn, cls, name)
    everything = list(range(n))
    plain = [k for k in everything if cases[k]["plain"]]
    variants = [k for k in everything if not cases[k]["plain"] and not cases[k]["skip"]]
    orders = [everything, everything, plain or everything, [k for k in everything if not cases[k]["skip"]] or everything]
    for _ in range(3):
        drop = set(rng.sample(variants, rng.randint(0, len(variants))))
        orders.append([k for k in everything if k not in drop] or everything)
    for _ in range(3):
        shuffled = list(plain)
        for v in variants + [k for k in everything if cases[k]["skip"] and rng.random() < 0.5]:
            shuffled.insert(rng.randint(0, len(shuffled)), v)
        orders.append(shuffled or everything)
    runs = []
    for k, order in enumerate(orders):
        ft = watch_ft if k < 2 else await offer_test(cls.__name__, name, inputs, res, [specs[j] for j in order])
        if not isinstance(ft, FunctionTest):
            runs.append({"raised": True, "order": [j + 1 for j in order], "results": []})
        else:
            runs.append({"order": [j + 1 for j in order], **await run_test(ft)})
    snaps = watch.look()
    if kind and isinstance(fn, ResourceFunction) and fn.crud_config.resource_api.plural != plural:
        snaps.append(await still_works(fn, kind))
    return {"k": "family", "cases": cases, "runs": runs, "snaps": snaps}, specs


# --- claims


def places(doc, at=()):
    yield at
    if isinstance(doc, dict):
        for k, v in doc.items():
            if not k.startswith("x-koreo"):
                yield from places(v, (*at, k))
    elif isinstance(doc, list):
        for k, v in enumerate(doc):
            yield from places(v, (*at, k))


def put(doc, at, v):
    if not at:
        return v
    doc = copy.copy(doc)
    doc[at[0]] = put(doc[at[0]], at[1:], v)
    return doc


def look(doc, at):
    for k in at:
        doc = doc[k]
    return doc


def retyped(v):
    if v is None:
        return ["", 0, False, {}, [], "null", "None"]
    if isinstance(v, bool):
        return [not v, int(v), str(v).lower(), str(v), None, [v]]
    if isinstance(v, int):
        return [v + 1, -v if v else 2, str(v), v + 0.5, None, [v]] + ([bool(v)] if v in (0, 1) else [])
    if isinstance(v, float):
        return [v + 0.5, str(v), int(v) if v != int(v) else v + 1, None]
    if isinstance(v, str):
        out = [v + "x", v + " ", None, [v], {"": v}]
        if v != v.upper():
            out.append(v.upper())
        if v.isdigit() and v.isascii():
            out.append(int(v))
        if v == "":
            out += [False, 0, {}, []]
        return out
    if isinstance(v, dict):
        out = [None, [v], ""] + ([[]] if not v else [{}])
        return out
    return [None, {}, ""] + ([[]] if v else [[None], [""]])


def perturb(rng, doc):
    """Every document one step away."""
    for at in places(doc):
        v = look(doc, at)
        if at:
            for x in retyped(v):
                yield put(doc, at, x)
        if isinstance(v, dict):
            for k in v:
                if not k.startswith("x-koreo"):
                    yield put(doc, at, {a: b for a, b in v.items() if a != k})
                    yield put(doc, at, {**{a: b for a, b in v.items() if a != k}, k + "'": v[k]})
            for x in (None, "", {}, [], 0, False):
                yield put(doc, at, {**v, "extra": x})
        if isinstance(v, list):
            for k in range(len(v)):
                yield put(doc, at, v[:k] + v[k + 1:])
                yield put(doc, at, v[:k] + [copy.deepcopy(v[k])] + v[k:])
                if k and enc(v[k]) != enc(v[k - 1]):
                    yield put(doc, at, v[: k - 1] + [v[k], v[k - 1]] + v[k + 1:])
            for x in (None, "", {}, 0):
                yield put(doc, at, [*v, x])


def directed(rng, doc):
    """The same document, with lists compared as sets or maps where possible."""
    if isinstance(doc, list):
        return [directed(rng, v) for v in doc]
    if not isinstance(doc, dict):
        return doc
    out, as_set, as_map = {}, [], {}
    for k, v in doc.items():
        x = directed(rng, v)
        if isinstance(v, list) and not any(isinstance(y, (list, dict)) for y in v) and rng.random() < 0.7:
            as_set.append(k)
            x = rng.sample(x, len(x)) + ([rng.choice(x)] if x and rng.random() < 0.3 else [])
        elif isinstance(v, list) and v and all(isinstance(y, dict) and y for y in v) and rng.random() < 0.8:
            fields = sorted(set.union(*[set(y) for y in v]))
            fields = [f for f in fields if not any(isinstance(y.get(f), (dict, list)) for y in v)]
            if fields:
                as_map[k] = rng.sample(fields, rng.choice([1, 1, min(2, len(fields))]))
                x = rng.sample(x, len(x))
        out[k] = x
    if as_set:
        out["x-koreo-compare-as-set"] = as_set
    if as_map:
        out["x-koreo-compare-as-map"] = as_map
    return out


def outcome_claims(rng, o):
    c, m, d = o["c"], o["m"], o["d"]
    raw = m if "~" not in m else ""
    if "Error evaluating" in raw:
        raw = ""
    yield claim_outcome(c, "", 0)
    yield claim_outcome(c, raw, d)
    if len(raw) > 4:
        a = rng.randint(0, len(raw) - 3)
        yield claim_outcome(c, raw[a: a + rng.randint(1, 12)], rng.choice([0, d]))
        yield claim_outcome(c, raw.upper(), d)
        if c != "Ok":
            yield claim_outcome(c, raw + "x", d)
            yield claim_outcome(c, raw[: a + 1] + "~" + raw[a + 1:], d)
            yield claim_outcome(c, " ".join(reversed(raw.split(" "))), 0)
    if c == "Retry":
        for x in (d + 1, d - 1, 1, 86400):
            yield claim_outcome(c, rng.choice(["", raw]), x)
        yield claim_outcome(c, "not there", d)
    if c not in ("Ok", "Retry"):
        yield claim_outcome(c, "not there")
    for other in ("Ok", "Skip", "DepSkip", "Retry", "PermFail"):
        if other != c:
            yield claim_outcome(other, rng.choice(["", raw]), rng.choice([0, d]))


def plain_of(v):
    """Plain JSON of an evaluated value."""
    return json.loads(json.dumps(to_json(v)))


def to_json(v):
    t = enc(v)
    return untag(t) if "~" not in json.dumps(t) else strange(v)


def strange(v):
    from koreo.cel.encoder import convert_bools
    return convert_bools(v)


async def claims_case(rng, n_claims):
    cls, name, fn, inputs, kind, plural = await any_function(rng)
    inputs["mode"] = rng.choice(["go"] * 8 + ["skip", "dep", "retry", "perm"])
    lookup = kind and f"{kind}.{VERSION}"
    res = None
    if cls is ResourceFunction:
        made = await made_by(fn, {**inputs, "mode": "go"}, plural, kind)
        if rng.random() < 0.65:
            res = live_for(rng, kind, made)
    elif rng.random() < 0.4:
        res = {**ident(), "spec": {"a": {"b": [1]}}}
    record, out, body = await behave(fn, inputs, res, plural, lookup)
    b = record["b"]
    good, bad = [], list(outcome_claims(rng, b))
    if cls is ResourceFunction:
        bad += [claim_delete(True), claim_delete(False)]
    v = plain_of(out) if b["c"] == "Ok" else None
    if isinstance(v, dict) and v:
        d = directed(rng, v)
        good += [claim_return(v), claim_return(d)]
        near = [x for x in perturb(rng, v) if isinstance(x, dict) and x]
        near_d = [x for x in perturb(rng, d) if isinstance(x, dict) and x]
        bad += [claim_return(x) for x in rng.sample(near, min(len(near), n_claims))]
        bad += [claim_return(x) for x in rng.sample(near_d, min(len(near_d), n_claims // 2))]
    if body is not None:
        e = {**(res or {}), **body}
        d = directed(rng, e)
        good += [claim_resource(e), claim_resource(d), claim_resource(body)]
        near = [x for x in perturb(rng, e) if isinstance(x, dict) and x]
        near_d = [x for x in perturb(rng, d) if isinstance(x, dict) and x]
        bad += [claim_resource(x) for x in rng.sample(near, min(len(near), n_claims))]
        bad += [claim_resource(x) for x in rng.sample(near_d, min(len(near_d), n_claims // 2))]
        bad += [claim_return(e)]
    if cls is ResourceFunction and res:
        bad += [claim_resource(res)]
    if cls is ResourceFunction and v:
        bad += [claim_resource(v)]
    if cls is ResourceFunction:
        bad += [claim_resource({"x-koreo-compare-as-set": ["a"]}), claim_resource({"a": None})]
    claims = good + rng.sample(bad, min(len(bad), 2 * n_claims))
    rng.shuffle(claims)
    return await put_claims(rng, record, cls, name, inputs, res, claims)


async def put_claims(rng, record, cls, name, inputs, res, claims):
    """Tests of the function `name`, making each claim."""
    record.update({"k": "claims", "claims": []})
    how = rng.choice(["base", "base", "cases"])
    for at in range(0, len(claims), 20):
        part = claims[at: at + 20]
        specs = []
        for n, (spec, _) in enumerate(part):
            t = {"label": f"c{n}", "variant": True, **copy.deepcopy(spec)}
            if how == "cases":
                t["inputOverrides"] = inputs
                if res is not None:
                    t["currentResource"] = res
            specs.append(t)
        if rng.random() < 0.5:
            del specs[-1]["variant"]
        ft = await offer_test(cls.__name__, name, inputs if how == "base" else None, res if how == "base" else None, specs)
        if isinstance(ft, FunctionTest):
            run = await run_test(ft)
            alone = []
            if run["raised"]:
                # which of them is it?
                for spec in specs:
                    one = await offer_test(cls.__name__, name, inputs if how == "base" else None, res if how == "base" else None, [spec])
                    alone.append(await run_test(one))
        for n, (_, as_) in enumerate(part):
            if not isinstance(ft, FunctionTest):
                record["claims"].append({"as": as_, "ready": False, "raised": False, "pass": False})
                continue
            got, at_ = (alone[n], 0) if alone else (run, n)
            if got["raised"]:
                record["claims"].append({"as": as_, "ready": True, "raised": True, "pass": False})
            else:
                record["claims"].append({"as": as_, "ready": True, "raised": False, "pass": got["results"][at_]["pass"]})
        if isinstance(ft, FunctionTest) and run["raised"] and not any(a["raised"] for a in alone):
            record["claims"].append({"as": {**part[0][1], "k": "together"}, "ready": True, "raised": True, "pass": False})
    return record


AS_SET, AS_MAP = "x-koreo-compare-as-set", "x-koreo-compare-as-map"


async def known_claims(rng):
    """Claims for which the runner's comparator is known to be too loose."""
    n = fresh()
    name = f"known-claims-{n}"
    value = {"flags": [True], "rows": [{"n": 1, "v": "a"}, {"n": "1", "v": "b"}], "mixed": [{"n": 1}, "word"], "seen": 1}
    await offer_ok(ValueFunction, prepare_value_function, name, {"return": {**value, "seen": "=inputs.v"}})
    fn = cache.get_resource_from_cache(resource_class=ValueFunction, cache_key=name)
    record, _, _ = await behave(fn, {"v": 1}, None, None)
    claims = [claim_return(v) for v in (
        value,
        {**value, "seen": 2},
        {**value, "flags": [1], AS_SET: ["flags"]},
        {**value, "flags": [False], AS_SET: ["flags"]},
        {**value, "rows": [{"n": "1", "v": "b"}], AS_MAP: {"rows": ["n"]}},
        {**value, "rows": [{"n": 1, "v": "a"}, {"n": "1", "v": "c"}], AS_MAP: {"rows": ["n"]}},
        {**value, AS_MAP: {"mixed": ["n"]}},
    )]
    values = await put_claims(rng, record, ValueFunction, name, {"v": 1}, None, claims)

    name = f"known-delete-{n}"
    f = {"kind": "rf", "ident": ident(), "static": {"a": 1}, "update": "patch", "create": True, "ro": False, "del": True,
         "cd": 5, "ud": 5, "post": False}
    name = await known_function(f)
    fn = cache.get_resource_from_cache(resource_class=ResourceFunction, cache_key=name)
    res = {**ident(), "spec": {"a": 1}}
    record, _, _ = await behave(fn, {"mode": "go"}, res, "things")
    claims = [claim_delete(True), claim_delete(False), claim_resource({AS_SET: ["a"]}), claim_resource({"a": 1}), claim_resource(res)]
    return [values, await put_claims(rng, record, ResourceFunction, name, {"mode": "go"}, res, claims)]
