"""Builds real Functions from the abstract ones of FunctionSem.tla, evaluates
them and records what FunctionTrace judges (C10, C13)."""

import copy
import itertools
import json

import env  # noqa: F401
import celpy
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction

import vloop
from badexpr import bad
from cluster import Cluster
from rfharness import NONE, offer_ok, project_outcome
from values import enc, text

VERSION = "apps.example.io/v1"
OWNER = ("ns1", {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
                 "blockOwnerDeletion": True, "controller": False})
INPUTS = {"k": "text", "l": [1, 2], "m": {"a": "b"}, "n": None, "t": True, "f": False,
          "items": [{"id": 1}, {"id": 2}], "tpl": "tpl"}
GOOD = [
    ("inputs.k", "text"), ("inputs.l", [1, 2]), ("inputs.m", {"a": "b"}), ("inputs.m.a", "b"),
    ("1 + 2", 3), ("inputs.l[1] * 4", 8), ("inputs.l.map(x, x + 1)", [2, 3]), ("'a' + inputs.k", "atext"),
    ("inputs.items.filter(i, i.id > 1)", [{"id": 2}]), ("has(inputs.missing)", False),
    ("has(inputs.missing) ? inputs.missing : 'dflt'", "dflt"), ("inputs.t || 1 / 0 > 1", True),
    ("to_ref({'name': 'x'})", {"name": "x"}), ("split('a,b', ',')", ["a", "b"]),
    ("overlay({'a': 1}, {'b': 2})", {"a": 1, "b": 2}), ("flatten([[1], [2]])", [1, 2]),
    ("string(5)", "5"), ("lower('ABC')", "abc"), ("from_json('[1]')", [1]), ("to_json([1])", "[1]"),
    ("size(inputs.l)", 2), ("inputs.l.exists(x, x == 2)", True), ("{'q': [inputs.k]}", {"q": ["text"]}),
]
TRUE = ["true", "inputs.t", "1 == 1", "inputs.k == 'text'", "size(inputs.l) == 2", "has(inputs.k)",
        "!has(inputs.missing)", "!inputs.f", "inputs.l.all(x, x > 0)", "inputs.t || 1 / 0 > 1",
        "inputs.f ? 1 / 0 > 1 : true", "'a' in inputs.m"]
FALSE = ["false", "inputs.f", "1 == 2", "inputs.k == 'other'", "size(inputs.l) == 7", "has(inputs.missing)",
         "!inputs.t", "inputs.l.all(x, x > 1)", "inputs.f && 1 / 0 > 1", "inputs.t ? false : 1 / 0 > 1",
         "'z' in inputs.m", "inputs.l.exists(x, x > 5)"]
NOTBOOL = ["5", "'x'", "''", "null", "inputs.l", "inputs.m", "0", "1", "1.5", "inputs.n", "[]", "{}",
           "'true'", "'false'", "inputs.k", "[true]", "{'assert': true}", "5u", "b'x'", "0.0",
           "timestamp('2020-01-01T00:00:00Z')", "inputs.l.filter(x, x > 9)"]
PLACES = {
    "preconditions": "preconditions", "postconditions": "postconditions", "locals": "locals",
    "apiConfig": "apiConfig", "resource": "spec.resource", "template": "resourceTemplateRef",
    "overlays": "overlays", "create": "create.overlay", "return": "return",
}
MARKS = ("CELEvalError", "celpy", "<class ", "no such member", "divide by zero", "KeyError")
KINDS = ("ok", "skip", "depSkip", "retry", "permFail")
_n = itertools.count(1)


# --- expressions and structures


def padded(rng, e):
    return "=" + rng.choice(["", "", " ", "\n"]) + e + rng.choice(["", "", " "])


def leaf(rng):
    if rng.random() < 0.35:
        return rng.choice(["plain", 5, True, False, ["x"], {"z": "w"}, 1.5, "a b"])
    return padded(rng, rng.choice(GOOD)[0])


def tree(rng, broken, depth=0, keys="abcdefg", expr=None):
    """A random map of maps, lists and expressions; one is broken if asked."""
    names = rng.sample(list(keys), rng.randint(1, 3))
    victim = rng.choice(names) if broken else None
    out = {}
    for name in names:
        out[name] = node(rng, name == victim, depth + 1, expr)
    return out


def node(rng, broken, depth, expr):
    r = rng.random()
    if depth < 4 and r < 0.25:
        return tree(rng, broken, depth, expr=expr)
    if depth < 4 and r < 0.42:
        n = rng.randint(1, 3)
        victim = rng.randrange(n) if broken else -1
        return [node(rng, k == victim, depth + 1, expr) for k in range(n)]
    if broken:
        return padded(rng, expr or bad(rng))
    return leaf(rng)


def assertion(rng, a, post):
    t = a["t"]
    if t == "T":
        e = rng.choice(TRUE + (["resource.kind == resource.kind", "has(resource.metadata)"] if post else []))
    elif t == "F":
        e = rng.choice(FALSE + (["has(resource.nothing)", "resource.kind == 'no'"] if post else []))
    elif t == "N":
        e = rng.choice(NOTBOOL + (["resource.kind", "resource"] if post else []))
    else:
        e = bad(rng)
    out = {"assert": padded(rng, e)}
    k = a["k"]
    if k == "ok":
        out["ok"] = {}
        return out
    m = a["m"]
    if a["me"]:
        msg = padded(rng, rng.choice([bad(rng), f"'x' + {bad(rng, 0)}", bad(rng)]))
    else:
        q = json.dumps(m)
        msg = rng.choice([m, f"={q}", f"='' + {q}", f"=[1].map(x, {q})[0]", f"=inputs.t ? {q} : 'no'"])
    out[k] = {"message": msg}
    if k == "retry":
        out[k]["delay"] = a["d"]
    if rng.random() < 0.3:
        out = dict(reversed(out.items()))
    return out


# --- functions


def overlays(rng, broken, aux):
    """A list of overlay steps, at most one of which is broken."""
    n = rng.randint(1, 4)
    victim = rng.randrange(n) if broken else -1
    out = []
    for k in range(n):
        form = rng.choice(["inline", "inline", "skipIf", "skipIf-type", "inputs", "fn-locals", "fn-return", "fn-pre"])
        b = k == victim
        if form == "inline" or not b and rng.random() < 0.4:
            step = {"overlay": {"spec": {f"o{k}": tree(rng, b and form == "inline")}}}
            if b and form == "inline" and rng.random() < 0.3:
                # at the top of what is merged
                step = {"overlay": {"spec": padded(rng, bad(rng))}}
        elif form.startswith("skipIf"):
            step = {"overlay": {"spec": {f"o{k}": tree(rng, False)}}}
            if b:
                step["skipIf"] = padded(rng, bad(rng) if form == "skipIf" else rng.choice(NOTBOOL))
        else:
            fn = {}
            if rng.random() < 0.4 or b and form == "fn-pre":
                fn["preconditions"] = [assertion(rng, {"t": "X" if b and form == "fn-pre" else "T", "k": "permFail",
                                                       "m": "no", "me": False}, False)]
            if rng.random() < 0.4 or b and form == "fn-locals":
                fn["locals"] = tree(rng, b and form == "fn-locals")
            fn["return"] = {"spec": {f"o{k}": tree(rng, b and form == "fn-return")}}
            name = f"ov-{next(_n)}"
            # every `inputs.X` it names has to be given for it to be accepted
            fn = json.loads(json.dumps(fn).replace("inputs.missing", "inputs.m.missing")
                            .replace("inputs['missing']", "inputs['m']['missing']"))
            aux.append((ValueFunction, prepare_value_function, name, fn))
            step = {"overlayRef": {"kind": "ValueFunction", "name": name},
                    "inputs": {**{k: f"=inputs.{k}" for k in INPUTS}}}
            if b and form == "inputs":
                step["inputs"]["extra"] = node(rng, True, 2, None)
        if not b and "skipIf" not in step and rng.random() < 0.3:
            if rng.random() < 0.5:
                step["skipIf"] = padded(rng, rng.choice(FALSE))
            else:
                # skipped: what it would do does not matter
                step["skipIf"] = padded(rng, rng.choice(TRUE))
                if "overlay" in step:
                    step["overlay"] = {"spec": {f"o{k}": tree(rng, rng.random() < 0.6)}}
        elif not b and step.get("skipIf") is None and rng.random() < 0.1:
            step["skipIf"] = "=false"
        out.append(step)
    return out


def materialize(fn, rng):
    """-> (spec, aux resources to prepare first)"""
    badset = set(fn["bad"])
    aux = []
    spec = {}
    if fn["pre"]:
        spec["preconditions"] = [assertion(rng, a, False) for a in fn["pre"]]
    if "locals" in badset or rng.random() < 0.4:
        spec["locals"] = tree(rng, "locals" in badset)
    if fn["kind"] == "vf":
        spec["return"] = tree(rng, "return" in badset)
        return spec, aux
    if fn["post"]:
        spec["postconditions"] = [assertion(rng, a, True) for a in fn["post"]]
    name = f"obj-{next(_n)}"
    kind = f"Thing{next(_n)}"
    api = {"apiVersion": VERSION, "kind": kind, "plural": kind.lower() + "s",
           "name": name if rng.random() < 0.5 else f"='{name}'", "namespace": rng.choice(["ns1", "='ns1'"])}
    if "apiConfig" in badset:
        api[rng.choice(["name", "namespace"])] = padded(rng, bad(rng))
    if fn["readonly"]:
        api["readonly"] = True
    if rng.random() < 0.4:
        api["owned"] = rng.random() < 0.5
    spec["apiConfig"] = api
    if "template" in badset or "resource" not in badset and rng.random() < 0.25:
        tname = f"tpl-{next(_n)}"
        aux.append((ResourceTemplate, prepare_resource_template, tname,
                    {"template": {"apiVersion": VERSION, "kind": kind, "metadata": {}, "spec": {"val": "target"}}}))
        ref = f"='{tname}'"
        if "template" in badset:
            ref = padded(rng, rng.choice([bad(rng), f"'{tname}' + {bad(rng, 0)}"]))
        spec["resourceTemplateRef"] = {"name": ref}
    else:
        spec["resource"] = {"spec": {"val": "target", **tree(rng, "resource" in badset, keys="pqrs")}}
        if "resource" in badset and rng.random() < 0.15:
            spec["resource"]["metadata"] = {"labels": {"x": padded(rng, bad(rng))}}
    if "overlays" in badset or rng.random() < 0.35:
        spec["overlays"] = overlays(rng, "overlays" in badset, aux)
    create = {"delay": fn["cd"]}
    if not fn["mayCreate"]:
        create["enabled"] = False
    if "create" in badset or rng.random() < 0.3:
        create["overlay"] = {"spec": {"made": tree(rng, "create" in badset)}}
    spec["create"] = create
    spec["update"] = {"patch": {"delay": fn["ud"]}}
    if "return" in badset or rng.random() < 0.7:
        spec["return"] = tree(rng, "return" in badset)
    return spec, aux


def marked(v):
    s = json.dumps(v, default=repr)
    return any(m in s for m in MARKS)


def has_error(v):
    if isinstance(v, list):
        return v[:1] == ["e"] and len(v) == 2 and isinstance(v[1], str) or any(has_error(x) for x in v)
    if isinstance(v, dict):
        return any(has_error(x) for x in v.values())
    return False


async def evaluate(cluster, spec, name, function, inputs):
    if isinstance(function, ValueFunction):
        return await reconcile_value_function(location=f"test:{name}", function=function, inputs=inputs)
    res = await reconcile_resource_function(
        api=cluster.api(), location=f"test:{name}", function=function, owner=copy.deepcopy(OWNER), inputs=inputs)
    return res.outcome


def run_function(fn, spec, aux):
    """Prepares and evaluates; returns the observation."""
    cluster = Cluster()
    inputs = celpy.json_to_cel(INPUTS)

    async def go():
        for cls, prep, name, s in aux:
            await offer_ok(cls, prep, name, s)
        name = f"fn-{next(_n)}"
        if fn["kind"] == "vf":
            function = await offer_ok(ValueFunction, prepare_value_function, name, spec)
        else:
            function = await offer_ok(ResourceFunction, prepare_resource_function, name, spec)
            await populate(fn, spec, cluster, name, inputs)
        del cluster.log[:]
        obs = {"c": "", "m": "", "d": 0, "names": [], "calls": [], "raised": False, "leak": False, "error": ""}
        try:
            outcome = await evaluate(cluster, spec, name, function, inputs)
        except BaseException as err:  # noqa: BLE001
            obs["raised"] = True
            obs["error"] = text(f"{type(err).__name__}: {err}"[:300])
            return obs
        obs["calls"] = [r["verb"] for r in cluster.log]
        p = project_outcome(outcome)
        obs["c"], obs["d"] = p["c"], p["d"]
        bodies = [r["body"] for r in cluster.log if r["body"] is not None]
        if p["c"] == "Ok":
            obs["leak"] = has_error(p["v"]) or marked(p["v"])
        else:
            said = f"{outcome.message} {outcome.location}"
            obs["m"] = text(f"{outcome.message}")
            obs["names"] = [k for k, v in PLACES.items() if v in said]
            if p["c"] == "PermFail" and len(obs["m"]) > 2000:
                obs["m"] = obs["m"][:2000]
        obs["leak"] = obs["leak"] or any(marked(b) for b in bodies)
        return obs

    return vloop.run(go())[0]


async def populate(fn, spec, cluster, name, inputs):
    if fn["world"] == "absent":
        return
    api = spec["apiConfig"]
    obj_name = api["name"].strip("='")
    target = None
    if not set(fn["bad"]) & {"locals", "apiConfig", "resource", "template", "overlays"}:
        twin = {k: copy.deepcopy(v) for k, v in spec.items()
                if k not in ("preconditions", "postconditions", "return")}
        twin["create"]["enabled"] = True
        twin["create"].pop("overlay", None)
        twin["apiConfig"].pop("readonly", None)
        f = await offer_ok(ResourceFunction, prepare_resource_function, f"{name}-twin", twin)
        await evaluate(cluster, twin, name, f, inputs)
        target = cluster.get(VERSION, api["plural"], "ns1", obj_name)
    if target is None:
        target = {"apiVersion": VERSION, "kind": api["kind"],
                  "metadata": {"name": obj_name, "namespace": "ns1", "uid": "u1",
                               "ownerReferences": [copy.deepcopy(OWNER[1])]},
                  "spec": {"val": "target"}}
        cluster.put(VERSION, api["plural"], "ns1", obj_name, target)
    if fn["world"] == "stale":
        target["spec"]["val"] = "other"
    else:
        target["status"] = {"conditions": [{"type": "Ready", "status": "True"}]}
