"""C12: Merge.tla / MergeTrace.tla against real evaluation."""

import asyncio
import copy
import hashlib
import itertools
import json

import env  # noqa: F401
import celpy
from koreo import cache
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction

import vloop
from check_rf import untag
from cluster import Cluster
from common import guard
from rfharness import ANNOTATION, NONE, deep_merge, offer, offer_ok, without_annotation
from values import enc, plain, text

MODEL = """CONSTANTS Engine = "%s" Big = "%s" MaxLayers = %d Rounds = 2
INIT Init
NEXT Next
INVARIANT Merged
PROPERTY Pure
%s
CHECK_DEADLOCK FALSE
"""
BROKEN = [("empty-merges", "wide"), ("no-base", "deep"), ("no-siblings", "deep"), ("leaf-no-base", "deep"),
          ("fresh-maps", "wide"), ("ignores-skip", "deep"), ("in-place", "wide")]
VERSION = "apps.example.io/v1"
OWNER = ("ns1", {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
                 "blockOwnerDeletion": True, "controller": False})
_n = itertools.count(1)


class X:
    """An expression standing for a value."""

    def __init__(self, cel, tagged, value):
        self.cel, self.tagged, self.value = cel, tagged, value


def written(d):
    if isinstance(d, X):
        return "=" + d.cel
    if isinstance(d, dict):
        return {k: written(v) for k, v in d.items()}
    if isinstance(d, list):
        return [written(v) for v in d]
    return d


def tagged(d):
    if isinstance(d, X):
        return d.tagged
    if isinstance(d, dict):
        return ["m", {text(k): tagged(v) for k, v in d.items()}]
    if isinstance(d, list):
        return ["l", [tagged(v) for v in d]]
    return enc(d)


def valued(d):
    """What the document is worth; only used to write further documents."""
    if isinstance(d, X):
        return copy.deepcopy(d.value)
    if isinstance(d, dict):
        return {k: valued(v) for k, v in d.items()}
    if isinstance(d, list):
        return [valued(v) for v in d]
    return d


# --- what must not change


def projection(obj, depth=0):
    """A text which changes when a prepared function does."""
    if hasattr(obj, "ast"):
        return hashlib.sha1(repr(obj.ast).encode()).hexdigest()[:12]
    if isinstance(obj, type) or callable(obj):
        return getattr(obj, "__qualname__", "?")
    if hasattr(obj, "_fields"):
        return {f: projection(getattr(obj, f), depth + 1) for f in obj._fields}
    if isinstance(obj, dict):
        return [[projection(k), projection(v, depth + 1)] for k, v in obj.items()]
    if isinstance(obj, (set, frozenset)):
        return sorted(str(projection(x)) for x in obj)
    if isinstance(obj, (list, tuple)):
        return [projection(x, depth + 1) for x in obj]
    if hasattr(obj, "__dict__") and depth < 12 and type(obj).__module__.startswith("koreo"):
        return {k: projection(v, depth + 1) for k, v in vars(obj).items()}
    return f"{type(obj).__name__}:{obj}"


class Watch:
    """Snapshots of things which evaluation must leave alone."""

    def __init__(self):
        self.snaps, self.things = [], []

    def add(self, what, thing, project=enc):
        self.things.append((what, thing, project, project(thing)))

    def look(self):
        for what, thing, project, before in self.things:
            after = project(thing)
            short = [before, after] if before != after else ["same", "same"]
            self.snaps.append({"what": what, "before": self.small(short[0]), "after": self.small(short[1])})
        seen = []
        for s in self.snaps:
            if s not in seen:
                seen.append(s)
        return seen

    @staticmethod
    def small(v):
        return hashlib.sha1(json.dumps(v, sort_keys=False, default=str).encode()).hexdigest()[:12] if v != "same" else v


def spec_of(cls, name):
    return cache.get_resource_system_data_from_cache(cls, name).spec


# --- documents

KEYS = ["a", "b", "c", "x.y/z", "cm", "with space", "0k", "spec"]
SCALARS = ["one", "two words", "", 0, 1, -7, 2.5, True, False, None, "=x"[1:], "quo'te", "line\nbreak", {}, [],
           ["p", "q"], [1, [2, {}]], [{"a": 1}, {"b": {"a": None}}]]


def paths(v, at=()):
    """Static paths of a value, away from computed maps."""
    if isinstance(v, dict):
        for k, x in v.items():
            if k.isalpha() and k != "cm":
                yield (*at, k), x
                yield from paths(x, (*at, k))


def shadowing(rng, locs, inputs):
    """Locals may be named like inputs: they are still two different things."""
    if locs and inputs and rng.random() < 0.5:
        old, new = rng.choice(sorted(locs)), rng.choice(sorted(inputs))
        if new.isalpha():
            locs[new] = locs.pop(old)
    return locs


class Writer:
    """Random documents over the given inputs, locals and current resource."""

    def __init__(self, rng, inputs, locs=None, resource=None, rate=0.35, computed_maps=True):
        self.rng, self.inputs, self.locals, self.resource = rng, inputs, locs or {}, resource
        self.rate, self.computed_maps = rate, computed_maps

    def expr(self, key=None):
        rng = self.rng
        pool = [("in", f"inputs.{k}", ["in", k], v) for k, v in self.inputs.items()]
        pool += [("loc", f"locals.{k}", ["loc", k], v) for k, v in self.locals.items()]
        if self.resource is not None:
            pool += [("res", "resource." + ".".join(p), ["res", list(p)], v) for p, v in paths(self.resource)] * 2
        ok_map = key == "cm" and self.computed_maps
        pool = [p for p in pool if ok_map or not isinstance(p[3], dict)]
        if ok_map and rng.random() < 0.6:
            k = rng.choice(sorted(self.inputs))
            if rng.random() < 0.5:
                return X(f"{{'a': inputs.{k}, 'b': 'lit'}}", ["mapx", {"a": ["in", k], "b": ["s", "lit"]}],
                         {"a": self.inputs[k], "b": "lit"})
            maps = [k for k, v in self.inputs.items() if isinstance(v, dict) and v and not hollow(v)]
            if len(maps) > 1:
                a, b = rng.sample(maps, 2)
                return X(f"overlay(inputs.{a}, inputs.{b})", ["ov", ["in", a], ["in", b]],
                         deep_merge(self.inputs[a], self.inputs[b]))
        if not pool:
            return None
        _, cel, tag, v = rng.choice(pool)
        if isinstance(v, str) and rng.random() < 0.3:
            return X(f"{cel} + '-z'", ["cat", tag, "-z"], v + "-z")
        return X(cel, tag, v)

    def value(self, depth, key=None):
        rng = self.rng
        if rng.random() < self.rate:
            e = self.expr(key)
            if e is not None:
                return e
        r = rng.random()
        if depth > 0 and r < 0.5:
            return self.doc(depth - 1)
        if r < 0.6 and depth >= 0:
            return [self.value(min(depth, 1) - 1) for _ in range(rng.choice([1, 2, 3]))]
        return copy.deepcopy(rng.choice(SCALARS))

    def doc(self, depth):
        rng = self.rng
        keys = rng.sample(KEYS, rng.choice([1, 2, 2, 3, 4]))
        return {k: self.value(depth, k) for k in keys}


def hollow(v):
    """Holds an empty map: whether overlay() replaces by it is not said."""
    if isinstance(v, dict):
        return not v or any(hollow(x) for x in v.values())
    return False


INPUT_SETS = [
    {"s": "text", "n": 5, "f": 1.5, "t": True, "z": None, "l": [1, "two", {"a": [None]}], "m": {"a": {"b": "deep"}, "c": 1},
     "o": {"a": {"c": ["q"]}, "d": True}, "e": {}, "on": True, "off": False},
    {"s": "other", "n": -1, "f": 0.25, "t": False, "z": "was null", "l": [], "m": {"a": {"b": [1]}, "b": {"a": 2}},
     "o": {"a": "flat"}, "e": [], "on": True, "off": False},
]


def skip(rng, layers_on):
    """(as written, as tagged, whether it skips)"""
    on = rng.random() < 0.4
    return rng.choice([
        (f"=inputs.{'on' if on else 'off'}", ["in", "on" if on else "off"], on),
        (f"={'true' if on else 'false'}", ["b", on], on),
        (None, ["b", False], False),
        (f"={'!' if on else ''}inputs.off", ["b", on], on),
    ])


# --- value functions


async def vf_case(rng, base=None, doc=None, locs=None, rounds=(0, 1, 0)):
    inputs = [dict(x) for x in INPUT_SETS]
    if doc is None:
        if rng.random() < 0.8:
            base = valued(Writer(rng, inputs[0], rate=0.0).doc(rng.choice([1, 2, 3])))
        locs = Writer(rng, inputs[0], rate=0.6, computed_maps=False, resource=base).doc(1) if rng.random() < 0.5 else {}
        locs = shadowing(rng, {k: v for k, v in locs.items() if k.isalpha() and k != "cm"}, inputs[0])
        doc = Writer(rng, inputs[0], locs=valued(locs), resource=base or {}).doc(rng.choice([0, 1, 2, 3, 4]))
    name = f"m-vf-{next(_n)}"
    spec = {"return": written(doc)}
    if locs:
        spec["locals"] = written(locs)
    fn = await offer_ok(ValueFunction, prepare_value_function, name, spec)
    watch = Watch()
    given = [celpy.json_to_cel(copy.deepcopy(x)) for x in inputs]
    base_cel = None if base is None else celpy.json_to_cel(copy.deepcopy(base))
    for g in given:
        watch.add("inputs", g)
    if base is not None:
        watch.add("base", base_cel)
    watch.add("function", fn, projection)
    watch.add("spec", spec_of(ValueFunction, name), lambda s: s if isinstance(s, str) else json.dumps(s))
    runs = []
    for k in rounds:
        out = await reconcile_value_function(location="t", function=fn, inputs=given[k], value_base=base_cel)
        runs.append({"n": k + 1, "as": "value", "out": enc(out)})
    # prepared again from the cached spec
    again = await offer_ok(ValueFunction, prepare_value_function, name, spec_of(ValueFunction, name))
    out = await reconcile_value_function(location="t", function=again, inputs=celpy.json_to_cel(inputs[0]),
                                         value_base=base_cel)
    runs.append({"n": 1, "as": "value", "out": enc(out)})
    return {"k": "vf", "base": NONE if base is None else enc(base),
            "layers": [{"fn": True, "skip": ["b", False], "doc": tagged(doc), "ins": ["m", {}], "locs": tagged(locs or {})}],
            "create": NONE, "ident": ["m", {}], "locals": ["m", {}], "inputs": [enc(x) for x in inputs],
            "runs": runs, "snaps": watch.look()}, {"base": base, "spec": spec}


# --- resource functions


def sent(req):
    """The body without the bookkeeping of last-applied and owners."""
    body, _ = without_annotation(req["body"])
    meta = body.get("metadata")
    if isinstance(meta, dict):
        meta.pop("ownerReferences", None)
    return body


async def rf_case(rng, base=None, plan=None):
    n = next(_n)
    kind, plural = f"M{n}", f"m{n}s"
    ident = {"apiVersion": VERSION, "kind": kind, "metadata": {"name": "obj", "namespace": "ns1"}}
    inputs = [dict(x) for x in INPUT_SETS]
    use_template = rng.random() < 0.5
    locs = {}
    if plan is None and rng.random() < 0.5:
        locs = Writer(rng, inputs[0], rate=0.7, computed_maps=False).doc(1)
        locs = shadowing(rng, {k: v for k, v in locs.items() if k.isalpha() and k != "cm"}, inputs[0])
    lv = valued(locs)
    if base is None:
        w = Writer(rng, inputs[0], locs=lv, rate=0.0 if use_template else 0.3)
        base = {**w.doc(rng.choice([0, 1, 2, 3])), "keep": "kept"}
        if rng.random() < 0.3:
            base["metadata"] = {"labels": {"l": "v"}, "name": rng.choice(["evil", 5, None])}
    if use_template:
        base = {"apiVersion": VERSION, "kind": kind, **base}
    cur = deep_merge(valued(base), ident)
    entries, layers = [], []
    for k in range(len(plan) if plan is not None else rng.choice([0, 1, 1, 2, 3, 5])):
        if plan is not None:
            doc, (s_w, s_t, s_on) = plan[k]["doc"], (
                f"={'true' if plan[k]['skip'] else 'false'}", ["b", plan[k]["skip"]], plan[k]["skip"])
            as_fn = rng.random() < 0.4
            ins, flocs = {}, {}
        else:
            s_w, s_t, s_on = skip(rng, None)
            as_fn = rng.random() < 0.4
            ins = flocs = {}
            if as_fn:
                ins = Writer(rng, inputs[0], locs=lv, rate=0.5).doc(1)
                ins = {k: v for k, v in ins.items() if k.isalpha() and k != "cm"} or {"s": "fixed"}
                iv = valued(ins)
                flocs = Writer(rng, iv, resource=cur, rate=0.6, computed_maps=False).doc(1)
                flocs = shadowing(rng, {k: v for k, v in flocs.items() if k.isalpha() and k != "cm"}, iv)
                doc = Writer(rng, iv, locs=valued(flocs), resource=cur).doc(rng.choice([0, 1, 2, 3]))
            else:
                doc = Writer(rng, inputs[0], locs=lv, resource=cur).doc(rng.choice([0, 1, 2, 3, 4]))
            doc.pop("metadata", None)
            if rng.random() < 0.2:
                doc["metadata"] = rng.choice([{"name": "evil"}, {"labels": {"m": "w"}}, {"labels": {}, "namespace": "other"}])
        e = {}
        if as_fn:
            vname = f"m-ov-{next(_n)}"
            vspec = {"return": written(doc)}
            if flocs:
                vspec["locals"] = written(flocs)
            await offer_ok(ValueFunction, prepare_value_function, vname, vspec)
            e["overlayRef"] = {"kind": "ValueFunction", "name": vname}
            if ins:
                e["inputs"] = written(ins)
        else:
            e["overlay"] = written(doc)
        if s_w is not None:
            e["skipIf"] = s_w
        entries.append(e)
        layers.append({"fn": as_fn, "skip": s_t, "doc": tagged(doc), "ins": tagged(ins), "locs": tagged(flocs)})
        if not s_on:
            cur = deep_merge(cur, valued(doc))
    create = None
    if plan is None and rng.random() < 0.3:
        create = Writer(rng, inputs[0], locs=lv, resource=deep_merge(cur, ident)).doc(rng.choice([0, 1, 2]))
    spec = {"apiConfig": {"apiVersion": VERSION, "kind": kind, "plural": plural, "name": "obj", "namespace": "ns1",
                          "owned": rng.random() < 0.5}}
    watch = Watch()
    if use_template:
        tname = f"m-tpl-{n}"
        await offer_ok(ResourceTemplate, prepare_resource_template, tname, {"template": base})
        spec["resourceTemplateRef"] = {"name": tname}
        watch.add("template", cache.get_resource_from_cache(ResourceTemplate, tname).template)
        watch.add("template-spec", spec_of(ResourceTemplate, tname))
    else:
        spec["resource"] = written(base)
    if entries:
        spec["overlays"] = entries
    if locs:
        spec["locals"] = written(locs)
    if create is not None:
        spec["create"] = {"overlay": written(create)}
    fn = await offer_ok(ResourceFunction, prepare_resource_function, f"m-rf-{n}", spec)
    watch.add("function", fn, projection)
    watch.add("spec", spec_of(ResourceFunction, f"m-rf-{n}"), json.dumps)
    given = [celpy.json_to_cel(copy.deepcopy(x)) for x in inputs]
    for g in given:
        watch.add("inputs", g)
    owner = copy.deepcopy(OWNER)
    watch.add("owner", owner[1])
    runs = []

    async def once(k, fn, how, given):
        cluster = Cluster()
        if how == "patch":
            cluster.put(VERSION, plural, "ns1", "obj", {"apiVersion": VERSION, "kind": kind,
                                                        "metadata": {"name": "obj", "namespace": "ns1"}})
        await reconcile_resource_function(api=cluster.api(), location="t", function=fn, owner=owner, inputs=given)
        bodies = [r for r in cluster.log if r["verb"] == how]
        runs.append({"n": k + 1, "as": how, "out": enc(sent(bodies[0])) if len(bodies) == 1 else NONE})

    for k, how in ([(0, "create"), (1, "create"), (0, "create"), (0, "patch")] if plan is None else
                   [(0, "create"), (0, "create")]):
        await once(k, fn, how, given[k])
    again = await offer_ok(ResourceFunction, prepare_resource_function, f"m-rf-{n}",
                           spec_of(ResourceFunction, f"m-rf-{n}"))
    await once(0, again, "create", celpy.json_to_cel(copy.deepcopy(inputs[0])))
    return {"k": "rf", "base": tagged(base), "layers": layers, "create": NONE if create is None else tagged(create),
            "ident": enc(ident), "locals": tagged(locs), "inputs": [enc(x) for x in inputs], "runs": runs,
            "snaps": watch.look()}, spec


def corrupt(rng, cases):
    out = []
    for c in copy.deepcopy(rng.sample(cases, len(cases))):
        if rng.random() < 0.15:
            rng.choice(c["snaps"])["after"] = "changed"
            out.append(c)
            continue
        r = rng.choice(c["runs"])["out"]
        if r[0] != "m" or not r[1]:
            continue
        node = r
        while True:
            k = rng.choice(sorted(node[1]))
            if node[1][k][0] == "m" and node[1][k][1] and rng.random() < 0.7:
                node = node[1][k]
                continue
            break
        how = rng.randrange(3)
        if how == 0:
            del node[1][k]
        elif how == 1:
            node[1][k] = ["s", "corrupted"]
        else:
            node[1]["extra~"] = ["z"]
        out.append(c)
    return out


def run(ctx):
    rng = ctx.rng
    emit = "ACTION_CONSTRAINT Emit"
    scen = ctx.model_check("Merge", MODEL % ("koreo", "wide", 1, emit), min_states=50000).prints("T")
    deep = ctx.model_check("Merge", MODEL % ("koreo", "deep", 2, emit), min_states=300000, workers=6).prints("T")
    for engine, big in BROKEN:
        if not ctx.tlc("Merge", MODEL % (engine, big, 2, ""), allow_violation=True).violated:
            raise RuntimeError(f"the model does not tell {engine} apart")
    ctx.coverage["broken_engines_rejected_by_the_model"] = [b for b, _ in BROKEN]
    if not ctx.quick:
        ctx.model_check("Merge", MODEL % ("koreo", "wide", 2, ""), min_states=1000000, workers=8, timeout=1500)
        ctx.model_check("Merge", MODEL % ("koreo", "deeper", 2, ""), min_states=5000000, workers=8, timeout=3000)
    cases, specs = [], []

    def keep(pair):
        cases.append(pair[0])
        specs.append(pair[1])

    async def everything():
        rng.shuffle(scen)
        rng.shuffle(deep)
        single = [s for s in deep if len(s["layers"]) == 1]
        for s in scen[: ctx.pick(900, 14400)] + single[: ctx.pick(675, 6750)]:
            keep(await vf_case(rng, base=untag(s["base"]), doc=untag(s["layers"][0]["doc"]), rounds=(0, 0)))
        for s in scen[: ctx.pick(150, 5000)] + deep[: ctx.pick(350, 10000)]:
            base = {k: v for k, v in untag(s["base"]).items()}
            keep(await rf_case(rng, base={**base, "keep": "kept"},
                               plan=[{"doc": untag(x["doc"]), "skip": x["skip"][1]} for x in s["layers"]]))
        ctx.log(f"{len(cases)} evaluations of the model")
        for _ in range(ctx.pick(500, 12000)):
            keep(await vf_case(rng))
        for _ in range(ctx.pick(400, 10000)):
            keep(await rf_case(rng))
        ctx.log("random documents evaluated")

    with guard(ctx.pick(600, 3000)):
        vloop.run(everything())
    kinds = {}
    for c in cases:
        kinds[c["k"]] = kinds.get(c["k"], 0) + 1
        for r in c["runs"]:
            key = f"{r['as']}{'' if r['out'] != NONE else ' (nothing sent)'}"
            kinds[key] = kinds.get(key, 0) + 1
    ctx.coverage["cases"] = kinds
    ctx.samples += [specs[-1], specs[len(specs) // 2]]
    ctx.check_cases("MergeTrace", cases, label="evaluations", shards=8, replay_info=lambda i: specs[i])
    if not ctx.violations:
        ctx.self_check("MergeTrace", corrupt(rng, cases)[: ctx.pick(400, 4000)], min_n=100)
