"""C04-C08: ResourceFunction reconcile (ResourceFn.tla / ResourceFnTrace.tla)."""

import asyncio
import copy
import itertools
import json

import rfgen
from common import guard, MachineryError
from rfharness import (
    ANNOTATION,
    NotPrepared,
    Scenario,
    deep_merge,
    run,
    strip,
)
from cluster import Cluster, substance
from values import enc, plain
import celpy

MODEL_CFG = """CONSTANTS Scope = "emit"
INIT Init
NEXT Next
INVARIANTS AfterWrite NoLoop LeaveAlone Corrects Exclusive Modes
PROPERTIES OwnersKept NoLoopStep
CHECK_DEADLOCK FALSE
"""
EMIT_CFG = """CONSTANTS Scope = "emit"
INIT EmitInit
NEXT EmitNext
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def untag(v):
    tag = v[0]
    if tag == "z":
        return None
    if tag == "n":
        return int(v[1]) if v[1].lstrip("-").isdigit() else float(v[1])
    if tag == "l":
        return [untag(x) for x in v[1]]
    if tag == "m":
        m = v[1] if isinstance(v[1], dict) else {}
        return {k: untag(x) for k, x in m.items()}
    return v[1]


def model(ctx):
    ctx.model_check("ResourceFn", MODEL_CFG, min_states=100000, workers=8, timeout=800)
    res = ctx.tlc("ResourceFn", EMIT_CFG)
    scen = res.prints("T")
    if len(scen) < 700:
        raise MachineryError(f"only {len(scen)} emitted scenarios")
    ctx.coverage["scenarios_from_model"] = len(scen)
    return scen


class Shared:
    """A prepared function whose target is entirely taken from its inputs."""

    def __init__(self, rng, **kw):
        self.rng, self.kw = rng, kw
        self.ready = None

    async def scenario(self, doc):
        if self.ready is None:
            s = Scenario(self.rng, base={"spec": {"ph": 1}}, rate=0.0, **self.kw)
            s.spec_override = True
            orig = s.base
            s.base = {"spec": "=inputs.spec", "data": "=inputs.data", "metadata": "=inputs.meta"}
            await s.prepare()
            s.base = orig
            self.ready = s
        s = copy.copy(self.ready)
        full = {k: doc.get(k, {}) for k in ("spec", "data", "metadata")}
        s.base = full
        s.inputs = celpy.json_to_cel(
            {"spec": full["spec"], "data": full["data"], "meta": full["metadata"]}
        )
        return s


async def play(s, prop, steps, cluster=None):
    """steps: "pass" or a function(cluster, address, scenario)."""
    cluster = cluster or Cluster()
    api = cluster.api()
    case = s.header()
    case["prop"] = prop
    for step in steps:
        if step == "pass":
            case["passes"].append(await s.one_pass(cluster, api))
        else:
            step(cluster, s.address(), s)
    return case


def put_live(obj):
    def f(cluster, address, s):
        if obj is None:
            cluster.objects.pop(address, None)
        else:
            new = copy.deepcopy(obj)
            changed(cluster, cluster.objects.get(address), new, s)
            cluster.objects[address] = new

    return f


def changed(cluster, old, new, s):
    """Somebody else wrote it: the server's bookkeeping tells."""
    meta, given = new.get("metadata"), s.target().get("metadata")
    if not isinstance(meta, dict):
        return
    if "resourceVersion" not in given:
        cluster.counter += 1
        meta["resourceVersion"] = f"{cluster.counter}"
    if old is not None and "generation" not in given and isinstance(old.get("metadata"), dict):
        known = old["metadata"].get("generation")
        if isinstance(known, int):
            meta["generation"] = known + (substance(old) != substance(new))


def decorate_live(rng, amount=0.4):
    def f(cluster, address, s):
        obj = cluster.objects.get(address)
        if obj is None:
            return
        new = rfgen.decorate(rng, plain(obj), s.target(), amount)
        changed(cluster, obj, new, s)
        cluster.objects[address] = new

    return f


async def scenarios_from_model(ctx, prop, scen, want):
    cases = []
    shared = {
        u: Shared(ctx.rng, cfg={"update": u, "cd": 11, "ud": 13}, parent_ns="elsewhere")
        for u in ("patch", "recreate", "never")
    }
    for sc in scen:
        t, live = untag(sc["t"]), untag(sc["l"])
        for policy in want(sc):
            s = await shared[policy].scenario({"spec": t})
            obj = s.live_object(last_applied=False)
            obj["spec"] = live
            cases.append(await play(s, prop, [put_live(obj), "pass", "pass"]))
    return cases


def random_layers(rng, n=None, identity=False):
    layers = []
    for _ in range(rng.randint(0, 3) if n is None else n):
        doc = rfgen.overlay(rng)
        if identity:
            doc = deep_merge(doc, rng.choice(IDENTITY)) if rng.random() < 0.8 else doc
        layers.append(
            (
                rng.choice(["overlay", "overlay", "ref"]),
                doc,
                rng.choice([None, None, False, True]),
            )
        )
    return layers


ZONE = {"version": "cluster.example.io/v1", "kind": "Zone", "plural": "zones", "namespaced": False, "ns": None}


def random_scenario(rng, **kw):
    for _ in range(200):
        cfg = {"cd": rng.choice([30, 5, 60, 1, 0, 3600]), "ud": rng.choice([30, 7, 45, 0, 3600])}
        if rng.random() < 0.2:
            cfg["owned"] = False
        cfg.update(kw.pop("cfg", {}))
        api = kw.get("api") or rng.choice([{}, {}, {}, {}, ZONE])
        s = Scenario(
            rng,
            cfg=cfg,
            base=kw.get("base") or rfgen.resource(rng),
            layers=kw["layers"] if "layers" in kw else random_layers(rng),
            base_mode=kw.get("base_mode", rng.choice(["inline", "inline", "template"])),
            rate=rng.choice([0.0, 0.3, 0.8]),
            parent_ns=kw.get("parent_ns", rng.choice(["ns1", "ns1", "ns2"])),
            static_name=rng.random() < 0.5,
            create_doc=kw.get("create_doc"),
            pre=kw.get("pre"),
            api=api,
        )
        kw["cfg"] = cfg
        if rfgen.valid(s.target()) and not rfgen.has_null(s.target()):
            return s
        kw.pop("base", None)
    raise MachineryError("no valid scenario generated")


# what the API server does not let anybody change or lose
PINNED = (
    ("metadata",), ("metadata", "name"), ("metadata", "namespace"),
    ("metadata", "annotations"), ("kind",), ("apiVersion",),
)

# --------------------------------------------------------------------------- C04


async def c04_cases(ctx, scen):
    rng = ctx.rng
    met = [x for x in scen if x["act"] == "none"]
    cases = await scenarios_from_model(
        ctx, "C04", met + rng.sample(scen, 150), lambda sc: ("patch", "recreate")
    )
    for n in range(ctx.pick(220, 4000)):
        create_doc = None
        if rng.random() < 0.25:
            # create-only values that do not contradict the target
            create_doc = {"createOnly": rfgen.value(rng, 1) or 1, "spec": {"onlyAtCreate": {"x": 1}}}
        cfg = {"update": rng.choice(["patch", "patch", "recreate", "never"])}
        s = random_scenario(rng, cfg=cfg, create_doc=create_doc)
        if create_doc is not None and not isinstance(s.target().get("spec", {}), dict):
            continue
        await s.prepare()
        mode = n % 4
        if mode == 0:
            steps = ["pass", "pass", decorate_live(rng), "pass", "pass"]
        elif mode == 1:
            # found in the cluster, never written by this function
            obj = s.live_object(
                rng.choice(rfgen.OWNER_SETS), last_applied=rng.random() < 0.6
            )
            steps = [put_live(obj), decorate_live(rng, 0.6), "pass", "pass", "pass"]
        elif mode == 2:
            obj = s.live_object(rng.choice(rfgen.OWNER_SETS))
            ps = [
                (p, d) for p, d in rfgen.paths(s.target()) if p not in PINNED
            ]
            dev = None
            if ps:
                p, d = rng.choice(ps)
                dev = apply_random(rng, s, obj, p, d)
            steps = [put_live(dev or obj), "pass", "pass", decorate_live(rng), "pass"]
        else:
            # the last-applied annotation is somebody else's idea
            obj = s.live_object(rng.choice(rfgen.OWNER_SETS))
            if "x-koreo-compare-last-applied" not in json.dumps(s.target()):
                ann = obj["metadata"].setdefault("annotations", {})
                old = rfgen.resource(rng)
                old.update(deep_merge(strip(s.target()), rfgen.overlay(rng)) if rng.random() < 0.5 else {})
                ann[ANNOTATION] = rng.choice(
                    [
                        json.dumps(reshape(rng, strip(s.target()))),
                        json.dumps(reshape(rng, strip(s.target()))),
                        json.dumps(old),
                        "{not json", "[]", "5", "null", '"x"', "",
                    ]
                )
            steps = [put_live(obj), decorate_live(rng), "pass", "pass"]
        cluster = Cluster()
        if rng.random() < 0.4:
            cluster.decorate = server_defaults(rng, s)
        case = await play(s, "C04", steps, cluster)
        cases.append(case)
    return cases


def reshape(rng, doc):
    """A last-applied value whose shape differs from the target's."""
    if isinstance(doc, dict):
        out = {k: reshape(rng, v) for k, v in doc.items()}
        for k in list(out):
            if rng.random() < 0.25:
                out[k] = rng.choice(["str", 5, [1], [], {"q": 1}, None, True, 0.5, ["a", "b", "c", "d"]])
        return out
    if isinstance(doc, list):
        out = [reshape(rng, v) for v in doc]
        if rng.random() < 0.3:
            return rng.choice(["str", 5, {"0": 1}, out[:1], out + [7], [None] * len(out)])
        return out
    return doc


def server_defaults(rng, s):
    seed = rng.random()

    def f(obj):
        import random

        r = random.Random(seed)
        new = rfgen.decorate(r, plain(obj), s.target(), 0.3)
        obj.clear()
        obj.update(new)

    return f


def apply_random(rng, s, obj, p, directive):
    try:
        v = rfgen.at(obj, p)
    except (KeyError, IndexError, TypeError):
        return None
    removable = isinstance(p[-1], str)
    devs = rfgen.deviations(rng, v, directive, not removable)
    return rfgen.apply_deviation(obj, p, rng.choice(devs))


# --------------------------------------------------------------------------- C05


async def c05_cases(ctx, scen):
    rng = ctx.rng
    drift = [x for x in scen if x["act"] != "none"]
    if ctx.quick:
        drift = rng.sample(drift, min(700, len(drift)))
    cases = await scenarios_from_model(
        ctx, "C05", drift,
        lambda sc: (rng.choice(["patch", "patch", "recreate", "never"]),) if ctx.quick else ("patch", "recreate", "never"),
    )
    shared = {
        (u, ns): Shared(rng, cfg={"update": u, "cd": 11, "ud": 13}, parent_ns=ns)
        for u in ("patch", "recreate", "never")
        for ns in ("ns1", "ns2")
    }
    owner_mine = rfgen.OWNER_SETS[4]
    budget = ctx.pick(1500, 30000)
    while budget > 0:
        doc = rfgen.resource(rng)
        if not rfgen.valid(doc) or rfgen.has_null(doc):
            continue
        if not isinstance(doc.get("metadata", {}), dict):
            continue
        probe = await shared[("patch", "ns2")].scenario(doc)
        base_obj = probe.live_object(owner_mine)
        ps = [
            (p, d)
            for p, d in rfgen.paths(probe.target())
            if p not in PINNED
        ]
        if not ps:
            continue
        decorated = rfgen.decorate(rng, base_obj, probe.target(), 0.2)
        for p, d in rng.sample(ps, min(len(ps), 12)):
            v = rfgen.at(base_obj, p)
            devs = rfgen.deviations(rng, v, d, not isinstance(p[-1], str))
            for dev in rng.sample(devs, min(len(devs), ctx.pick(6, 20))):
                src = base_obj if rng.random() < 0.7 else decorated
                try:
                    rfgen.at(src, p)
                except (KeyError, IndexError, TypeError):
                    src = base_obj
                obj = rfgen.apply_deviation(src, p, dev)
                policy = rng.choice(["patch", "patch", "recreate", "never"])
                s = await shared[(policy, rng.choice(["ns1", "ns2"]))].scenario(doc)
                # it may have been seen as it should be, just before
                steps = [put_live(src), "pass"] if rng.random() < 0.25 else []
                steps += [put_live(obj), "pass"] + (["pass"] if rng.random() < 0.3 else [])
                cases.append(await play(s, "C05", steps))
                budget -= 1
    # drift in functions built from templates, overlays and literals
    for _ in range(ctx.pick(150, 2500)):
        s = random_scenario(rng, cfg={"update": rng.choice(["patch", "patch", "recreate", "never"])})
        await s.prepare()
        obj = s.live_object(rng.choice(rfgen.OWNER_SETS))
        ps = [(p, d) for p, d in rfgen.paths(s.target()) if len(p) > 1 and p[0] != "metadata"]
        steps = ["pass", "pass"]
        for p, d in rng.sample(ps, min(3, len(ps))):
            dev = apply_random(rng, s, obj, p, d)
            if dev is not None:
                steps += [put_live(dev), "pass", "pass"]
        cases.append(await play(s, "C05", steps))
    return cases


# --------------------------------------------------------------------------- C06

IDENTITY = [
    {"apiVersion": "evil/v9"},
    {"kind": "Evil"},
    {"metadata": {"name": "evil"}},
    {"metadata": {"namespace": "kube-system"}},
    {"metadata": {"name": "evil", "namespace": "kube-system", "labels": {"a": "b"}}},
    {"metadata": "scalar"},
    {"metadata": []},
    {"metadata": ["name"]},
    {"metadata": 5},
    {"metadata": {}},
    {"metadata": {"name": {"x": 1}}},
    {"metadata": {"name": ["evil"], "namespace": {"y": "z"}}},
    {"metadata": {"name": None, "namespace": None}},
    {"metadata": None},
    {"metadata": {"generateName": "evil-"}},
    {"kind": {"x": "y"}, "apiVersion": ["a"]},
    {"kind": None, "apiVersion": None},
    {"kind": "", "apiVersion": ""},
    {"metadata": False},
    {"metadata": {"name": ""}},
    {"metadata": {"name": 7, "namespace": True}},
]

APIS = [
    {},
    {"version": "v1", "kind": "ConfigMap", "plural": "configmaps"},
    {"version": "apps/v1", "kind": "Deployment", "plural": "deployments"},
    {"version": "alpha.example.io/v1", "kind": "Gizmo", "plural": "gizmos"},
    {"version": "beta.example.io/v1", "kind": "Gizmo", "plural": "gizmos"},
    {"version": "beta.example.io/v2", "kind": "Gizmo", "plural": "gizmos"},
    {"version": "serving.example.dev/v1", "kind": "Service", "plural": "services"},
    {"version": "v1", "kind": "Service", "plural": "services"},
    {"version": "v1", "kind": "Secret", "plural": "secrets"},
    {"version": "vault.example.com/v1", "kind": "Secret", "plural": "secrets"},
    {"version": "gate.example.io/v1", "kind": "Gate", "plural": "gates", "namespaced": False, "ns": None},
    {"version": "gate.example.io/v1beta1", "kind": "GateClass", "plural": "gateclasses", "namespaced": False, "ns": None},
    {"version": "rbac.authorization.k8s.io/v1", "kind": "ClusterRole", "plural": "clusterroles", "namespaced": False, "ns": None},
    # definitions of the same kind, later corrected
    {"version": "fixme.example.io/v1", "kind": "Datum", "plural": "datums"},
    {"version": "fixme.example.io/v1", "kind": "Datum", "plural": "data"},
    {"version": "fixme.example.io/v1", "kind": "Datum", "plural": "data", "namespaced": False, "ns": None},
    {"version": "fixme.example.io/v1", "kind": "datum", "plural": "data"},
    {"version": "look.example.io/v1", "kind": "Ox", "plural": "oxen", "omit_plural": True},
    {"version": "look2.example.io/v1", "kind": "Ox", "plural": "oxes", "omit_plural": True},
    {"version": "look.example.io/v1", "kind": "Yak", "plural": "yaks", "omit_plural": True},
    {"version": "look.example.io/v2", "kind": "Yak", "plural": "yaks", "omit_plural": True},
    {"version": "look2.example.io/v1", "kind": "Yak", "plural": "yaks", "omit_plural": True},
    {"version": "look2.example.io/v1", "kind": "Yak", "plural": "yaks", "omit_plural": True, "namespaced": False, "ns": None},
]


async def c06_cases(ctx, scen):
    rng = ctx.rng
    cases = []
    names = ["obj", "other", "a-b.c", "x1", "Obj-A", "system:obj", " obj", "obj ", "default", "OBJ"]
    for n in range(ctx.pick(420, 8000)):
        api = dict(APIS[n % len(APIS)])
        api["name"] = rng.choice(names)
        if api.get("namespaced", True):
            api["ns"] = rng.choice(["ns1", "ns2", "ns1", "ns2", "default", "kube-system", "NS1", "ns1 "])
        base = rfgen.resource(rng, 2)
        if rng.random() < 0.7:
            base = deep_merge(base, rng.choice(IDENTITY))
        template = rng.random() < 0.35
        layers = []
        for _ in range(rng.randint(0, 3)):
            doc = deep_merge(rfgen.overlay(rng, 1), rng.choice(IDENTITY))
            layers.append((rng.choice(["overlay", "ref"]), doc, rng.choice([None, False, True])))
        create_doc = rng.choice([None, None] + IDENTITY)
        if template and not isinstance(base, dict):
            continue
        s = Scenario(
            rng, api=api, base=base, layers=layers,
            create_doc=create_doc,
            base_mode="template" if template else "inline",
            cfg={"update": "patch", "owned": rng.random() < 0.6},
            rate=rng.choice([0.0, 0.5, 1.0]),
            parent_ns=rng.choice(["ns1", "ns2", api.get("ns") or "ns1"]),
            static_name=rng.random() < 0.4,
        )
        if template:
            s.base = {k: v for k, v in base.items() if k not in ("apiVersion", "kind")}
        if not rfgen.valid(s.target()):
            continue
        cluster = Cluster()
        for a in APIS:
            cluster.lookup[
                a.get("kind", "Widget") if a.get("version") == "v1"
                else f"{a.get('kind', 'Widget')}.{a.get('version', 'apps.example.io/v1')}"
            ] = a.get("plural", "widgets")
        # a bystander with the name the documents try to redirect to
        for ns in ("kube-system", "ns1", "ns2"):
            cluster.put(
                s.api["version"], s.api["plural"], ns if s.api["namespaced"] else None, "evil",
                {"apiVersion": s.api["version"], "kind": s.api["kind"], "metadata": {"name": "evil", "namespace": ns}},
            )
        await s.prepare()

        def upset(cluster, address, s):
            obj = cluster.objects.get(address)
            if obj is not None:
                for k in [k for k in obj if k not in ("apiVersion", "kind", "metadata")]:
                    del obj[k]
                obj["metadata"].pop("labels", None)
                obj["metadata"].pop("generateName", None)

        cases.append(await play(s, "C06", ["pass", "pass", upset, "pass"], cluster))
    return cases


# --------------------------------------------------------------------------- C07

PRE = [
    None,
    ("skip", "no", 0),
    ("depSkip", "no", 0),
    ("retry", "later", 9),
    ("permFail", "never", 0),
]


async def c07_cases(ctx, scen):
    rng = ctx.rng
    cases = []
    combos = list(
        itertools.product(
            (False, True), (False, True), ("patch", "recreate", "never"),
            (False, True), (False, True), (False, True), PRE,
        )
    )
    for ro, create, update, dele, owned, namespaced, pre in combos:
        if pre is not None and ctx.quick and rng.random() < 0.75:
            continue
        api = {} if namespaced else {
            "version": "cluster.example.io/v1", "kind": "Zone", "plural": "zones",
            "namespaced": False, "ns": None,
        }
        cluster = Cluster()
        if rng.random() < (0.25 if pre is None else 0.6):
            # the kind's plural is not given: it has to be asked for
            kind = f"Asked{len(cases)}"
            api.update(kind=kind, plural="askeds", omit_plural=True)
            cluster.lookup[f"{kind}.{api.get('version', 'apps.example.io/v1')}"] = "askeds"
        s = Scenario(
            rng,
            api={**api},
            base={"spec": {"a": 1, "l": [1, {"x": "y"}], "m": {"k": "v"}}},
            layers=[("overlay", {"spec": {"m": {"q": "r"}}}, None)] if rng.random() < 0.3 else [],
            cfg={"ro": ro, "create": create, "update": update, "del": dele, "owned": owned},
            base_mode=rng.choice(["inline", "inline", "template"]),
            create_doc=rng.choice([None, None, {"spec": {"once": 1}}]),
            rate=rng.choice([0.0, 0.5]),
            pre=pre,
            parent_ns=rng.choice(["ns1", "ns1", "ns2"]),
        )
        await s.prepare()
        mine = rfgen.OWNER_SETS[4]
        good = s.live_object(mine)
        drift = copy.deepcopy(good)
        drift["spec"]["a"] = rng.choice([2, "1", None, True])
        gone = copy.deepcopy(good)
        del gone["spec"]
        unowned = s.live_object(rng.choice([None, [], rfgen.OWNER_SETS[2]]))
        both = copy.deepcopy(unowned)
        both["spec"] = {"a": 5}
        for live in (None, good, drift, gone, unowned, both):
            if live is not None and rng.random() < 0.3:
                live = rfgen.bookkeeping(rng, copy.deepcopy(live), {})
            cases.append(await play(s, "C07", [put_live(live), "pass", "pass", "pass"], cluster))
    return cases


# --------------------------------------------------------------------------- C08


async def c08_cases(ctx, scen):
    rng = ctx.rng
    cases = []
    for n in range(ctx.pick(450, 8000)):
        base = rfgen.resource(rng)
        if rng.random() < 0.35:
            # directives deep inside lists and maps
            base.setdefault("spec", {})
            if isinstance(base["spec"], dict):
                base["spec"]["deep"] = [
                    {"l": [{"s": ["x"], "x-koreo-compare-as-set": ["s"]}],
                     "x-koreo-compare-as-map": {"l": ["z"]}},
                    [{"x-koreo-compare-last-applied": ["q"], "q": 1}],
                ]
        if rng.random() < 0.2:
            # (a target naming the parent itself is left open)
            ref = rng.choice([r for r in rfgen.OWNER_SETS if "uid-parent" not in json.dumps(r)])
            if ref is not None:
                base.setdefault("metadata", {})["ownerReferences"] = ref
        if rng.random() < 0.2:
            base.setdefault("metadata", {}).setdefault("annotations", {})
            if isinstance(base["metadata"]["annotations"], dict):
                base["metadata"]["annotations"][ANNOTATION] = rng.choice(
                    ["stale", '{"spec":{"a":1}}', "{}"]
                )
        api = {} if rng.random() < 0.8 else {
            "version": "cluster.example.io/v1", "kind": "Zone", "plural": "zones",
            "namespaced": False, "ns": rng.choice([None, None, "ns1"]),
        }
        s = Scenario(
            rng, api=api, base=base,
            layers=random_layers(rng),
            base_mode=rng.choice(["inline", "template"]),
            cfg={"owned": rng.random() < 0.75, "update": "patch"},
            create_doc=None if rng.random() < 0.7 else {"spec": {"x-koreo-compare-as-set": ["nn"], "nn": [1]}},
            rate=rng.choice([0.0, 0.4, 0.9]),
            parent_ns=rng.choice(["ns1", "ns1", "ns2"]),
            static_name=rng.random() < 0.5,
        )
        if not rfgen.valid(s.target()):
            continue
        await s.prepare()
        obj = s.live_object(rng.choice(rfgen.OWNER_SETS))
        if rng.random() < 0.75:
            obj = rfgen.decorate(rng, obj, s.target(), 0.2)
            for k in [k for k in obj if k in ("spec", "data", "tags")][:1]:
                obj[k] = rng.choice([{}, "x", {"a": "drifted"}])
        if rng.random() < 0.4:
            ann = obj["metadata"].setdefault("annotations", {})
            ann["other"] = "kept"
        steps = rng.choice(
            [["pass", "pass"], [put_live(obj), "pass", "pass"], ["pass", put_live(obj), "pass", "pass"]]
        )
        cases.append(await play(s, "C08", steps))
    return cases


GENERATORS = {"C04": c04_cases, "C05": c05_cases, "C06": c06_cases, "C07": c07_cases, "C08": c08_cases}

# --------------------------------------------------------------------------- self check


def corrupt(prop, cases):
    out = []
    for c in cases:
        c = copy.deepcopy(c)
        for p in c["passes"]:
            muts = [r for r in p["reqs"] if r["verb"] in ("create", "patch", "delete")]
            if prop == "C04":
                if muts and p["out"]["c"] == "Retry":
                    p["out"]["d"] += 1
                    if c["cfg"]["del"]:
                        p["out"]["c"] = "Ok"
                    out.append(c)
                    break
            elif prop == "C05":
                if len(muts) == 1 and muts[0]["verb"] == "patch" and "none" not in p["live"]["obj"]:
                    spec = muts[0]["body"][1].get("spec")
                    if spec and isinstance(spec[1], dict) and spec[1]:
                        spec[1].pop(sorted(spec[1])[0])
                        c["maybe"] = True
                        out.append(c)
                        break
            elif prop == "C06":
                if muts and muts[0]["body"][0] == "m":
                    muts[0]["body"][1]["kind"] = ["s", "Changed"]
                    out.append(c)
                    break
            elif prop == "C07":
                if not muts and (c["cfg"]["ro"] or c["pre"]):
                    p["reqs"].append(
                        {"verb": "create", "version": "", "plural": "", "ns": "", "name": "",
                         "body": ["none"], "la": ["none"], "laKnown": False}
                    )
                    if c["cfg"]["del"] and not c["pre"]:
                        continue
                    out.append(c)
                    break
            elif prop == "C08":
                if muts and muts[0]["verb"] in ("create", "patch") and muts[0]["la"][0] == "m":
                    muts[0]["la"][1]["untrue"] = ["z"]
                    out.append(c)
                    break
        if len(out) >= 60:
            break
    return out


def run_check(ctx, prop):
    scen = model(ctx)
    with guard(1500):
        cases = run(GENERATORS[prop](ctx, scen))
    acts = {}
    for c in cases:
        for p in c["passes"]:
            key = ",".join(r["verb"] for r in p["reqs"] if r["verb"] != "get") or "none"
            key = f"{key}/{p['out']['c']}"
            acts[key] = acts.get(key, 0) + 1
    ctx.coverage["observed_actions"] = acts
    ctx.coverage["passes"] = sum(len(c["passes"]) for c in cases)
    ctx.samples.append(min(cases, key=lambda c: len(json.dumps(c))))
    ctx.log(f"{len(cases)} cases {acts}")
    ctx.check_cases("ResourceFnTrace", cases, label="functions", shards=8)
    if not ctx.violations:
        bad = corrupt(prop, ctx.rng.sample(cases, min(len(cases), 600)))
        if prop == "C05":
            # dropping a field of the patch is only visible where a patch is due
            rejected = ctx.judge("ResourceFnTrace", bad)
            if len(rejected) < 10:
                raise MachineryError("binding self check: corrupted patches accepted")
            ctx.coverage["corrupted_traces_rejected"] = {"C05": len(rejected)}
        else:
            ctx.self_check("ResourceFnTrace", bad, min_n=10)
    ctx.assumptions += [
        "the API server merges patches per RFC 7386 and otherwise only adds to objects",
        "targets hold no explicit nulls and use comparison directives as documented",
    ]
