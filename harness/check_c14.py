"""C14: StaticRefs.tla / StaticRefsTrace.tla against real preparation."""

import asyncio
import copy
import itertools

import env  # noqa: F401
import celpy
from celpy import celtypes
from koreo import cache
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.run import run_function_test
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.result import is_unwrapped_ok
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.workflow.structure import Workflow

import vloop
from cluster import Cluster
from common import guard
from exprs import render, tree
from rfharness import offer, offer_ok

MODEL = """CONSTANTS MaxDepth = %d Walk = "%s"
INIT Init
NEXT Next
INVARIANT Complete
%s
CHECK_DEADLOCK FALSE
"""
BROKEN = ["no-index-expression", "outermost", "no-macro-body", "no-call-receiver"]
OWNER = ("ns1", {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
                 "blockOwnerDeletion": True, "controller": False})
VERSION = "apps.example.io/v1"
KINDS = {"ValueFunction": ValueFunction, "ResourceFunction": ResourceFunction, "Workflow": Workflow}
PREPARERS = {"ValueFunction": prepare_value_function, "ResourceFunction": prepare_resource_function,
             "Workflow": prepare_workflow}
PROBE = {"apiConfig": {"apiVersion": VERSION, "kind": "Probe", "plural": "probes", "name": "probe", "namespace": "ns1",
                       "readonly": True, "owned": False}, "resource": {}}
_n = itertools.count(1)


# --- part 1: dependencies


class Seen(celtypes.MapType):
    """A steps map which notes what is looked up."""

    def note(self, key):
        names = self.__dict__.setdefault("names", set())
        names.add(str(key))

    def __getitem__(self, key):
        self.note(key)
        return super().__getitem__(key)

    def get(self, key, default=None):
        self.note(key)
        return super().get(key, default)

    def __contains__(self, key):
        self.note(key)
        return super().__contains__(key)


def lookups(step, labels):
    """What evaluating the step's expressions looks up in `steps`."""
    names = set()
    # the result first, so that a lookup inside an expression gets a value
    rich = {"f": {"f": "x", "h": 1}, "sub": {"k": 1}, "h": 2, "x": "y", "l": [1, 2], "which": "aaa"}
    runners = [getattr(step, "inputs", None), getattr(step, "skip_if", None), getattr(step, "state", None),
               getattr(getattr(step, "for_each", None), "source_iterator", None),
               getattr(getattr(step, "logic", None), "switch_on", None)]
    for runner in runners:
        if runner is None:
            continue
        steps = Seen(celpy.json_to_cel({k: rich for k in labels}))
        try:
            runner.evaluate({"steps": steps, "parent": celpy.json_to_cel({"k": "aaa", "which": "aaa", "steps": {"q": 1}}),
                             "value": celpy.json_to_cel({})})
        except Exception:  # noqa: BLE001 - only the lookups count
            pass
        names |= steps.__dict__.get("names", set())
    return sorted(names)


FIELDS = ["inputs", "inputs", "skipIf", "itemIn", "switchOn", "state", "state"]


def nest(rng, e, depth=0):
    r = rng.random()
    if depth < 3 and r < 0.25:
        return [nest(rng, e, depth + 1)] if rng.random() < 0.5 else ["plain", nest(rng, e, depth + 1), 5]
    if depth < 3 and r < 0.5:
        return {"a": "steps.zzz", f"d{depth}": nest(rng, e, depth + 1)}
    return e


def place(rng, step, field, exprs, ref):
    """Writes the expressions into a field of the step."""
    text = ["=" + rng.choice(["", " ", "\n"]) + render(e, rng) for e in exprs]
    if field in ("inputs", "state"):
        step.setdefault(field, {}).update({f"{field[0]}{j}": nest(rng, t) for j, t in enumerate(text)})
    elif field == "skipIf":
        step["skipIf"] = text[0]
    elif field == "itemIn":
        step["forEach"] = {"itemIn": text[0], "inputKey": "item"}
    elif field == "switchOn":
        step.pop("ref", None)
        step["refSwitch"] = {"switchOn": text[0], "cases": [{"case": "aaa", **ref},
                                                            {"case": "bbb", "default": True, **ref}]}


def label(rng, k):
    return rng.choice([f"step{k}", f"s_{k}_x", f"aStep{k}", f"{k}_st", "steps" if k == 1 else f"l{k}l"])


def random_workflow(rng, n, wrong):
    labels = []
    while len(labels) < n:
        x = rng.choice(["aaa", "bbb", "ccc"]) if len(labels) < 3 else label(rng, len(labels))
        if x not in labels:
            labels.append(x)
    out = []
    culprit = rng.randrange(n) if wrong else -1
    for k, x in enumerate(labels):
        prior = labels[:k]
        fields = rng.sample(FIELDS, rng.choice([0, 1, 1, 2, 3, 4]) if k else rng.choice([0, 1]))
        uses = {}
        for f in dict.fromkeys(fields):
            count = rng.choice([1, 2, 3]) if f in ("inputs", "state") else 1
            uses[f] = [tree(rng, prior, rng.choice([0, 0, 1, 2])) for _ in range(count)]
        if k == culprit:
            bad = rng.choice([x, rng.choice(labels[k:]), "unknown", "Steps", prior[0] + "_" if prior else "nope"])
            f = rng.choice(FIELDS)
            e = tree(rng, [bad], rng.choice([0, 1, 2]))
            while bad not in str(e):
                e = tree(rng, [bad], 2)
            uses[f] = [e, *uses.get(f, [])[1:]]
        out.append((x, uses))
    return out


async def deps_case(rng, plan):
    ref = {"kind": "ResourceFunction", "name": "probe"}
    steps, record = [], []
    for lbl, uses in plan:
        step = {"label": lbl, "ref": ref}
        for f, es in uses.items():
            place(rng, step, f, es, ref)
        items = list(step.items())
        rng.shuffle(items)
        steps.append(dict(items))
        record.append({"label": lbl, "exprs": [e for es in uses.values() for e in es], "broken": False, "step": False,
                       "deps": [], "seen": []})
    case = {"k": "deps", "steps": record, "ready": False, "ran": False}
    spec = {"steps": steps}
    name = f"wf-{next(_n)}"
    try:
        res = await prepare_workflow(name, copy.deepcopy(spec))
    except Exception as err:  # noqa: BLE001
        case["error"] = f"{type(err).__name__}"
        return case, spec
    if not isinstance(res, tuple):
        return case, spec
    wf = res[0]
    case["ready"] = is_unwrapped_ok(wf.steps_ready)
    for rec, step in zip(record, wf.steps):
        if not hasattr(step, "dynamic_input_keys"):
            continue
        rec["step"] = True
        rec["deps"] = sorted(step.dynamic_input_keys)
        # the text of an error grows with every macro which repeats it
        if str(rec["exprs"]).count("'macro'") < 2:
            rec["seen"] = lookups(step, [x["label"] for x in record])
    if not case["ready"]:
        cluster = Cluster()
        try:
            out = await reconcile_workflow(api=cluster.api(), workflow_key=name, owner=copy.deepcopy(OWNER),
                                           trigger=celpy.json_to_cel({"metadata": {}}), workflow=wf)
            case["ran"] = bool(cluster.log) or is_unwrapped_ok(out.result)
        except Exception as err:  # noqa: BLE001
            case["error"] = f"{type(err).__name__}"
            case["ran"] = bool(cluster.log)
    return case, spec


def model_plan(rng, trees):
    """The model's trees, one per step; aaa, bbb and ccc come first."""
    plan = [(x, {}) for x in ("aaa", "bbb", "ccc")]
    for k, t in enumerate(trees):
        plan.append((f"t{k:02d}", {rng.choice(FIELDS): [t]}))
    return plan


# --- part 2: watched resources


def watch_spec(rng):
    """A definition which names resources -> (kind, spec, named)"""
    kind = rng.choice(["Workflow", "Workflow", "ResourceFunction", "FunctionTest"])
    named = set()
    pool = [("ValueFunction", "vf-ok"), ("ResourceFunction", "probe"), ("ValueFunction", "vf-bad"),
            ("ValueFunction", "vf-gone"), ("ResourceFunction", "rf-gone"), ("Workflow", "wf-ok"), ("Workflow", "wf-gone"),
            ("Workflow", "wf-bad"), ("ResourceFunction", "rf-bad")]
    broken = ["=1 +", "=", "=)", "=steps.", "='a"]

    def pick(only=None):
        k, n = rng.choice([x for x in pool if only is None or x[0] in only])
        if rng.random() < 0.3:
            n = f"{n}-{rng.randint(1, 99)}"
        named.add(f"{k}:{n}")
        return {"kind": k, "name": n}

    def expr(good, p=0.12):
        return rng.choice(broken) if rng.random() < p else good

    if kind == "Workflow":
        steps = []
        for k in range(rng.choice([1, 2, 3, 5, 8, 20])):
            st = {"label": f"step{k}" if rng.random() < 0.9 or not k else "step0"}
            if rng.random() < 0.55:
                st["ref"] = pick()
            else:
                cases = [{"case": f"c{j}" if rng.random() < 0.9 else "c0", **pick()}
                         for j in range(rng.choice([1, 2, 3, 10]))]
                for c in cases:
                    if rng.random() < 0.2:
                        c["default"] = True
                st["refSwitch"] = {"switchOn": expr("=parent.x"), "cases": cases}
            if rng.random() < 0.3:
                st["skipIf"] = expr("=false", 0.3)
            if rng.random() < 0.3:
                st["forEach"] = {"itemIn": expr("=[1]", 0.3), "inputKey": rng.choice(["i", "i", ""])}
            if rng.random() < 0.3:
                st["inputs"] = {"a": expr("=1", 0.3), "b": rng.choice(["=steps.nope", 5])}
            if rng.random() < 0.3:
                st["state"] = {"a": expr("=1", 0.3)}
            steps.append(st)
        spec = {"steps": steps}
        if rng.random() < 0.2:
            spec["crdRef"] = {"apiGroup": "g", "version": "v1", "kind": "K"}
        return kind, spec, named
    if kind == "ResourceFunction":
        overlays = []
        for _ in range(rng.choice([1, 2, 3, 6])):
            if rng.random() < 0.7:
                ref = pick(["ValueFunction"])
                o = {"overlayRef": ref}
                if rng.random() < 0.5:
                    o["inputs"] = {"a": expr("=1", 0.3)}
            else:
                o = {"overlay": rng.choice([{"a": expr("=1", 0.3)}, {}, {"b": 1}])}
                if rng.random() < 0.2:
                    o["inputs"] = {"a": 1}
            if rng.random() < 0.4:
                o["skipIf"] = expr("=false", 0.35)
            overlays.append(o)
        return kind, {"apiConfig": {"apiVersion": VERSION, "kind": "Thing", "plural": "things", "name": "x",
                                    "namespace": "ns1"}, "resource": {}, "overlays": overlays}, named
    spec = {"functionRef": pick(["ValueFunction", "ResourceFunction"])}
    cases = [{rng.choice(["expectReturn"]): {"a": 1}} for _ in range(rng.choice([0, 1, 2]))]
    for c in cases:
        if rng.random() < 0.5:
            c["inputOverrides"] = {"a": "=1 +"}
        if rng.random() < 0.3:
            c["label"] = "x y z"
    if cases or rng.random() < 0.5:
        spec["testCases"] = cases
    if rng.random() < 0.5:
        spec["inputs"] = {"a": 1}
    return kind, spec, named


async def watch_case(rng):
    kind, spec, named = watch_spec(rng)
    prep = {**PREPARERS, "FunctionTest": prepare_function_test}[kind]
    try:
        res = await prep(f"def-{next(_n)}", copy.deepcopy(spec))
    except Exception as err:  # noqa: BLE001
        return {"k": "watch", "named": sorted(named), "watched": [], "error": type(err).__name__}, (kind, spec)
    if not isinstance(res, tuple):
        # nothing was prepared, so there is nothing to prepare again
        return None, (kind, spec)
    return {"k": "watch", "named": sorted(named),
            "watched": sorted(f"{r.resource_type.__name__}:{r.name}" for r in res[1] or ())}, (kind, spec)


# --- part 3: prepared again


class Reload:
    def __init__(self, rng):
        self.rng, self.tag = rng, next(_n)
        self.kind = rng.choice(["Workflow", "Workflow", "ResourceFunction", "FunctionTest"])
        count = 1 if self.kind == "FunctionTest" else rng.choice([1, 2, 2, 3])
        self.named = [f"n{k}" for k in range(count)]
        self.sub = {n: self.kind == "Workflow" and rng.random() < 0.25 for n in self.named}
        self.rf = {n: self.kind == "Workflow" and not self.sub[n] and rng.random() < 0.3 for n in self.named}

    def key(self, n):
        return f"{n}-{self.tag}"

    def ref(self, n):
        return {"kind": "Workflow" if self.sub[n] else "ResourceFunction" if self.rf[n] else "ValueFunction",
                "name": self.key(n)}

    def spec(self):
        rng = self.rng
        if self.kind == "Workflow":
            names = list(self.named)
            steps = []
            while names:
                k = rng.choice([1, 1, 2, 3])
                some, names = names[:k], names[k:]
                st = {"label": f"step_{len(steps)}"}
                if len(some) == 1 and rng.random() < 0.6:
                    st["ref"] = self.ref(some[0])
                    st["state"] = {some[0]: self.reading(some[0])}
                    steps.append(st)
                    continue
                # every case is exercised, by a step each
                for n in some:
                    cases = [{"case": m, **self.ref(m)} for m in some]
                    steps.append({"label": f"step_{len(steps)}", "refSwitch": {"switchOn": f"='{n}'", "cases": cases},
                                  "state": {n: self.reading(n)}})
            return {"steps": steps}
        if self.kind == "ResourceFunction":
            return {"apiConfig": {"apiVersion": VERSION, "kind": f"Rl{self.tag}", "plural": f"rl{self.tag}", "name": "x",
                                  "namespace": "ns1"}, "resource": {},
                    "overlays": [{"overlayRef": self.ref(n)} for n in self.named]}
        return {"functionRef": self.ref(self.named[0]),
                "testCases": [{"variant": True, "expectReturn": {self.named[0]: v}} for v in range(1, 10)]}

    def reading(self, n):
        return f"=value.{n}"

    async def apply(self, ev):
        n = ev[1]
        cls = KINDS[self.ref(n)["kind"]]
        if ev[0] == "delete":
            await cache.delete_resource_from_cache(cls, {"name": self.key(n), "resourceVersion": f"d{next(_n)}"})
            return
        good = ev[0] == "offer"
        if self.sub[n]:
            inner = f"in-{next(_n)}"
            await offer_ok(ValueFunction, prepare_value_function, inner, {"return": {n: ev[2] if good else 0}})
            spec = {"steps": [{"label": "inner", "ref": {"kind": "ValueFunction", "name": inner},
                               "state": {n: f"=value.{n}"}}]}
            if not good:
                spec = {"steps": 5}
        elif self.rf[n]:
            spec = copy.deepcopy(PROBE)
            spec["apiConfig"].pop("readonly")
            spec["apiConfig"]["name"] = self.key(n)
            spec["return"] = {n: ev[2] if good else "=1 +"}
        else:
            spec = {"return": {n: ev[2] if good else "=1 +"}}
        await offer(cls, PREPARERS[self.ref(n)["kind"]], self.key(n), spec)

    async def observe(self):
        """(ready, {resource: version used})"""
        cls = {**KINDS, "FunctionTest": FunctionTest}[self.kind]
        d = cache.get_resource_from_cache(cls, self.key("def"))
        if not isinstance(d, cls):
            return False, {}
        if self.kind == "FunctionTest":
            res = await run_function_test("t", d)
            passed = [k + 1 for k, r in enumerate(res.test_results) if r.test_pass]
            if not is_unwrapped_ok(res.function_healthy):
                return False, {}
            return True, {self.named[0]: passed[0] if len(passed) == 1 else -1}
        cluster = Cluster()
        if self.kind == "ResourceFunction":
            res = await reconcile_resource_function(api=cluster.api(), location="t", function=d,
                                                    owner=copy.deepcopy(OWNER), inputs=celtypes.MapType())
            sent = [r["body"] for r in cluster.log if r["verb"] == "create"]
            if not sent:
                return False, {}
            return True, {n: sent[0].get(n, -1) for n in self.named}
        for n in self.named:
            if self.rf[n]:
                cluster.put(VERSION, "probes", "ns1", self.key(n), {
                    "apiVersion": VERSION, "kind": "Probe", "metadata": {"name": self.key(n), "namespace": "ns1"}})
        res = await reconcile_workflow(api=cluster.api(), workflow_key="w", owner=copy.deepcopy(OWNER),
                                       trigger=celpy.json_to_cel({"metadata": {}}), workflow=d)
        state = res.state if isinstance(res.state, dict) else {}
        if not is_unwrapped_ok(res.result) and not state:
            return False, {}
        return is_unwrapped_ok(res.result), {n: int(state[n]) if isinstance(state.get(n), int) else -1 for n in self.named}

    async def run(self):
        rng = self.rng
        hist, version = [], itertools.count(1)
        spec = self.spec()
        cls = {**KINDS, "FunctionTest": FunctionTest}[self.kind]
        prep = {**PREPARERS, "FunctionTest": prepare_function_test}[self.kind]
        start = [["offer", n, next(version)] for n in self.named if rng.random() < 0.5]
        events = [rng.choice([["offer", n, 0], ["offer", n, 0], ["break", n, 0], ["delete", n, 0]])
                  for n in (rng.choice(self.named) for _ in range(rng.choice([2, 4, 6])))]
        for ev in start:
            await self.apply(ev)
            hist.append({"ev": ev})
        await offer(cls, prep, self.key("def"), spec)
        await asyncio.sleep(30)
        ready, at = await self.observe()
        out = []
        # before the definition exists there is nothing to observe
        for h in hist:
            out.append({**h, "skip": True})
        if out:
            out[-1] = {**hist[-1], "ready": ready, "at": at}
        for ev in events:
            if ev[0] == "offer":
                ev[2] = next(version)
                if ev[2] > 9:
                    break
            await self.apply(ev)
            await asyncio.sleep(30)
            ready, at = await self.observe()
            out.append({"ev": ev, "ready": ready, "at": at})
        for h in out:
            h.setdefault("skip", False)
            h.setdefault("ready", False)
            h.setdefault("at", {})
        await cache.delete_resource_from_cache(cls, {"name": self.key("def"), "resourceVersion": "zz"})
        return {"k": "reload", "named": self.named, "hist": out}, (self.kind, spec)


async def setup():
    await offer_ok(ResourceFunction, prepare_resource_function, "probe", PROBE)
    await offer_ok(ValueFunction, prepare_value_function, "vf-ok", {"return": {"a": 1}})
    await offer_ok(Workflow, prepare_workflow, "wf-ok", {"steps": [
        {"label": "one", "ref": {"kind": "ValueFunction", "name": "vf-ok"}}]})
    await offer(ValueFunction, prepare_value_function, "vf-bad", {"return": {"a": "=1 +"}})
    await offer(ResourceFunction, prepare_resource_function, "rf-bad", {"apiConfig": {}})
    await offer(Workflow, prepare_workflow, "wf-bad", {"steps": 5})


def literal_root(e):
    if not isinstance(e, list):
        return False
    if e and e[0] in ("dot", "idx", "mcall", "macro"):
        b = e[1]
        while b[0] == "par":
            b = b[1]
        if b[0] == "str":
            return True
    return any(literal_root(k) for k in e)


def corrupt(rng, cases):
    out = []
    for c in copy.deepcopy(rng.sample(cases, len(cases))):
        if c["k"] == "deps":
            if any(literal_root(s["exprs"]) for s in c["steps"]):
                continue
            if c["ready"]:
                some = [s for s in c["steps"] if s["step"] and s["deps"]]
                if not some:
                    continue
                r = rng.randrange(3)
                s = rng.choice(some)
                if r == 0:
                    gone = rng.choice(s["deps"])
                    s["deps"].remove(gone)
                elif r == 1:
                    c["ready"] = False
                else:
                    # the definition named it first
                    k = c["steps"].index(s)
                    c["steps"].insert(0, c["steps"].pop(k))
                    if k == 0:
                        continue
            else:
                c["ready" if rng.random() < 0.5 else "ran"] = True
        elif c["k"] == "watch":
            if not c["named"]:
                continue
            c["watched"].remove(rng.choice(c["named"]))
        else:
            hs = [h for h in c["hist"] if not h["skip"]]
            if not hs:
                continue
            h = rng.choice(hs)
            if h["ready"] and rng.random() < 0.5:
                n = rng.choice(sorted(h["at"]))
                h["at"][n] = h["at"][n] % 9 + 1
            else:
                h["ready"] = not h["ready"]
        out.append(c)
    return out


def run(ctx):
    rng = ctx.rng
    res = ctx.model_check("StaticRefs", MODEL % (2, "all", "ACTION_CONSTRAINT Emit"), min_states=10000)
    trees = res.prints("T")
    if not ctx.quick:
        ctx.model_check("StaticRefs", MODEL % (3, "all", ""), min_states=100000, workers=8, timeout=3000, heap="8g")
    for walk in BROKEN:
        if not ctx.tlc("StaticRefs", MODEL % (2, walk, ""), allow_violation=True).violated:
            raise RuntimeError(f"the model does not tell {walk} apart")
    ctx.coverage["broken_analyses_rejected_by_the_model"] = BROKEN
    cases, specs = [], []

    def keep(pair):
        if pair[0] is not None:
            cases.append(pair[0])
            specs.append(pair[1])

    async def everything():
        await setup()
        some = [t for t in trees]
        rng.shuffle(some)
        some = some[: ctx.pick(4200, len(some))]
        for k in range(0, len(some), 17):
            keep(await deps_case(rng, model_plan(rng, some[k : k + 17])))
        ctx.log(f"{len(some)} expressions of the model prepared")
        for _ in range(ctx.pick(350, 6000)):
            n = rng.choice([1, 2, 3, 4, 6, 10, 20])
            keep(await deps_case(rng, random_workflow(rng, n, rng.random() < 0.5)))
        for _ in range(ctx.pick(700, 10000)):
            keep(await watch_case(rng))
        ctx.log("definitions prepared")

    with guard(ctx.pick(600, 3000)):
        vloop.run(everything())
        for _ in range(ctx.pick(120, 2500)):
            keep(vloop.run(Reload(rng).run())[0])
    kinds = {}
    for c in cases:
        kinds[c["k"]] = kinds.get(c["k"], 0) + 1
    ctx.coverage["cases"] = kinds
    ctx.coverage["misnamed_workflows"] = sum(c["k"] == "deps" and not c["ready"] for c in cases)
    ctx.coverage["reload_events"] = sum(len(c["hist"]) for c in cases if c["k"] == "reload")
    ctx.samples.append(specs[-1])
    ctx.samples.append(specs[len(specs) // 3])
    ctx.check_cases("StaticRefsTrace", cases, label="preparations", shards=8, replay_info=lambda i: specs[i])
    if not ctx.violations:
        ctx.self_check("StaticRefsTrace", corrupt(rng, cases)[: ctx.pick(400, 4000)], min_n=100)
