"""Builds real Workflows from the abstract ones of WorkflowSem.tla, runs them
against the in-memory cluster and records what WorkflowTrace judges."""

import asyncio
import copy
import itertools
import json
import re

import env  # noqa: F401
import celpy
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.result import is_unwrapped_ok
from koreo import result as kresult
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.workflow.structure import Workflow

import vloop
from badexpr import bad
from cluster import Cluster
from rfharness import NONE, NotPrepared, offer, offer_ok, project_outcome
from values import enc

VERSION = "apps.example.io/v1"
OWNER = (
    "ns1",
    {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
     "blockOwnerDeletion": True, "controller": False},
)
_wf = itertools.count(1)

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")


# --- terms -> Koreo expressions


def quote(s):
    return "'" + s + "'" if '"' in s else '"' + s + '"'


def access(rng, root, path):
    out = root
    for k in path:
        if IDENT.match(k) and rng.random() < 0.6:
            out = f"{out}.{k}"
        else:
            out = f"{out}[{rng.choice([chr(39), chr(34)]).join(['', k, ''])}]"
        if rng.random() < 0.08:
            out = f"({out})"
    return out


def cel(term, rng):
    k = term[0]
    if k == "lit":
        return cel_literal(term[1])
    if k in ("parent", "inputs", "value"):
        return access(rng, k, term[1])
    if k == "step":
        return access(rng, "steps", [term[1], *term[2]])
    if k == "list":
        return "[" + ", ".join(cel(t, rng) for t in term[1]) + "]"
    if k == "map":
        return "{" + quote(term[1]) + ": " + cel(term[2], rng) + "}"
    if k == "if":
        return f"({cel(term[1], rng)} ? {cel(term[2], rng)} : {cel(term[3], rng)})"
    if k == "err":
        return rng.choice(["1 / 0", "parent.no_such_field_xyz", "[1][7]", "{'a': 1}.b", "int('x')",
                           *(f"({bad(rng)})" for _ in range(5))])
    raise AssertionError(term)


def cel_literal(v):
    tag = v[0]
    if tag == "z":
        return "null"
    if tag == "b":
        return "true" if v[1] else "false"
    if tag == "n":
        return v[1]
    if tag == "s":
        return quote(v[1])
    if tag == "l":
        return "[" + ", ".join(cel_literal(x) for x in v[1]) + "]"
    if tag == "m":
        return "{" + ", ".join(f"{quote(k)}: {cel_literal(x)}" for k, x in v[1].items()) + "}"
    raise AssertionError(v)


def literal(v):
    tag = v[0]
    if tag == "z":
        return None
    if tag == "n":
        return int(v[1]) if re.match(r"-?\d+\Z", v[1]) else float(v[1])
    if tag == "l":
        return [literal(x) for x in v[1]]
    if tag == "m":
        return {k: literal(x) for k, x in v[1].items()}
    return v[1]


def numeral(v):
    """Written as it is, a numeral in quotes is a number (C11 judges that)."""
    if v[0] == "s":
        return re.fullmatch(r"[-+.eE0-9]+", v[1]) is not None
    return v[0] == "l" and any(map(numeral, v[1])) or v[0] == "m" and any(map(numeral, v[1].values()))


def field(term, rng):
    """The term as a definition field: literal where possible."""
    if term[0] == "lit" and rng.random() < 0.7 and not numeral(term[1]):
        v = literal(term[1])
        if v is not None and v != "":
            return v
    if term[0] == "list" and rng.random() < 0.4:
        return [field(t, rng) for t in term[1]]
    if term[0] == "map" and rng.random() < 0.4:
        return {term[1]: field(term[2], rng)}
    return "=" + cel(term, rng)


# --- the Logic pool

MODES = (
    ("skip", "skip", {}),
    ("depskip", "depSkip", {}),
    ("retry", "retry", {"delay": True}),
    ("perm", "permFail", {}),
)


def preconditions(lg):
    if not lg["mode"]:
        return []
    p = "inputs." + ".".join(lg["mode"])
    out = []
    for mode, kind, extra in MODES:
        body = {"message": f"m-{lg['name']}"}
        if extra:
            body["delay"] = lg["delay"]
        out.append({"assert": f'={p} != "{mode}"', kind: body})
    return out


def fails_on_err(lg):
    """A local which cannot be evaluated when the mode is "err"."""
    p = "inputs." + ".".join(lg["mode"])
    return {"chk": f'=[0, 1][{p} == "err" ? 5 : 1]'}


def kind_of(lg):
    return "K" + lg["name"].replace("-", "")


def plural_of(lg):
    return kind_of(lg).lower() + "s"


async def prepare_logic(lg, dynamic_plural=False, readonly_plain=True):
    kind = lg.get("ret", "echo")
    ret = {"fn": lg["name"], "in": "=inputs"} if kind == "echo" else {}
    spec = {}
    if lg["mode"]:
        spec["preconditions"] = preconditions(lg)
        spec["locals"] = fails_on_err(lg)
    if lg["k"] == "vf":
        if kind != "none":
            spec["return"] = ret
        elif not spec:
            spec["preconditions"] = [{"assert": "=true", "skip": {"message": "never"}}]
        return await offer_ok(ValueFunction, prepare_value_function, lg["name"], spec)
    obj = "=inputs." + ".".join(lg["obj"])
    spec["apiConfig"] = {
        "apiVersion": VERSION,
        "kind": kind_of(lg),
        "name": obj,
        "namespace": "ns1",
    }
    if not dynamic_plural:
        spec["apiConfig"]["plural"] = plural_of(lg)
    if lg["k"] == "rf":
        spec["apiConfig"]["readonly"] = True
        spec["apiConfig"]["owned"] = False
        spec["resource"] = {"spec": {}}
        if kind == "echo":
            spec["return"] = {**ret, "res": "=resource.spec.val"}
    else:
        spec["resource"] = {"spec": {"val": obj, "note": "made"}}
        if lg["k"] == "rec":
            spec["update"] = {"recreate": {}}
        if lg["k"] == "del":
            spec["apiConfig"]["deleteIfExists"] = True
            if kind == "echo":
                spec["return"] = ret
        elif kind == "echo":
            spec["return"] = {**ret, "res": "=resource.spec.val"}
    return await offer_ok(ResourceFunction, prepare_resource_function, lg["name"], spec)


def logics(steps):
    """Every leaf logic of a workflow, with its top-level step label."""
    def walk(lg, label):
        if lg["k"] == "wf":
            for st in lg["steps"]:
                yield from walk(st["logic"], label)
        elif lg["k"] == "switch":
            for c in lg["cases"]:
                yield from walk(c["logic"], label)
        else:
            yield label, lg

    for st in steps:
        yield from walk(st["logic"], st["label"])


# --- workflows

KINDS = {"vf": "ValueFunction", "wf": "Workflow"}


async def reference(lg, rng):
    kind = KINDS.get(lg["k"], "ResourceFunction")
    name = lg.get("name")
    if lg["k"] == "wf":
        name = f"sub-{next(_wf)}"
        await prepare_steps(name, lg["steps"], rng)
    return {"kind": kind, "name": name}


async def step_spec(st, rng):
    lg = st["logic"]
    spec = {"label": st["label"]}
    if lg["k"] == "switch":
        cases = []
        for c in lg["cases"]:
            e = {"case": c["case"][1], **(await reference(c["logic"], rng))}
            if c["dflt"]:
                e["default"] = True
            elif rng.random() < 0.3:
                e["default"] = False
            cases.append(e)
        spec["refSwitch"] = {"switchOn": "=" + cel(lg["on"], rng), "cases": cases}
    else:
        spec["ref"] = await reference(lg, rng)
    if st["skipIf"][0] != "no":
        spec["skipIf"] = "=" + cel(st["skipIf"], rng)
    if st["each"][0] == "yes":
        spec["forEach"] = {"itemIn": "=" + cel(st["each"][1], rng), "inputKey": st["each"][2]}
    if st["inputs"]:
        spec["inputs"] = {k: field(t, rng) for k, t in st["inputs"]}
    if st["cond"]:
        spec["condition"] = {"type": st["cond"], "name": f"step {st['label']}"}
    if st["state"]:
        spec["state"] = {k: field(t, rng) for k, t in st["state"]}
    return spec


async def prepare_steps(name, steps, rng):
    spec = {"steps": [await step_spec(st, rng) for st in steps]}
    wf = await offer_ok(Workflow, prepare_workflow, name, spec)
    return wf, spec


class Built:
    def __init__(self, name, workflow, spec, case, owner_of):
        self.name, self.workflow, self.spec = name, workflow, spec
        self.case, self.owner_of = case, owner_of


def build(case, rng):
    """case: {steps, trigger (tagged), world: {name: state}}"""

    async def go():
        name = f"wf-{next(_wf)}"
        wf, spec = await prepare_steps(name, case["steps"], rng)
        return name, wf, spec

    (name, wf, spec), _ = vloop.run(go())
    return Built(name, wf, spec, case, owners(case))


def owners(case):
    """plural -> label, for the functions only one step uses."""
    owner_of = {}
    for label, lg in logics(case["steps"]):
        if lg["k"] != "vf":
            owner_of.setdefault(plural_of(lg), set()).add(label)
    return {k: next(iter(v)) for k, v in owner_of.items() if len(v) == 1}


OBJ = re.compile(r"[oab](\d)\Z")


def owner_label(built, req):
    m = OBJ.match(req["name"])
    if m:  # the design model's objects are named after their step
        return f"step{m.group(1)}"
    if req["verb"] == "lookup":
        return built.owner_of.get(req["name"].split(".")[0].lower() + "s", "")
    return built.owner_of.get(req["plural"], "")


def populate(cluster, case, owners):
    """Objects named by `world` exist for whichever function asks."""
    for _, lg in logics(case["steps"]):
        if lg["k"] == "vf":
            continue
        for name, state in case["world"].items():
            val = f"old-{name}" if state == "stale" else name
            spec = {"val": val, "note": "made"}
            obj = {
                "apiVersion": VERSION, "kind": kind_of(lg),
                "metadata": {
                    "name": name, "namespace": "ns1", "uid": f"uid-{name}", "resourceVersion": "1",
                    "ownerReferences": [copy.deepcopy(OWNER[1])],
                },
                "spec": spec,
            }
            cluster.put(VERSION, plural_of(lg), "ns1", name, obj)


TOKEN = re.compile(r"m-[a-z]+-?[0-9]+(?:-[a-z0-9]+)*")


def project_over(outcome):
    p = project_outcome(outcome)
    ms = []
    if p["c"] not in ("Ok",):
        ms = sorted(set(TOKEN.findall(str(outcome.message or ""))))
        p["v"] = NONE
    return {"c": p["c"], "d": p["d"], "ms": ms, "v": p["v"]}


WORD = re.compile(r"[A-Za-z][A-Za-z0-9_]*")
MARKS = ("CELEvalError", "celpy", "<class ", "no such member", "divide by zero", "KeyError")


def leaks(x):
    """An error object, or the text of one, where data belongs."""
    if isinstance(x, dict):
        return any(leaks(k) or leaks(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(leaks(v) for v in x)
    if isinstance(x, Exception):
        return True
    return any(m in str(x) for m in MARKS)


def canon(x):
    return json.dumps(x, sort_keys=True, default=str)


def run_once(built, cluster, limit=60.0, trigger=None):
    """One reconcile pass in a virtual-time loop."""
    api = cluster.api()
    mark = len(cluster.log)
    cluster.events = []
    trig = celpy.json_to_cel(literal(built.case["trigger"]))
    rec = {"raised": False, "over": {"c": "", "d": 0, "ms": [], "v": NONE}, "conds": [],
           "state": ["m", {}], "bad": [], "leak": False, "said": [], "calls": [], "ms": 0, "times": [],
           "full": {k: "" for k in ("outcome", "conditions", "state", "ids", "contents")}}
    start = {}

    async def go():
        loop = asyncio.get_running_loop()
        start["t"] = loop.time()
        try:
            res = await reconcile_workflow(
                api=api, workflow_key=built.name, owner=copy.deepcopy(OWNER),
                trigger=trig, workflow=built.workflow,
            )
            return res, loop.time() - start["t"]
        except BaseException as err:  # noqa: BLE001 - that is the observation
            return err, loop.time() - start["t"]

    res, _ = vloop.run(go(), limit=limit)
    res, elapsed = res
    rec["ms"] = int(round(elapsed * 1000))
    rec["reqs"] = cluster.log[mark:]
    rec["times"] = [{"e": e, "l": owner_label(built, r)} for e, r in cluster.events]
    rec["calls"] = sorted({f"{r['verb']}:{r['name']}" for r in rec["reqs"]})
    if isinstance(res, BaseException):
        rec["raised"] = True
        rec["error"] = f"{type(res).__name__}: {res}"[:300]
        return rec
    rec["over"] = project_over(res.result)
    rec["conds"] = [{"t": c.get("type"), "r": c.get("reason")} for c in res.conditions]
    rec["state"] = enc(res.state)
    rec["bad"] = sorted(res.state_errors)
    over = res.result
    sent = [q["body"] for q in rec["reqs"] if q["body"] is not None]
    rec["leak"] = leaks([res.state, sent, over.data if isinstance(over, kresult.Ok) else
                         over if is_unwrapped_ok(over) else None])
    text = "" if is_unwrapped_ok(over) else f"{over.message} {over.location}"
    rec["said"] = sorted(set(WORD.findall(text)))
    rec["full"] = {
        "outcome": canon([rec["over"]["c"], enc(over) if is_unwrapped_ok(over)
                          else [str(over.message), str(over.location), getattr(over, "delay", None)]]),
        "conditions": canon([dict(c) if isinstance(c, dict) else c for c in res.conditions]),
        "state": canon([rec["state"], res.state_errors]),
        "ids": canon(res.resource_ids),
        "contents": canon(cluster.contents()),
    }
    return rec


def slim(rec):
    return {k: v for k, v in rec.items() if k not in ("reqs", "ms")}
