"""Drives real FunctionTests and records what FTestTrace.tla judges."""

import contextlib
import copy
import itertools
import json
import re

import env  # noqa: F401
import celpy
from koreo import cache, result
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.run import run_function_test
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction

from cluster import Cluster
from rfharness import ANNOTATION, NONE, deep_merge, offer, offer_ok, strip, without_annotation
from values import enc, plain, text

VERSION = "apps.example.io/v1"
CLASSES = {result.DepSkip: "DepSkip", result.Skip: "Skip", result.Retry: "Retry", result.PermFail: "PermFail"}
OWNER = ("elsewhere", {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
                       "blockOwnerDeletion": True, "controller": False})
_n = itertools.count(1)


def fresh():
    return next(_n)


def outcome(o):
    """class, message, delay and value of an outcome"""
    for cls, name in CLASSES.items():
        if isinstance(o, cls):
            m = text(re.sub(r"testCases\[\d+\]", "testCases[#]", o.message or ""))
            return {"c": name, "m": m, "lm": m.lower(), "d": getattr(o, "delay", 0) or 0, "v": NONE}
    return {"c": "Ok", "m": "", "lm": "", "d": 0, "v": enc(o)}


def results(run):
    return [{"pass": bool(r.test_pass), **(outcome(r.outcome))} for r in run.test_results]


async def run_test(ft, location="t"):
    """{raised, results} of a run"""
    try:
        run = await run_function_test(location, ft)
    except Exception as err:  # noqa: BLE001
        return {"raised": True, "error": f"{type(err).__name__}: {err}"[:200], "results": []}
    return {"raised": False, "results": results(run)}


# --- assertions

AS0 = {"v": NONE, "c": "", "m": "", "lm": "", "d": 0}


def claim_return(v):
    return {"expectReturn": v}, {**AS0, "k": "return", "v": enc(v)}


def claim_resource(v):
    return {"expectResource": v}, {**AS0, "k": "resource", "v": enc(v)}


def claim_delete(v):
    return {"expectDelete": v}, {**AS0, "k": "delete", "v": enc(v)}


KEYS = {"Ok": "ok", "Skip": "skip", "DepSkip": "depSkip", "Retry": "retry", "PermFail": "permFail"}


def claim_outcome(c, m="", d=0):
    body = {} if c == "Ok" else {"message": m}
    if c == "Retry":
        body["delay"] = d
    return {"expectOutcome": {KEYS[c]: body}}, {**AS0, "k": "outcome", "c": c, "m": text(m), "lm": text(m.lower()), "d": d}


# --- the Functions the specification knows


def ident(kind="Thing"):
    return {"apiVersion": VERSION, "kind": kind, "metadata": {"name": "thing", "namespace": "ns1"}}


PRE = [{"assert": f"=inputs.mode != '{m}'", **body} for m, body in [
    ("skip", {"skip": {"message": "mode says skip"}}),
    ("dep", {"depSkip": {"message": "mode says wait"}}),
    ("retry", {"retry": {"message": "mode says retry", "delay": 7}}),
    ("perm", {"permFail": {"message": "mode says stop"}}),
]]


async def known_function(f, omit_plural=False, owned=True):
    """The definition of a Function of FTestSem.tla; returns its name."""
    n = fresh()
    name = f"known-{n}"
    static = f["static"]
    # locals may be named like inputs, and stay apart from them
    own = {"locals": {"v": 77, "mode": "mine", "list": "=[inputs.mode]", "here": "=inputs"}} if n % 3 == 0 else {}
    if f["kind"] == "vf":
        await offer_ok(ValueFunction, prepare_value_function, name,
                       {"preconditions": PRE, **own, "return": {**static, "seen": "=inputs"}})
        return name
    api = {"apiVersion": VERSION, "kind": f["ident"]["kind"], "name": "thing", "namespace": "ns1", "owned": owned}
    if not omit_plural:
        api["plural"] = f["ident"]["kind"].lower() + "s"
    if f["ro"]:
        api["readonly"] = True
    if f["del"]:
        api["deleteIfExists"] = True
    spec = {
        "preconditions": PRE,
        **own,
        "apiConfig": api,
        "resource": {"spec": {**static, "seen": "=inputs"}},
        "create": {"enabled": f["create"], **({"delay": f["cd"]} if f["create"] else {})},
        "return": {"seen": "=inputs", "spec": "=has(resource.spec) ? resource.spec : 'no spec'",
                   "status": "=has(resource.status) ? resource.status : 'no status'"},
    }
    if f["update"] == "never":
        spec["update"] = {"never": {}}
    else:
        spec["update"] = {f["update"]: {"delay": f["ud"]}}
    if f["post"]:
        spec["postconditions"] = [{"assert": "=has(resource.status) && has(resource.status.ready) && resource.status.ready",
                                   "retry": {"message": "Not ready yet", "delay": 5}}]
    await offer_ok(ResourceFunction, prepare_resource_function, name, spec)
    return name


async def offer_test(kind, fn_name, base_inputs, resource, case_specs):
    spec = {"functionRef": {"kind": kind, "name": fn_name}, "testCases": case_specs}
    if base_inputs:
        spec["inputs"] = base_inputs
    if resource is not None:
        spec["currentResource"] = resource
    return await offer(FunctionTest, prepare_function_test, f"ft-{fresh()}", spec)


# --- the Function's real behaviour, away from the runner


async def behave(fn, inputs, resource, plural, kind=None):
    """{b, body, live} of FTestTrace, from a direct evaluation."""
    cel = celpy.json_to_cel(copy.deepcopy(inputs))
    if isinstance(fn, ValueFunction):
        base = celpy.json_to_cel(copy.deepcopy(resource or {}))
        out = await reconcile_value_function("t", fn, cel, base)
        return {"b": {**outcome(out), "sent": NONE, "deleted": False}, "body": NONE, "live": NONE}, out, None
    cluster = Cluster()
    if kind:
        cluster.lookup[kind] = plural
    if resource:
        cluster.put(VERSION, plural, "ns1", "thing", copy.deepcopy(resource))
    out = (await reconcile_resource_function(cluster.api(), "t", fn, OWNER, cel)).outcome
    writes = [r for r in cluster.log if r["verb"] in ("create", "patch")]
    deleted = any(r["verb"] == "delete" for r in cluster.log)
    body = strip_annotation(writes[0]["body"]) if writes else None
    b = {**outcome(out), "sent": NONE, "deleted": deleted}
    return ({"b": b, "body": NONE if body is None else enc(body),
             "live": enc(resource) if resource and writes and writes[0]["verb"] == "patch" else NONE}, out, body)


def strip_annotation(body):
    body, _ = without_annotation(body)
    return body
