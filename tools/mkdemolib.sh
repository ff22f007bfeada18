#!/bin/bash
# demolib.py: the part of the harness the demonstrations need, in one file
cd "$(dirname "$0")/../harness" || exit 1
{
cat <<'P'
"""Shared by the demonstrations: an in-memory API server, a virtual-time loop."""
import logging, os, re, sys
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
P
echo import copy
sed -n '/^if not hasattr(copy/,/^ *)$/p' env.py
sed -n '/^def merge_patch/,$p' cluster.py > /tmp/.cl
sed -n '1,/^def merge_patch/p' cluster.py | grep '^import\|^from'
cat /tmp/.cl
grep '^import' vloop.py; sed -n '/^class _Selector/,$p' vloop.py
cat <<'P'


# Under Python 3.12 koreo.cache's private globals are mangled after its generic
# class: make both names the same, as they are under 3.13.
import koreo.cache as _cache
for _name, _value in list(vars(_cache).items()):
    _m = re.fullmatch(r"_([A-Za-z0-9]\w*?)(__[A-Za-z]\w*)", _name)
    if _m and not _name.endswith("__") and _m.group(2) not in vars(_cache):
        setattr(_cache, _m.group(2), _value)

import celpy
from koreo import cache, registry, result
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.workflow.structure import Workflow

OWNER = ("ns1", {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
                 "blockOwnerDeletion": True, "controller": False})
PREPARERS = {ValueFunction: prepare_value_function, ResourceFunction: prepare_resource_function,
             ResourceTemplate: prepare_resource_template, Workflow: prepare_workflow,
             FunctionTest: prepare_function_test}
API = {"apiVersion": "apps.example.io/v1", "kind": "Thing", "plural": "things", "name": "thing", "namespace": "ns1"}
_count = [0]


async def offer(cls, name, spec):
    _count[0] += 1
    return await cache.prepare_and_cache(cls, PREPARERS[cls], {"name": name, "resourceVersion": f"v{_count[0]}"}, spec)


async def value(spec, inputs=None, name="vf"):
    fn = await offer(ValueFunction, name, spec)
    assert isinstance(fn, ValueFunction), fn
    return await reconcile_value_function("demo", fn, celpy.json_to_cel(inputs or {}))


async def resource(cluster, spec, inputs=None, name="rf", owner=OWNER):
    fn = await offer(ResourceFunction, name, spec)
    assert isinstance(fn, ResourceFunction), fn
    return (await reconcile_resource_function(cluster.api(), "demo", fn, owner, celpy.json_to_cel(inputs or {}))).outcome


async def reconcile(cluster, fn, inputs=None, owner=OWNER):
    out = await reconcile_resource_function(cluster.api(), "demo", fn, owner, celpy.json_to_cel(inputs or {}))
    return out.outcome


async def workflow(cluster, spec, trigger=None, name="wf"):
    wf = await offer(Workflow, name, spec)
    assert isinstance(wf, Workflow), wf
    return await reconcile_workflow(cluster.api(), name, OWNER, celpy.json_to_cel(trigger or {}), wf)


def thing(spec, **metadata):
    return {"apiVersion": API["apiVersion"], "kind": "Thing",
            "metadata": {"name": "thing", "namespace": "ns1", "uid": "u", "ownerReferences": [OWNER[1]], **metadata},
            "spec": spec}


def verbs(cluster):
    return [r["verb"] for r in cluster.log]
P
} > ../tools/demolib.py
