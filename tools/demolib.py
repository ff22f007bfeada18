"""Shared by the demonstrations: an in-memory API server, a virtual-time loop."""
import logging, os, re, sys
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import copy
if not hasattr(copy, "replace"):
    copy.replace = lambda obj, /, **changes: (
        obj._replace(**changes) if hasattr(obj, "_replace") else obj.__replace__(**changes)
    )
import asyncio
import contextlib
import copy
import json
import httpx
import kr8s
from kr8s._api import Api as BaseApi
def merge_patch(target, patch):
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    out = copy.deepcopy(target) if isinstance(target, dict) else {}
    for k, v in patch.items():
        if v is None:
            out.pop(k, None)
        else:
            out[k] = merge_patch(out.get(k), v)
    return out


class Response:
    def __init__(self, data, status_code=200):
        self._data = data
        self.status_code = status_code

    def json(self):
        return copy.deepcopy(self._data)


def server_error(code, message="boom"):
    response = httpx.Response(code, request=httpx.Request("GET", "http://api"))
    status = {"message": message, "code": code} if code < 500 else str(code)
    return kr8s.ServerError(message, status=status, response=response)


class Cluster:
    def __init__(self, default_namespace="default-ns"):
        self.objects: dict[tuple, dict] = {}
        self.log: list[dict] = []
        self.counter = 100
        self.default_namespace = default_namespace
        self.decorate = None  # fn(obj) -> None, applied to stored objects
        self.gate = None  # async fn(request) -> None, awaited before serving
        self.fault = None  # fn(request) -> None | exception | "hang" | ("after", exc)
        self.lookup = {}  # kind -> plural
        self.lookups: list[str] = []
        self.inflight = 0
        self.events: list[tuple] = []

    # -- storage
    @staticmethod
    def key(version, plural, namespace, name):
        return (version, plural, namespace or None, name)

    def get(self, version, plural, namespace, name):
        return self.objects.get(self.key(version, plural, namespace, name))

    def put(self, version, plural, namespace, name, obj):
        self.objects[self.key(version, plural, namespace, name)] = obj

    def contents(self):
        """Cluster contents without server bookkeeping."""
        out = {}
        for k, o in self.objects.items():
            o = copy.deepcopy(o)
            for field in ("uid", "resourceVersion", "generation", "creationTimestamp"):
                o.get("metadata", {}).pop(field, None)
            out["|".join(str(x) for x in k)] = o
        return out

    def stamp(self, obj, created):
        meta = obj.get("metadata")
        if not isinstance(meta, dict):
            meta = obj["metadata"] = {}
        self.counter += 1
        if created:
            meta["uid"] = f"uid-{self.counter}"
            meta["creationTimestamp"] = "2024-01-01T00:00:00Z"
        meta["resourceVersion"] = f"{self.counter}"
        if self.decorate:
            self.decorate(obj)

    # -- requests
    async def request(self, method, version, namespace, url, params, data):
        parts = url.split("/", 1)
        plural, name = parts[0], (parts[1] if len(parts) > 1 else None)
        body = json.loads(data) if data else None
        if method == "GET" and name is None:
            for part in (params or {}).get("fieldSelector", "").split(","):
                if part.startswith("metadata.name="):
                    name = part.removeprefix("metadata.name=")
        if method == "POST":
            name = (body.get("metadata") or {}).get("name")
        req = {
            "n": len(self.log),
            "verb": {"GET": "get", "POST": "create", "PATCH": "patch", "DELETE": "delete"}[method],
            "version": version,
            "plural": plural,
            "ns": namespace or "",
            "name": name if name is not None else "",
            "body": body,
            "before": copy.deepcopy(self.get(version, plural, namespace, name)),
            "applied": False,
        }
        self.log.append(req)
        self.inflight += 1
        self.events.append(("start", req))
        try:
            if self.gate:
                await self.gate(req)
            after = None
            if self.fault:
                fault = self.fault(req)
                if fault == "hang":
                    await asyncio.get_running_loop().create_future()
                elif isinstance(fault, tuple):
                    after = fault[1]
                elif isinstance(fault, BaseException):
                    req["fault"] = type(fault).__name__
                    raise fault
            resp = self.serve(req, method, version, namespace, plural, name, body)
            if after == "hang":
                await asyncio.get_running_loop().create_future()
            elif after is not None:
                raise after
            return resp
        finally:
            self.inflight -= 1
            self.events.append(("end", req))

    def serve(self, req, method, version, namespace, plural, name, body):
        key = self.key(version, plural, namespace, name)
        # state at the time the request is actually served
        req["before"] = copy.deepcopy(self.objects.get(key))
        if method == "GET":
            obj = self.objects.get(key)
            return Response({"items": [copy.deepcopy(obj)] if obj is not None else []})
        if method == "POST":
            if key in self.objects:
                raise server_error(409, "exists")
            obj = copy.deepcopy(body)
            self.stamp(obj, created=True)
            self.objects[key] = obj
            req["applied"] = True
            return Response(obj, 201)
        if key not in self.objects:
            raise server_error(404, "missing")
        if method == "PATCH":
            obj = merge_patch(self.objects[key], body)
            self.stamp(obj, created=False)
            self.objects[key] = obj
            req["applied"] = True
            return Response(obj)
        if method == "DELETE":
            del self.objects[key]
            req["applied"] = True
            return Response({})
        raise AssertionError(method)

    def mutations(self):
        return [r for r in self.log if r["verb"] != "get"]

    def api(self):
        return MemoryApi(self)


class MemoryApi(BaseApi):
    def __init__(self, cluster: Cluster):
        self.cluster = cluster
        self._asyncio = True
        self._timeout = None

    def __await__(self):
        async def f():
            return self

        return f().__await__()

    @property
    def namespace(self):
        return self.cluster.default_namespace

    @namespace.setter
    def namespace(self, value):
        self.cluster.default_namespace = value

    @contextlib.asynccontextmanager
    async def call_api(
        self,
        method="GET",
        version="v1",
        base="",
        namespace=None,
        url="",
        raise_for_status=True,
        stream=False,
        **kwargs,
    ):
        try:
            response = await self.cluster.request(
                method, version, namespace, url, kwargs.get("params"), kwargs.get("data")
            )
        except kr8s.ServerError as err:
            if not raise_for_status and err.response is not None:
                yield Response({}, err.response.status_code)
                return
            raise
        yield response

    async def lookup_kind(self, kind):
        self.cluster.lookups.append(kind)
        req = {
            "n": -1, "verb": "lookup", "version": "", "plural": "", "ns": "",
            "name": kind, "body": None, "before": None, "applied": False,
        }
        if self.cluster.gate:
            await self.cluster.gate(req)
        if self.cluster.fault:
            fault = self.cluster.fault(req)
            if isinstance(fault, tuple):
                fault = fault[1]
            if fault == "hang":
                await asyncio.get_running_loop().create_future()
            elif isinstance(fault, BaseException):
                raise fault
        if kind not in self.cluster.lookup:
            raise ValueError(f"Kind {kind} not found.")
        return (kind, self.cluster.lookup[kind], True)

    async_lookup_kind = lookup_kind
import asyncio
import selectors
class _Selector:
    def __init__(self, loop):
        self._inner = selectors.DefaultSelector()
        self._loop = loop

    def select(self, timeout=None):
        events = self._inner.select(0)
        if events:
            return events
        if timeout is None:
            self._loop.stuck = True
            raise Stuck("nothing can make progress")
        if timeout > 0:
            self._loop.now += timeout
        return []

    def __getattr__(self, name):
        return getattr(self._inner, name)


class Stuck(RuntimeError):
    pass


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 1000.0
        self.stuck = False
        super().__init__(_Selector(self))

    def time(self):
        return self.now


def run(coro, limit=None):
    """Run a coroutine to completion in a fresh virtual-time loop.

    Returns (result, elapsed virtual seconds).
    """
    loop = VirtualLoop()
    loop.set_exception_handler(lambda loop, ctx: None)
    asyncio.set_event_loop(loop)
    try:
        t0 = loop.time()
        task = loop.create_task(coro)
        if limit is not None:
            loop.call_later(limit, task.cancel)
        result = loop.run_until_complete(task)
        return result, loop.time() - t0
    finally:
        try:
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pending:
                t.cancel()
            if pending:
                loop.call_later(1, lambda: None)
                loop.run_until_complete(
                    asyncio.wait(pending, timeout=5)
                )
        except Exception:
            pass
        asyncio.set_event_loop(None)
        loop.close()


# Under Python 3.12 koreo.cache's private globals are mangled after its generic
# class: make both names the same, as they are under 3.13.
import koreo.cache as _cache
for _name, _value in list(vars(_cache).items()):
    _m = re.fullmatch(r"_([A-Za-z0-9]\w*?)(__[A-Za-z]\w*)", _name)
    if _m and not _name.endswith("__") and _m.group(2) not in vars(_cache):
        setattr(_cache, _m.group(2), _value)

import celpy
from koreo import cache, registry, result
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.workflow.structure import Workflow

OWNER = ("ns1", {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
                 "blockOwnerDeletion": True, "controller": False})
PREPARERS = {ValueFunction: prepare_value_function, ResourceFunction: prepare_resource_function,
             ResourceTemplate: prepare_resource_template, Workflow: prepare_workflow,
             FunctionTest: prepare_function_test}
API = {"apiVersion": "apps.example.io/v1", "kind": "Thing", "plural": "things", "name": "thing", "namespace": "ns1"}
_count = [0]


async def offer(cls, name, spec):
    _count[0] += 1
    return await cache.prepare_and_cache(cls, PREPARERS[cls], {"name": name, "resourceVersion": f"v{_count[0]}"}, spec)


async def value(spec, inputs=None, name="vf"):
    fn = await offer(ValueFunction, name, spec)
    assert isinstance(fn, ValueFunction), fn
    return await reconcile_value_function("demo", fn, celpy.json_to_cel(inputs or {}))


async def resource(cluster, spec, inputs=None, name="rf", owner=OWNER):
    fn = await offer(ResourceFunction, name, spec)
    assert isinstance(fn, ResourceFunction), fn
    return (await reconcile_resource_function(cluster.api(), "demo", fn, owner, celpy.json_to_cel(inputs or {}))).outcome


async def reconcile(cluster, fn, inputs=None, owner=OWNER):
    out = await reconcile_resource_function(cluster.api(), "demo", fn, owner, celpy.json_to_cel(inputs or {}))
    return out.outcome


async def workflow(cluster, spec, trigger=None, name="wf"):
    wf = await offer(Workflow, name, spec)
    assert isinstance(wf, Workflow), wf
    return await reconcile_workflow(cluster.api(), name, OWNER, celpy.json_to_cel(trigger or {}), wf)


def thing(spec, **metadata):
    return {"apiVersion": API["apiVersion"], "kind": "Thing",
            "metadata": {"name": "thing", "namespace": "ns1", "uid": "u", "ownerReferences": [OWNER[1]], **metadata},
            "spec": spec}


def verbs(cluster):
    return [r["verb"] for r in cluster.log]
