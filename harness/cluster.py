"""In-memory Kubernetes API: RFC 7386 merge patch, decorations, faults.

`Cluster` stores objects and a request log; `api()` gives a kr8s-compatible
Api whose only transport is `call_api`, so every kr8s code path above the
HTTP request is the real one.
"""

import asyncio
import contextlib
import copy
import json

import httpx
import kr8s
from kr8s._api import Api as BaseApi


def merge_patch(target, patch):
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    out = copy.deepcopy(target) if isinstance(target, dict) else {}
    for k, v in patch.items():
        if v is None:
            out.pop(k, None)
        else:
            out[k] = merge_patch(out.get(k), v)
    return out


class Response:
    def __init__(self, data, status_code=200):
        self._data = data
        self.status_code = status_code

    def json(self):
        return copy.deepcopy(self._data)


def server_error(code, message="boom"):
    response = httpx.Response(code, request=httpx.Request("GET", "http://api"))
    status = {"message": message, "code": code} if code < 500 else str(code)
    return kr8s.ServerError(message, status=status, response=response)


def substance(obj):
    """What a generation counts the changes of."""
    return {k: v for k, v in obj.items() if k not in ("metadata", "status")}


def counted(obj, before):
    meta, old = obj.get("metadata"), before.get("metadata")
    if isinstance(meta, dict) and isinstance(old, dict) and isinstance(old.get("generation"), int):
        meta["generation"] = old["generation"] + 1


def text(part):
    """A part of an address; broken code may send anything."""
    return part if part is None or isinstance(part, str) else f"<{part!r}>"


class Cluster:
    def __init__(self, default_namespace="default-ns"):
        self.objects: dict[tuple, dict] = {}
        self.log: list[dict] = []
        self.counter = 100
        self.default_namespace = default_namespace
        self.decorate = None  # fn(obj) -> None, applied to stored objects
        self.gate = None  # async fn(request) -> None, awaited before serving
        self.fault = None  # fn(request) -> None | exception | "hang" | ("after", exc)
        self.lookup = {}  # kind -> plural
        self.lookups: list[str] = []
        self.inflight = 0
        self.events: list[tuple] = []

    # -- storage
    @staticmethod
    def key(version, plural, namespace, name):
        return (version, plural, namespace or None, name)

    def get(self, version, plural, namespace, name):
        return self.objects.get(self.key(version, plural, namespace, name))

    def put(self, version, plural, namespace, name, obj):
        self.objects[self.key(version, plural, namespace, name)] = obj

    def contents(self):
        """Cluster contents without server bookkeeping."""
        out = {}
        for k, o in self.objects.items():
            o = copy.deepcopy(o)
            for field in ("uid", "resourceVersion", "generation", "creationTimestamp"):
                o.get("metadata", {}).pop(field, None)
            out["|".join(str(x) for x in k)] = o
        return out

    def stamp(self, obj, created):
        meta = obj.get("metadata")
        if not isinstance(meta, dict):
            meta = obj["metadata"] = {}
        self.counter += 1
        if created:
            meta["uid"] = f"uid-{self.counter}"
            meta["creationTimestamp"] = "2024-01-01T00:00:00Z"
            meta["generation"] = 1
        meta["resourceVersion"] = f"{self.counter}"
        if self.decorate:
            self.decorate(obj)

    # -- requests
    async def request(self, method, version, namespace, url, params, data):
        parts = url.split("/", 1)
        plural, name = parts[0], (parts[1] if len(parts) > 1 else None)
        body = json.loads(data) if data else None
        if method == "GET" and name is None:
            for part in (params or {}).get("fieldSelector", "").split(","):
                if part.startswith("metadata.name="):
                    name = part.removeprefix("metadata.name=")
        if method == "POST":
            meta = body.get("metadata") if isinstance(body, dict) else None
            name = meta.get("name") if isinstance(meta, dict) else None
        namespace, name = text(namespace), text(name)
        req = {
            "n": len(self.log),
            "verb": {"GET": "get", "POST": "create", "PATCH": "patch", "DELETE": "delete"}[method],
            "version": version,
            "plural": plural,
            "ns": namespace or "",
            "name": name if name is not None else "",
            "body": body,
            "before": copy.deepcopy(self.get(version, plural, namespace, name)),
            "applied": False,
        }
        self.log.append(req)
        self.inflight += 1
        self.events.append(("start", req))
        try:
            if self.gate:
                await self.gate(req)
            after = None
            if self.fault:
                fault = self.fault(req)
                if fault == "hang":
                    await asyncio.get_running_loop().create_future()
                elif isinstance(fault, tuple):
                    after = fault[1]
                elif isinstance(fault, BaseException):
                    req["fault"] = type(fault).__name__
                    raise fault
            resp = self.serve(req, method, version, namespace, plural, name, body)
            if after == "hang":
                await asyncio.get_running_loop().create_future()
            elif after is not None:
                raise after
            return resp
        finally:
            self.inflight -= 1
            self.events.append(("end", req))

    def serve(self, req, method, version, namespace, plural, name, body):
        key = self.key(version, plural, namespace, name)
        # state at the time the request is actually served
        req["before"] = copy.deepcopy(self.objects.get(key))
        if method == "GET":
            obj = self.objects.get(key)
            return Response({"items": [copy.deepcopy(obj)] if obj is not None else []})
        if method == "POST":
            if key in self.objects:
                raise server_error(409, "exists")
            obj = copy.deepcopy(body)
            self.stamp(obj, created=True)
            self.objects[key] = obj
            req["applied"] = True
            return Response(obj, 201)
        if key not in self.objects:
            raise server_error(404, "missing")
        if method == "PATCH":
            before = self.objects[key]
            obj = merge_patch(before, body)
            if substance(obj) != substance(before):
                counted(obj, before)
            self.stamp(obj, created=False)
            self.objects[key] = obj
            req["applied"] = True
            return Response(obj)
        if method == "DELETE":
            del self.objects[key]
            req["applied"] = True
            return Response({})
        raise AssertionError(method)

    def mutations(self):
        return [r for r in self.log if r["verb"] != "get"]

    one_client = False  # whether all passes share a client, as they do in production
    _client = None

    def api(self):
        if not self.one_client or self._client is None:
            self._client = MemoryApi(self)
        return self._client


class MemoryApi(BaseApi):
    def __init__(self, cluster: Cluster):
        self.cluster = cluster
        self._asyncio = True
        self._timeout = None

    def __await__(self):
        async def f():
            return self

        return f().__await__()

    @property
    def namespace(self):
        return self.cluster.default_namespace

    @namespace.setter
    def namespace(self, value):
        self.cluster.default_namespace = value

    @contextlib.asynccontextmanager
    async def call_api(
        self,
        method="GET",
        version="v1",
        base="",
        namespace=None,
        url="",
        raise_for_status=True,
        stream=False,
        **kwargs,
    ):
        try:
            response = await self.cluster.request(
                method, version, namespace, url, kwargs.get("params"), kwargs.get("data")
            )
        except kr8s.ServerError as err:
            if not raise_for_status and err.response is not None:
                yield Response({}, err.response.status_code)
                return
            raise
        yield response

    async def lookup_kind(self, kind):
        self.cluster.lookups.append(kind)
        req = {
            "n": -1, "verb": "lookup", "version": "", "plural": "", "ns": "",
            "name": kind, "body": None, "before": None, "applied": False,
        }
        if self.cluster.gate:
            await self.cluster.gate(req)
        if self.cluster.fault:
            fault = self.cluster.fault(req)
            if isinstance(fault, tuple):
                fault = fault[1]
            if fault == "hang":
                await asyncio.get_running_loop().create_future()
            elif isinstance(fault, BaseException):
                raise fault
        if kind not in self.cluster.lookup:
            raise ValueError(f"Kind {kind} not found.")
        return (kind, self.cluster.lookup[kind], True)

    async_lookup_kind = lookup_kind
