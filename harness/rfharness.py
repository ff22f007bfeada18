"""Drives real ResourceFunctions against the in-memory cluster and records
what the ResourceFnTrace specification judges."""

import asyncio
import copy
import itertools
import json

import env  # noqa: F401
import celpy
from koreo import cache, result
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.structure import ValueFunction

import vloop
from cluster import Cluster
from values import enc, plain

ANNOTATION = "koreo.dev/last-applied-configuration"
NONE = ["none"]
DIRECTIVES = (
    "x-koreo-compare-as-set",
    "x-koreo-compare-as-map",
    "x-koreo-compare-last-applied",
)

_names = itertools.count(1)
_versions = itertools.count(1)


class NotPrepared(Exception):
    pass


async def offer(cls, preparer, name, spec):
    return await cache.prepare_and_cache(
        resource_class=cls,
        preparer=preparer,
        metadata={"name": name, "resourceVersion": f"v{next(_versions)}"},
        spec=spec,
    )


async def offer_ok(cls, preparer, name, spec):
    res = await offer(cls, preparer, name, spec)
    if not isinstance(res, cls):
        raise NotPrepared(f"{cls.__name__} {name}: {res!r} for {spec!r}")
    return res


# --- documents: the same JSON document, written with literals or expressions


class Pool:
    """Values reachable from expressions as inputs.v<N>."""

    def __init__(self):
        self.values = {}

    def ref(self, value, root="inputs"):
        name = f"v{len(self.values)}"
        self.values[name] = copy.deepcopy(value)
        return f"={root}.{name}"


def express(doc, pool, rng, rate, keep_maps, top=True, root="inputs"):
    """Rewrite `doc`, moving random subtrees into inputs.

    keep_maps: only leaves and lists may move (an expression that yields a map
    would replace instead of merge).
    """
    if not top and rng.random() < rate and not (keep_maps and isinstance(doc, dict)):
        return pool.ref(doc, root)
    if isinstance(doc, dict):
        return {
            k: express(v, pool, rng, rate, keep_maps, False, root)
            for k, v in doc.items()
        }
    if isinstance(doc, list):
        return [express(v, pool, rng, rate, False, False, root) for v in doc]
    return doc


def deep_merge(base, over):
    """Only used to construct live objects; the verdict is the spec's."""
    if not isinstance(over, dict) or not over:
        return copy.deepcopy(over)
    out = copy.deepcopy(base) if isinstance(base, dict) else {}
    for k, v in over.items():
        out[k] = deep_merge(out.get(k), v)
    return out


def strip(doc):
    if isinstance(doc, dict):
        return {k: strip(v) for k, v in doc.items() if k not in DIRECTIVES}
    if isinstance(doc, list):
        return [strip(v) for v in doc]
    return doc


class Scenario:
    """One ResourceFunction, its documents, and the situation it runs in."""

    def __init__(self, rng, *, api=None, cfg=None, base=None, layers=(), create_doc=None,
                 rate=0.4, base_mode="inline", pre=None, parent_ns="ns1", owner=None,
                 static_name=True, extra=None, contradicts=False):
        self.rng = rng
        self.api = {
            "version": "apps.example.io/v1",
            "kind": "Widget",
            "plural": "widgets",
            "namespaced": True,
            "name": "obj",
            "ns": "ns1",
            **(api or {}),
        }
        self.cfg = {
            "ro": False, "create": True, "update": "patch", "del": False,
            "owned": True, "cd": 30, "ud": 30, **(cfg or {}),
        }
        self.base = base if base is not None else {}
        self.layers = list(layers)  # (kind, doc, skip)
        self.create_doc = create_doc
        self.rate = rate
        self.base_mode = base_mode
        self.pre = pre  # None | (kind, message, delay)
        self.parent_ns = parent_ns
        self.owner = owner or {
            "apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
            "blockOwnerDeletion": True, "controller": False,
            **rng.choice([{}, {}, {}, {"controller": True}, {"kind": "Other", "apiVersion": "apps/v1"}]),
        }
        self.contradicts = contradicts
        self.static_name = static_name
        self.extra = extra or {}

    # -- construction of the definition
    async def prepare(self):
        rng, cfg, api = self.rng, self.cfg, self.api
        n = next(_names)
        self.fn_name = f"fn-{n}"
        pool = Pool()
        config = {
            "apiVersion": api["version"],
            "kind": api["kind"],
            "name": api["name"] if self.static_name else pool.ref(api["name"]),
        }
        if api.get("plural") and not api.get("omit_plural"):
            config["plural"] = api["plural"]
        if api["ns"] is not None:
            config["namespace"] = api["ns"] if self.static_name else pool.ref(api["ns"])
        if not api["namespaced"]:
            config["namespaced"] = False
        if not cfg["owned"] or rng.random() < 0.3:
            config["owned"] = cfg["owned"]
        if cfg["ro"] or rng.random() < 0.2:
            config["readonly"] = cfg["ro"]
        if cfg["del"] or rng.random() < 0.2:
            config["deleteIfExists"] = cfg["del"]
        spec = {"apiConfig": config, "return": {"done": "=1 + 1", "uid": "=resource.metadata.name"}}
        if cfg["del"]:
            spec["return"] = {"done": "=1 + 1"}
        if self.base_mode == "inline":
            spec["resource"] = express(self.base, pool, rng, self.rate, False)
        else:
            tname = f"tpl-{n}"
            doc = {"apiVersion": api["version"], "kind": api["kind"], **self.base}
            self.base = doc
            self.template_name = tname
            await offer_ok(ResourceTemplate, prepare_resource_template, tname, {"template": doc})
            spec["resourceTemplateRef"] = {
                "name": tname if rng.random() < 0.5 else pool.ref(tname)
            }
        overlays = []
        self.vfs = []
        for idx, (kind, doc, skip) in enumerate(self.layers):
            if kind == "overlay":
                entry = {"overlay": express(doc, pool, rng, self.rate, True)}
            else:
                vname = f"vf-{n}-{idx}"
                vpool = Pool()
                ret = express(doc, vpool, rng, self.rate, True)
                await offer_ok(ValueFunction, prepare_value_function, vname, {"return": ret})
                self.vfs.append(vname)
                entry = {"overlayRef": {"kind": "ValueFunction", "name": vname}}
                if vpool.values:
                    entry["inputs"] = {
                        k: (pool.ref(v) if rng.random() < 0.7 else v)
                        for k, v in vpool.values.items()
                    }
            if skip is not None:
                entry["skipIf"] = (
                    pool.ref(skip) if rng.random() < 0.6 else f"={'true' if skip else 'false'}"
                )
            overlays.append(entry)
        if overlays:
            spec["overlays"] = overlays
        create = {}
        if not cfg["create"]:
            create["enabled"] = False
        if cfg["cd"] != 30:
            create["delay"] = cfg["cd"]
        if self.create_doc is not None:
            create["overlay"] = express(self.create_doc, pool, rng, self.rate, True)
        if create:
            spec["create"] = create
        if cfg["update"] == "never":
            spec["update"] = {"never": {}}
        elif cfg["update"] != "patch" or cfg["ud"] != 30 or rng.random() < 0.2:
            spec["update"] = {cfg["update"]: {} if cfg["ud"] == 30 else {"delay": cfg["ud"]}}
        if self.pre:
            kind, message, delay = self.pre
            body = {"message": message}
            if kind == "retry":
                body["delay"] = delay
            spec["preconditions"] = [{"assert": "=inputs.preOk", kind: body}]
            pool.values["preOk"] = False
        spec.update(self.extra)
        self.spec = copy.deepcopy(spec)
        self.inputs_plain = copy.deepcopy(pool.values)
        self.inputs = celpy.json_to_cel(pool.values)
        self.function = await offer_ok(
            ResourceFunction, prepare_resource_function, self.fn_name, spec
        )
        return self

    # -- live objects
    def target(self):
        doc = copy.deepcopy(self.base)
        for kind, layer, skip in self.layers:
            if not skip:
                doc = deep_merge(doc, layer)
        meta = {"name": self.api["name"]}
        if self.api["namespaced"]:
            meta["namespace"] = self.api["ns"]
        return deep_merge(
            doc,
            {"apiVersion": self.api["version"], "kind": self.api["kind"], "metadata": meta},
        )

    def live_object(self, owner_refs=None, last_applied=True):
        """An object that meets the target, as the server would store it."""
        sent = strip(self.target())
        obj = copy.deepcopy(sent)
        meta = obj["metadata"]
        meta.setdefault("uid", "uid-live")
        meta["resourceVersion"] = "7"
        meta.setdefault("generation", 1)
        if last_applied:
            if not isinstance(meta.get("annotations"), dict):
                meta["annotations"] = {}
            meta["annotations"][ANNOTATION] = json.dumps(sent)
        if owner_refs is not None:
            meta["ownerReferences"] = copy.deepcopy(owner_refs)
        return obj

    # -- running
    def address(self):
        a = self.api
        return (a["version"], a["plural"], a["ns"] if a["namespaced"] else None, a["name"])

    def header(self):
        a, c = self.api, self.cfg
        own = c["owned"] and a["namespaced"] and self.parent_ns == a["ns"]
        return {
            "cfg": {
                "ro": c["ro"], "create": c["create"], "update": c["update"],
                "del": c["del"], "own": own, "cd": c["cd"], "ud": c["ud"],
            },
            "pre": self.pre[0] if self.pre else "",
            "api": {
                "version": a["version"], "kind": a["kind"], "plural": a["plural"],
                "namespaced": a["namespaced"], "name": a["name"], "ns": a["ns"] or "",
            },
            "base": enc(self.base),
            "layers": [{"doc": enc(d), "skip": bool(s)} for _, d, s in self.layers],
            "createDoc": enc(self.create_doc) if self.create_doc is not None else NONE,
            "owner": enc(self.owner),
            "contradicts": bool(self.contradicts),
            "passes": [],
        }

    async def one_pass(self, cluster, api):
        before = copy.deepcopy(cluster.objects.get(self.address()))
        others = {k: v for k, v in cluster.objects.items() if k != self.address()}
        mark, looked = len(cluster.log), len(cluster.lookups)
        out = {"c": "raised", "d": 0, "v": NONE}
        try:
            res = await reconcile_resource_function(
                api=api,
                location="test",
                function=self.function,
                owner=(self.parent_ns, copy.deepcopy(self.owner)),
                inputs=self.inputs,
            )
            out = project_outcome(res.outcome)
        except Exception as err:
            out["v"] = enc(f"{type(err).__name__}: {err}"[:200])
        await asyncio.sleep(0)
        return {
            "live": record_live(before),
            "reqs": [record_request(r) for r in cluster.log[mark:]],
            "looked": len(cluster.lookups) - looked,
            "out": out,
            "after": record_live(cluster.objects.get(self.address())),
            "others": others == {k: v for k, v in cluster.objects.items() if k != self.address()},
        }


def project_outcome(outcome):
    for cls in (result.DepSkip, result.Skip, result.Retry, result.PermFail):
        if isinstance(outcome, cls):
            return {
                "c": cls.__name__,
                "d": int(outcome.delay) if cls is result.Retry else 0,
                "v": enc(outcome.message),
            }
    return {"c": "Ok", "d": 0, "v": enc(outcome)}


def without_annotation(obj):
    obj = copy.deepcopy(obj)
    ann = None
    meta = obj.get("metadata") if isinstance(obj, dict) else None
    if isinstance(meta, dict) and isinstance(meta.get("annotations"), dict):
        ann = meta["annotations"].pop(ANNOTATION, None)
        if not meta["annotations"]:
            # an annotations container that only held the annotation
            del meta["annotations"]
    return obj, ann


def record_live(obj):
    if obj is None:
        return {"obj": NONE, "la": NONE}
    body, ann = without_annotation(obj)
    la = NONE
    if isinstance(ann, str):
        try:
            la = enc(json.loads(ann))
        except ValueError:
            la = NONE
    return {"obj": enc(plain(body)), "la": la}


def record_request(r):
    rec = {
        k: r[k] for k in ("verb", "version", "plural", "ns", "name")
    }
    rec["body"] = NONE
    rec["la"] = NONE
    rec["laKnown"] = False
    if r["verb"] in ("create", "patch") and isinstance(r["body"], dict):
        body, ann = without_annotation(r["body"])
        rec["body"] = enc(body)
        if isinstance(ann, str):
            rec["laKnown"] = True
            try:
                la = json.loads(ann)
                if isinstance(la, dict):
                    meta = la.get("metadata")
                    if isinstance(meta, dict) and meta.get("annotations") == {}:
                        del meta["annotations"]
                rec["la"] = enc(la)
            except ValueError:
                rec["la"] = ["e", "not JSON"]
    return rec


def run(coro):
    res, _ = vloop.run(coro)
    return res
