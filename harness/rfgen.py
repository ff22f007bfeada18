"""Random targets, overlays, decorations and drift for ResourceFunctions."""

import copy
import unicodedata

WORDS = ["a", "b", "c", "name", "value", "x", "y", "size", "mode", "on", "k-1", "app.io/z"]
STRINGS = ["", "x", "y", "abc", "true", "a b", "x/y:1.2", "null", "zz-9", "ünï", "no", "two\nlines", "1.0.0", "0x1F", "Xx e"]
NUMBERS = [0, 1, -1, 2, 7, 1.5, 0.0, 2.0, -0.25, 100000, 2147483648, 9007199254740993]


def simple(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(STRINGS)
    if r < 0.75:
        return rng.choice(NUMBERS)
    return rng.random() < 0.5


def value(rng, depth=3):
    r = rng.random()
    if depth <= 0 or r < 0.5:
        return simple(rng)
    if r < 0.6:
        return [simple(rng) for _ in range(rng.randint(0, 3))]
    if r < 0.72:
        return [value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return mapping(rng, depth - 1)


def keyed_list(rng, depth):
    out = []
    names = rng.choice([["p", "q", "r", "s"]] * 2 + [["p", "p", "p", "q", "q"], ["p", "", "P", "p "]])
    for n, k in enumerate(rng.sample(names, rng.randint(0, 3))):
        item = {"k": k, "g": rng.choice([1, 2]) if len(set(names)) == len(names) else n % 3}
        for _ in range(rng.randint(0, 2)):
            item[rng.choice(WORDS)] = value(rng, depth - 1)
        if rng.random() < 0.15:
            item["ownerReferences"] = embedded_owners(rng)
        item["k"] = k
        out.append(item)
    return out


def embedded_owners(rng):
    """Outside the resource's own metadata this is a field like any other."""
    return rng.choice([
        [], "x", 1, [{"name": "n", "uid": "u"}], {"a": 1}, [{"name": "n"}, {"name": "m"}],
    ])


def mapping(rng, depth=3, directives=True):
    out = {}
    for _ in range(rng.randint(0, 4)):
        out[rng.choice(WORDS)] = value(rng, depth)
    if not directives:
        return out
    if rng.random() < 0.25:
        key = rng.choice(["tags", "set", "a"])
        # members of a set are distinct
        out[key] = rng.sample(
            ["x", "y", "z", 1, 2, 3.5, "v1", "true"], rng.randint(0, 4)
        ) + ([rng.random() < 0.5] if rng.random() < 0.25 else [])
        if True in out[key] and 1 in [v for v in out[key] if v is not True]:
            out[key] = [v for v in out[key] if not isinstance(v, bool)]
        out["x-koreo-compare-as-set"] = [key]
    if rng.random() < 0.25:
        key = rng.choice(["items", "ports", "b"])
        out[key] = keyed_list(rng, depth)
        out["x-koreo-compare-as-map"] = {
            key: rng.choice([["k"], ["k", "g"], ["g", "k"], ["k", "nope"], ["nope", "k", "g"]])
        }
    if rng.random() < 0.12 and out:
        key = rng.choice(sorted(k for k in out if not k.startswith("x-koreo"))or ["a"])
        if key in out:
            out["x-koreo-compare-last-applied"] = [key]
    return out


def valid(doc):
    """Directives are used the way the documentation allows."""
    if isinstance(doc, list):
        return all(valid(x) for x in doc)
    if not isinstance(doc, dict):
        return True
    for k in doc.get("x-koreo-compare-as-set", []):
        v = doc.get(k)
        if not isinstance(v, list):
            return False
        if any(isinstance(x, (dict, list)) or x is None for x in v):
            return False
        if len({(isinstance(x, bool), isinstance(x, str), x) for x in v}) != len(v):
            return False
        if len(set(v)) != len(v):
            return False
    for k, fields in doc.get("x-koreo-compare-as-map", {}).items():
        v = doc.get(k)
        if not isinstance(v, list) or any(not isinstance(x, dict) for x in v):
            return False
        keys = [tuple(repr(x.get(f)) for f in fields) for x in v]
        if len(set(keys)) != len(keys):
            return False
        if k in doc.get("x-koreo-compare-as-set", []):
            return False
    for k in doc.get("x-koreo-compare-last-applied", []):
        if k not in doc:
            return False
    return all(
        valid(v) for k, v in doc.items() if not k.startswith("x-koreo-compare")
    )


def bare(doc):
    """Without directives: live objects hold none."""
    if isinstance(doc, dict):
        return {k: bare(v) for k, v in doc.items() if not k.startswith("x-koreo-compare")}
    if isinstance(doc, list):
        return [bare(v) for v in doc]
    return doc


def has_null(doc):
    if doc is None:
        return True
    if isinstance(doc, dict):
        return any(has_null(v) for v in doc.values())
    if isinstance(doc, list):
        return any(has_null(v) for v in doc)
    return False


def resource(rng, depth=3):
    doc = {}
    if rng.random() < 0.9:
        doc["spec"] = mapping(rng, depth)
    if rng.random() < 0.3:
        doc["data"] = mapping(rng, 1)
    if rng.random() < 0.12:
        # an embedded manifest, and one directly below the root
        if isinstance(doc.get("spec"), dict):
            doc["spec"]["template"] = {"metadata": {"ownerReferences": embedded_owners(rng)}}
        if rng.random() < 0.4:
            doc["data"] = {"ownerReferences": embedded_owners(rng), "z": 1}
    if rng.random() < 0.1:
        doc["tags"] = ["x", "y"]
        doc["x-koreo-compare-as-set"] = ["tags"]
    if rng.random() < 0.5:
        meta = {}
        if rng.random() < 0.6:
            meta["labels"] = {rng.choice(WORDS): rng.choice(STRINGS) for _ in range(2)}
        if rng.random() < 0.4:
            meta["annotations"] = {rng.choice(WORDS): rng.choice(STRINGS)}
        if rng.random() < 0.15:
            meta["finalizers"] = rng.choice([["a.io/x"], ["a.io/x", "b.io/y"], []])
        doc["metadata"] = meta
    if rng.random() < 0.12:
        doc["status"] = mapping(rng, 1)
    for k in rng.sample(["rules", "stringData", "type", "immutable", "webhooks", "roleRef"], rng.choice([0, 0, 0, 1])):
        doc[k] = value(rng, 2)
    return doc


def overlay(rng, depth=2):
    while True:
        doc = resource(rng, depth)
        if doc:
            return doc


# --- what other actors do to the stored object


def decorate(rng, doc, target, amount=0.4, top=True):
    """Add keys and reorder directed lists; the target stays met."""
    if isinstance(doc, dict):
        t = target if isinstance(target, dict) else {}
        out = {}
        for k, v in doc.items():
            tv = t.get(k)
            new = decorate(rng, v, tv, amount, False)
            if isinstance(v, list) and (
                k in t.get("x-koreo-compare-as-set", [])
                or k in t.get("x-koreo-compare-as-map", {})
            ):
                if k in t.get("x-koreo-compare-as-map", {}) and isinstance(tv, list):
                    pairs = list(zip(v, tv))
                    new = [decorate(rng, a, b, amount, False) for a, b in pairs]
                elif new and rng.random() < amount / 4:
                    # a set: how often a member is listed does not matter
                    new = new + [rng.choice(new)]
                rng.shuffle(new)
            out[k] = new
        if rng.random() < amount:
            for _ in range(rng.randint(1, 2)):
                extra = rng.choice(["extra", "added", "zz", "nodePort", "finalizers", "ownerReferences"])
                if extra not in out and extra not in t:
                    if extra == "ownerReferences":
                        if top:
                            continue
                        out[extra] = []
                    else:
                        out[extra] = bare(value(rng, 1)) if rng.random() < 0.85 else None
        if top and "status" not in t and rng.random() < 0.7:
            out["status"] = {"phase": "Ready", "conditions": [{"type": "Ready"}]}
        if top and rng.random() < 0.4:
            bookkeeping(rng, out, t)
        return out
    if isinstance(doc, list):
        t = target if isinstance(target, list) and len(target) == len(doc) else [None] * len(doc)
        return [decorate(rng, a, b, amount, False) for a, b in zip(doc, t)]
    return copy.deepcopy(doc)


def bookkeeping(rng, obj, target):
    """What servers and other controllers note on the objects they look after."""
    meta, given = obj.get("metadata"), target.get("metadata")
    if not isinstance(meta, dict):
        return obj
    given = given if isinstance(given, dict) else {}
    notes = {
        "deletionTimestamp": "2024-05-01T10:00:00Z",
        "deletionGracePeriodSeconds": rng.choice([0, 30]),
        "finalizers": rng.choice([["example.io/guard"], ["foregroundDeletion"], []]),
        "managedFields": [{"manager": "koreo", "operation": "Apply", "fieldsV1": {"f:spec": {}}}],
        "selfLink": "/apis/x",
        "generateName": "obj-",
    }
    for key in rng.sample(sorted(notes), rng.randint(1, 3)):
        if key not in given and key not in meta:
            meta[key] = notes[key]
    status = obj.get("status")
    if "status" not in target and (status is None or isinstance(status, dict)) and rng.random() < 0.6:
        obj["status"] = {
            **(status or {}),
            "observedGeneration": rng.choice([0, 1, 2, 7]),
            "conditions": [{"type": "Ready", "status": rng.choice(["True", "False"]),
                            "reason": rng.choice(["Ready", "UpToDate", "Failed", "Deleting"])}],
        }
    return obj


def paths(target, prefix=()):
    """Every path the target specifies, with the directive it is under."""
    out = []
    if isinstance(target, dict):
        for k, v in target.items():
            if k.startswith("x-koreo-compare"):
                continue
            # the resource's own: a matter of its owners
            if k == "ownerReferences" and prefix in ((), ("metadata",)):
                continue
            if k in target.get("x-koreo-compare-last-applied", []):
                continue
            if k in target.get("x-koreo-compare-as-set", []) and isinstance(v, list):
                out.append((prefix + (k,), "set"))
                continue
            if k in target.get("x-koreo-compare-as-map", {}) and isinstance(v, list):
                out.append((prefix + (k,), "map"))
                # (with another key it is another member: the one named is missing)
                for i, item in enumerate(v):
                    out += paths(item, prefix + (k, i))
                continue
            out.append((prefix + (k,), ""))
            out += paths(v, prefix + (k,))
    elif isinstance(target, list):
        for i, v in enumerate(target):
            out.append((prefix + (i,), ""))
            out += paths(v, prefix + (i,))
    return out


def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


RETYPES = [None, 0, 1, 2, True, False, "", "x", "0", "1", [], {}, ["x"], [0], {"x": 1}, [{"k": "p"}], [None], 3.25]


def deviations(rng, v, directive, parent_is_list, removable=True):
    """Functions that change the value at one path into a different one."""
    out = []
    if removable and not parent_is_list:
        out.append(("remove", None))
    general = out + [("set", r) for r in RETYPES]
    out = []
    if isinstance(v, bool):
        out += [("set", not v), ("set", int(v)), ("set", str(v).lower())]
    elif isinstance(v, (int, float)):
        out += [("set", v + 1), ("set", v - 1), ("set", v + 1e-9 if abs(v) < 99 else v + 2), ("set", str(v)), ("set", bool(v)), ("set", -v if v else 5)]
        if abs(v) > 2**53:
            out = [("set", v - 1)] * 6
    elif isinstance(v, str):
        out += [("set", v + "x"), ("set", v.upper()), ("set", v + " "), ("set", "\n" + v),
                ("set", unicodedata.normalize("NFD", v)), ("set", v.replace("x", "X").replace("e", ""))]
    elif isinstance(v, list):
        out += [("set", v + [rng.choice([0, "new", {"k": "new"}])]), ("set", v[:-1]), ("set", v[::-1]), ("set", v[1:])]
        if v:
            i = rng.randrange(len(v))
            for r in rng.sample(RETYPES, 4) + [1 if v[i] is True else True]:
                out.append(("set", v[:i] + [r] + v[i + 1 :]))
    elif isinstance(v, dict):
        for k in v:
            if not k.startswith("x-koreo"):
                out.append(("set", {a: b for a, b in v.items() if a != k}))
    # half of those drawn are close to the value
    return general + out * max(1, len(general) // max(1, len(out)))


def apply_deviation(doc, path, dev):
    doc = copy.deepcopy(doc)
    parent = at(doc, path[:-1])
    if dev[0] == "remove":
        del parent[path[-1]]
    else:
        parent[path[-1]] = copy.deepcopy(dev[1])
    return doc


OWNER_SETS = [
    None,
    [],
    [{"apiVersion": "v1", "kind": "Other", "name": "o1", "uid": "uid-o1"}],
    [
        {"apiVersion": "v1", "kind": "Other", "name": "o1", "uid": "uid-o1"},
        {"apiVersion": "apps/v1", "kind": "Other", "name": "o2", "uid": "uid-o2", "controller": True},
    ],
    [{"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent", "blockOwnerDeletion": True, "controller": False}],
    [
        {"apiVersion": "v1", "kind": "Other", "name": "o1", "uid": "uid-o1"},
        {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent", "blockOwnerDeletion": True, "controller": False},
    ],
    # same name, another object
    [{"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-older"}],
    # the parent, as another version of the controller wrote it
    [{"apiVersion": "v1alpha1", "kind": "Trigger", "name": "parent", "uid": "uid-parent"}],
    [{"apiVersion": "v1", "kind": "Other", "name": "parent", "uid": "uid-parent2", "controller": True}],
    [{"apiVersion": "v1", "kind": "Other", "name": f"o{k}", "uid": f"uid-o{k}", "blockOwnerDeletion": k % 2 == 0}
     for k in range(7)],
]
