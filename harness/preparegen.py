"""Definitions' specs of every quality, for C20."""

import itertools
import random

from exprs import render, tree
from values import text

NAMES = ["abc", "x", "k0"]
PAYLOAD = {"apiVersion": "v1", "kind": "ConfigMap", "metadata": {"name": "n", "namespace": "ns"}}


def clone(v):
    """A copy, however deep."""
    if not isinstance(v, (dict, list)):
        return v
    top = type(v)()
    todo = [(v, top)]
    while todo:
        a, b = todo.pop()
        for k, x in a.items() if isinstance(a, dict) else enumerate(a):
            y = type(x)() if isinstance(x, (dict, list)) else x
            if isinstance(a, dict):
                b[k] = y
            else:
                b.append(y)
            if y is not x or isinstance(x, (dict, list)):
                todo.append((x, y))
    return top


def tag(v, depth=0):
    """SchemaSem.tla's form of a document."""
    if depth > 11:
        return ["e", "deep"]
    if v is None:
        return ["z"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, int):
        return ["n", str(v) if abs(v) < 10**18 else "big", "int"]
    if isinstance(v, float):
        return ["n", repr(v), "whole" if v.is_integer() else "frac"]
    if isinstance(v, str):
        return ["s", text(v) if len(v) < 200 else "long", len(v)]
    if isinstance(v, list):
        return ["l", [tag(x, depth + 1) for x in v]]
    return ["m", {text(k) if len(k) < 200 else "long": tag(x, depth + 1) for k, x in v.items()}]


def untag(doc):
    """The document of the model, with the texts it only names."""
    k = doc[0]
    if k == "z":
        return None
    if k == "b":
        return doc[1]
    if k == "n":
        return int(doc[1]) if doc[2] == "int" else float(doc[1])
    if k == "s":
        s, n = doc[1], doc[2]
        if s == "~d800;":
            return "\ud800"
        if s in ("~long;", "~n"):
            return ("abcdefghij" * 7)[:n]
        return s
    if k == "l":
        return [untag(x) for x in doc[1]]
    members = doc[1] if isinstance(doc[1], dict) else {}
    return {key: untag(x) for key, x in members.items()}


# --- expressions

ODD_EXPRESSIONS = [
    "=inputs['\\UFFFFFFFF']", "=x['\\ud800']", "=x[b'\\xff']", "='\\377'", "=x['\\777']", "=x[\"\\u12\"]", "=x['\\x4']",
    "=x['\\U00110000'].y", "=(\"\\UFFFFFFFF\").a", "=x['a' 'b']", "=x[1u]", "=x[-1]", "=x[1.5e300]", "=x[true]", "=x[null]",
    "=x[''].y", "=x[r'\\d'].y", "=x['''a\nb'''].y", "=''.y", "=''''''.y", "=b''.y", "=[].y", "={}.y", "=(1).y", "=1.y",
    "=x{}.y", "=x.y{a: 1}.b", "=.x.y", "=.x.y.z()", "=.f(1).y", "=f()[0].y", "=f()[g()].y", "=(x)[y].z", "=((x))[(('a'))].z",
    "=[1, 2][0].a", "={'a': 1}['a'].b", "=(a ? b : c).d", "=(a ? b : c)['d'].e", "=-x.y", "=!x.y", "=(-x).y", "=(!x)[y]",
    "=x[y[z[w]]]", "=x[y ? 1 : 2].z", "=x.map(y, y.z)[0].w", "=[x.y].map(i, i.j)", "={x.y: z.w}", "={x.y: z.w}[a.b].c",
    "=has(x.y)", "=has(x[0].y)", "=type(x.y)", "=x.y in z.w", "=x // comment\n.y", "=x.y.size()", "=size(x.y).z",
    "=x['a']['b'].c['d']", "=x[\"\"\"a\"\"\"].b", "=x['\\n'].y", "=google.protobuf.Any{a: x.y}.z", "=x[0][1][2]", "=x[['a']].y",
    "=x[{'a': 1}].y", "=x[(y)].z", "=inputs[inputs].a", "=steps[steps.a].b", "=parent[parent]", "=steps", "=steps['']",
    "=steps[''].a", "=steps['a.b'].c", "=steps[0]", "=inputs.a.b.c.d.e.f.g.h", "=1", "=''", "=null", "=true", "=[]", "={}",
    "=0x7FFFFFFFFFFFFFFF", "=99999999999999999999999999", "=" + "9" * 5000, "=1e999", "=x." + "y." * 60 + "z",
    "=" + "(" * 30 + "x" + ")" * 30 + ".y", "=" + "[" * 20 + "x.y" + "]" * 20, "=" + "!" * 30 + "x.y",
    "=" + " + ".join(["x.y"] * 60), "=x" + "[0]" * 60, "=x" + ".f()" * 60,
]
BROKEN_EXPRESSIONS = ["=", "==", "= ", "=(", "=1 +", "=)", "='a", "=\"\"\"", "=x.", "=x[", "=@", "=\x00", "=\ud800", "='\ud800'",
                      "='\x00'", "=x.\u00e9", "=\u2028", "=\\", "=//", "=x // y", "=a b", "=if", "=in", "=x.in", "=package.y",
                      "=1 ? 2", "={a}", "=x.y.", "=..x", "=x..y", "=''' ", "=b", "=r'", "=\t\n"]


def expression(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(["=inputs.value", "=inputs.a.b", "=locals.x", "=resource.spec", "=true", "='abc'", "=1", "=[1]",
                           "={'a': inputs.b}", "=steps.abc.v", "=parent.spec.x", "=value.a", "=template_name"])
    if r < 0.6:
        return rng.choice(ODD_EXPRESSIONS)
    if r < 0.9:
        return "=" + rng.choice(["", " "]) + render(tree(rng, ["abc", "step_1"], rng.choice([0, 1, 2, 3])), rng)
    return rng.choice(BROKEN_EXPRESSIONS)


# --- values of any kind

TEXTS = ["", "x", "abc", "k0", "=", "=inputs.a", "=(", "a b", "a.b", "a/b", "v1", "apps/v1", "ConfigMap", "\ud800", "a\udfff", "\x00",
         "a\x00b", "\"", "'", "\"\"\"", "'''", "\\", "a\\", "a\"", "\n", "\u2028", "\U0001f600", "\u00e9", "1", "-1", "1e400",
         "0x10", "1.5", "9" * 30, "9" * 5000, "nan", "inf", "true", "null", "{}", "[]", "%s", "{0}", "~", "x" * 45, "x" * 46,
         "A" * 41, "y" * 61, "z" * 3000]
NUMBERS = [0, 1, -1, 5, 30, 2**31, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 10**30, 10**400, 1.0, 1.5, -0.0, 1e15, 1e17,
           1e300, 5e-324, 0.1, float("inf"), float("-inf")]
KEYS = ["a", "b", "", "a.b", "a b", "\"", "a\"\"\"b", "\x00", "\ud800", "=x", "=1 +", "1", "\\", "\n", "x-koreo-compare-as-set",
        "x-koreo-compare-as-map", "metadata", "name", "apiVersion", "kind", "spec", "k" * 300]


def scalar(rng):
    r = rng.random()
    if r < 0.15:
        return None
    if r < 0.3:
        return rng.random() < 0.5
    if r < 0.5:
        return rng.choice(NUMBERS)
    if r < 0.75:
        return rng.choice(TEXTS)
    return expression(rng)


def anything(rng, depth=0):
    r = rng.random()
    if depth > 4 or r < 0.45:
        return scalar(rng)
    if r < 0.65:
        return [anything(rng, depth + 1) for _ in range(rng.choice([0, 0, 1, 2, 3, 11, 25] if depth < 2 else [0, 1, 2]))]
    if r < 0.7 and not depth:
        return deep(rng)
    return {rng.choice(KEYS): anything(rng, depth + 1) for _ in range(rng.choice([0, 0, 1, 2, 4]))}


def deep(rng, n=None):
    n = n or rng.choice([20, 60, 100, 150])
    v = scalar(rng)
    for _ in range(n):
        v = {"a": v} if rng.random() < 0.5 else [v]
    return v


def freeform(rng, depth=0):
    """A map of the sort written where anything is allowed."""
    out = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(["a", "b", "c", "data", "spec", "x-koreo-compare-as-set", "a.b", *KEYS[:3]])
        r = rng.random()
        if r < 0.35:
            out[k] = expression(rng)
        elif r < 0.6 and depth < 3:
            out[k] = freeform(rng, depth + 1)
        elif r < 0.7:
            out[k] = [expression(rng), scalar(rng)]
        elif r < 0.9:
            out[k] = rng.choice(["plain", 5, True, None, "a.b"])
        else:
            out[k] = scalar(rng)
    return out


# --- documents a schema admits


def document(rng, s, path=()):
    t = s.get("type")
    if t == "object":
        if "properties" not in s:
            if s.get("additionalProperties") is False:
                return {}
            v = freeform(rng)
            if path and path[-1] in ("template", "expectResource", "currentResource") and rng.random() < 0.8:
                v = {**PAYLOAD, **v}
            return dict(list(v.items())[:s.get("maxProperties", 99)])
        branches = [set(b.get("required", ())) for b in s.get("oneOf") or s.get("anyOf") or []]
        chosen = rng.choice(branches) if branches else set()
        others = set().union(*branches) - chosen if s.get("oneOf") else set()
        need = set(s.get("required", ())) | chosen
        keys = [k for k in s["properties"] if k in need or (k not in others and rng.random() < 0.55)]
        if path and path[-1] == "testCases":
            claims = [k for k in keys if k.startswith("expect")]
            if len(claims) != 1 and rng.random() < 0.9:
                keys = [k for k in keys if k not in claims]
                keys.append(rng.choice([k for k in s["properties"] if k.startswith("expect")]))
        if rng.random() < 0.4:
            rng.shuffle(keys)
        return {k: document(rng, s["properties"][k], (*path, k)) for k in keys}
    if t == "array":
        n = rng.choice([0, 1, 1, 2, 3, 5, 20])
        n = max(s.get("minItems", 0), min(n, s.get("maxItems", 99)))
        return [document(rng, s["items"], path) for _ in range(n)]
    if t == "string":
        if "enum" in s:
            return rng.choice(s["enum"])
        if s.get("expression"):
            return expression(rng) if rng.random() < 0.85 else rng.choice(["=true", "x", "true"])
        last = path[-1] if path else ""
        if last == "name" and path[-2:-1] in (("functionRef",), ("ref",), ("cases",), ("overlayRef",)):
            return rng.choice(NAMES) if rng.random() < 0.9 else rng.choice(TEXTS)
        if last in ("name", "namespace", "message") and rng.random() < 0.4:
            return expression(rng)[:s.get("maxLength", 99999)]
        if last == "label":
            return rng.choice(["abc", "step_1", "step_2", "aaa", "step_3", "x" * 45])
        if last == "apiVersion":
            return rng.choice(["v1", "apps/v1", "x.example/v1", "/", "", "a/b/c", "x\x00/v1", "\ud800/v1", "v1/"])
        if last == "kind":
            return rng.choice(["ConfigMap", "Thing", "", "a.b", "a/b", "Na\x00me", "\ud800", "a b", "\u00e9", "Deployment", "1",
                               "x" * 3000, "__init__"])
        if last == "plural":
            return rng.choice(["things", "", "\x00", "\ud800", "Things"])
        if last == "case":
            return rng.choice(["a", "b", "c", "", "=x", "\ud800"])
        v = rng.choice(TEXTS)[:s.get("maxLength", 99999)]
        return v + "x" * max(0, s.get("minLength", 0) - len(v))
    if t == "boolean":
        return rng.random() < 0.5
    if t == "integer":
        return rng.choice([x for x in NUMBERS if isinstance(x, int)] + [1.0, 30.0])
    return anything(rng)


def paths(v, at=()):
    out = [at]
    if len(at) < 8:
        for k, x in list(v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ()):
            out += paths(x, (*at, k))
    return out


def get(v, at):
    for k in at:
        v = v[k]
    return v


def mutate(rng, spec):
    """One thing about it changed."""
    spec = clone(spec)
    at = rng.choice(paths(spec))
    if not at:
        if isinstance(spec, dict) and rng.random() < 0.7:
            r = rng.random()
            if r < 0.5 or not spec:
                spec[rng.choice(KEYS)] = anything(rng)
            else:
                del spec[rng.choice(list(spec))]
            return spec
        return anything(rng)
    parent, k = get(spec, at[:-1]), at[-1]
    v = parent[k]
    how = rng.choice(["any", "any", "drop", "wrap", "list", "unwrap", "copy", "more", "surplus", "rename", "null", "deep"])
    if how == "any":
        parent[k] = anything(rng)
    elif how == "null":
        parent[k] = None
    elif how == "deep":
        parent[k] = deep(rng)
    elif how == "drop":
        del parent[k]
    elif how == "wrap":
        parent[k] = {rng.choice(KEYS): v}
    elif how == "list":
        parent[k] = [clone(v) for _ in range(rng.choice([1, 2, 10, 11, 20, 21, 40]))]
    elif how == "unwrap" and isinstance(v, (list, dict)) and v:
        parent[k] = rng.choice(list(v.values()) if isinstance(v, dict) else v)
    elif how == "copy":
        parent[k] = clone(get(spec, rng.choice(paths(spec))))
    elif how == "more" and isinstance(v, list) and v:
        v.extend(clone(rng.choice(v)) for _ in range(rng.choice([1, 9, 20])))
    elif how == "surplus" and isinstance(v, dict):
        v[rng.choice(KEYS)] = anything(rng)
    elif how == "rename" and isinstance(parent, dict):
        parent[rng.choice(KEYS)] = parent.pop(k)
    else:
        parent[k] = scalar(rng)
    return spec


def spec(rng, schema):
    r = rng.random()
    if r < 0.06:
        return anything(rng)
    out = document(rng, schema)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 1, 2, 3, 5])):
        out = mutate(rng, out)
    return out


# --- expressions in every field which holds them

SLOTS = {
    "ValueFunction": ["preconditions", "message", "default", "locals", "locals-deep", "return", "return-deep", "return-list"],
    "ResourceFunction": ["preconditions", "postconditions", "locals", "name", "namespace", "resource", "template", "skipIf",
                         "overlay", "overlay-inputs", "create", "return"],
    "Workflow": ["skipIf", "itemIn", "inputs", "inputs-deep", "switchOn", "state"],
    "FunctionTest": ["overlayResource", "override"],
    "ResourceTemplate": ["template", "context"],
}
# several expressions to a definition, or one
SINGLE = {("ResourceFunction", "name"), ("ResourceFunction", "namespace"), ("ResourceFunction", "template"),
          ("ResourceFunction", "skipIf")}


def capacity(kind, slot):
    if (kind, slot) in SINGLE:
        return 1
    return 16


def place(kind, slot, texts):
    es = ["=" + t for t in texts]
    named = {f"e{k}": e for k, e in enumerate(es)}
    nested = {f"e{k}": {"x": [e, {"y": e}], "z": 1} for k, e in enumerate(es)}
    conditions = [{"assert": e, "skip": {"message": "m"}} for e in es]
    if kind == "ValueFunction":
        out = {"return": {"a": 1}}
        if slot == "preconditions":
            out["preconditions"] = conditions
        elif slot == "message":
            out["preconditions"] = [{"assert": "=true", "permFail": {"message": e}} for e in es]
        elif slot == "default":
            out["preconditions"] = [{"assert": "=true", "defaultReturn": {"a": e}, "skip": {"message": "x"}} for e in es]
        elif slot == "locals":
            out["locals"] = named
        elif slot == "locals-deep":
            out["locals"] = nested
        elif slot == "return":
            out["return"] = named
        elif slot == "return-deep":
            out["return"] = nested
        else:
            out["return"] = {"l": es}
        return out
    if kind == "ResourceFunction":
        out = {"apiConfig": {"apiVersion": "x.example/v1", "kind": "Thing", "plural": "things", "name": "n", "namespace": "ns"},
               "resource": {"a": 1}}
        if slot in ("preconditions", "postconditions"):
            out[slot] = conditions
        elif slot == "locals":
            out["locals"] = named
        elif slot in ("name", "namespace"):
            out["apiConfig"][slot] = es[0]
        elif slot == "resource":
            out["resource"] = named
        elif slot == "template":
            del out["resource"]
            out["resourceTemplateRef"] = {"name": es[0]}
        elif slot == "skipIf":
            out["overlays"] = [{"skipIf": e, "overlay": {"a": 1}} for e in es]
        elif slot == "overlay":
            out["overlays"] = [{"overlay": {"a": e, "b": {"c": e}}} for e in es]
        elif slot == "overlay-inputs":
            out["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "abc"}, "inputs": {"value": e}} for e in es]
        elif slot == "create":
            out["create"] = {"overlay": nested}
        else:
            out["return"] = named
        return out
    if kind == "Workflow":
        steps = []
        for k, e in enumerate(es):
            st = {"label": f"step_{k}", "ref": {"kind": "ValueFunction", "name": "abc"}}
            if slot == "skipIf":
                st["skipIf"] = e
            elif slot == "itemIn":
                st["forEach"] = {"itemIn": e, "inputKey": "i"}
            elif slot == "inputs":
                st["inputs"] = {"a": e}
            elif slot == "inputs-deep":
                st["inputs"] = {"a": [{"b": e}]}
            elif slot == "switchOn":
                del st["ref"]
                st["refSwitch"] = {"switchOn": e, "cases": [{"case": "a", "default": True, "kind": "ValueFunction",
                                                             "name": "abc"}]}
            else:
                st["state"] = {"a": e}
            steps.append(st)
        return {"steps": steps}
    if kind == "FunctionTest":
        return {"functionRef": {"kind": "ValueFunction", "name": "abc"},
                "testCases": [{("overlayResource" if slot == "overlayResource" else "inputOverrides"): {"a": e, "b": {"c": e}},
                               "expectReturn": {"a": 1}} for e in es]}
    return {"template": {**PAYLOAD, **(named if slot == "template" else {})}, "context": named if slot == "context" else {}}


# --- what definitions name


def ready(rng, kind):
    if kind == "ValueFunction":
        return rng.choice([{"return": {"a": 1}}, {"return": {"a": "=inputs.value"}}, {"return": {}},
                           {"preconditions": [{"assert": "=inputs.ok", "skip": {"message": "m"}}]},
                           {"locals": {"l": "=inputs.a.b"}, "return": {"a": "=locals.l"}}])
    if kind == "ResourceTemplate":
        return {"template": dict(PAYLOAD), "context": rng.choice([{}, {"a": 1}])}
    if kind == "Workflow":
        return {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "abc"}, "inputs": {"a": "=parent.b"}}]}
    api = {"apiVersion": "x.example/v1", "kind": "Thing", "plural": "things", "name": "n", "namespace": "ns"}
    name = rng.choice(["abc", "=inputs.t", "=locals.t", "='a' + inputs.t", "=inputs.t.u", "=inputs.t[0]", "=locals.t + 1", "=1",
                       "=inputs", "=template.name", "=size(inputs.t)", "=inputs.t()", "=f(inputs.t)", "=inputs.t.to_ref()",
                       "=locals.l.map(x, x)[0]", "=inputs.t == null ? 'a' : 'b'", "=1 / 0", "=[inputs.t][3]", "={}.a"])
    out = {"apiConfig": api, "resourceTemplateRef": {"name": name}}
    r = rng.random()
    if r < 0.15:
        out["locals"] = {"t": rng.choice([["=1 / 0"], ["=inputs.t.u.v"], {"u": ["=inputs.nope.x"]}, "=overlay([1], {1: 2})",
                                          "=[inputs.t.u.v]", "=[inputs.t][1]", "=('\\UFFFFFFFF').a", ["=f(1)"], ["=nothing"],
                                          "=[1 / 0][0]", "=getDate(timestamp('2020-01-01T00:00:00Z'), nope)"])}
    elif r < 0.3:
        e = expression(rng)
        if sum(e.count(m) for m in (".map(", ".filter(", ".all(", ".exists", ".reduce(")) < 2:
            out["locals"] = {"t": rng.choice([e, [e]])}
    elif r < 0.8:
        out["locals"] = rng.choice([
            {"t": "=inputs.t"}, {"t": "=inputs.nope.nope"}, {"t": "=1 / 0"}, {"t": "=inputs.t + 1"}, {"t": "='a'[0]"},
            {"t": "=[1][5]"}, {"t": "=int(inputs.t)"}, {"t": "=f(1)"}, {"t": "=inputs.t.u.v"}, {"t": "=nothing"},
            {"t": "=timestamp('x')"}, {"t": "=inputs.t.matches('(')"}, {"t": "=bytes('x')"}, {"t": "=inputs.map(k, k)"},
            {"t": "=inputs.l.map(k, k + 1)"}, {"t": "=dyn(inputs).x"}, {"t": "=inputs.t ? 1 : 2"}, {"t": "=-inputs.t"},
            {"t": "=duration('1x')"}, {"t": "='a' in inputs.t"}, {"t": "=inputs.t.overlay({'a': 1})"},
            {"t": "=to_ref(inputs.t)"}, {"t": "=group_ref(inputs)"}, {"t": "=config_connect_ready(inputs)"},
            {"t": "=template_name(inputs.t)"}, {"t": "=lower(inputs.t)"}, {"t": "=inputs.t.split('')"},
            {"t": "=split_index(inputs.t, ',', 9)"}, {"t": "=from_json(inputs.t)"}, {"t": "=b64decode(inputs.t)"},
            {"t": "=strip(inputs.t)"}, {"t": "=replace(inputs.t)"}, {"t": "=flatten(inputs.l)"}, {"t": "=has(inputs.t.u)"},
            {"t": "=(\"x\").y"}, {"t": "=google.protobuf.Any{}"}, {"t": "=inputs{a: 1}"}, {"t": "=to_json(inputs)"}])
    if rng.random() < 0.2:
        out.pop("resourceTemplateRef")
        out["resource"] = {}
    return out


def failing(rng, kind):
    if kind == "ValueFunction":
        return rng.choice([{}, {"return": {"a": "=1 +"}}, 5, None])
    if kind == "ResourceTemplate":
        return rng.choice([{}, {"template": {}}, {"template": {"kind": "K"}}])
    if kind == "Workflow":
        return rng.choice([{}, {"steps": 1}, {"steps": []}])
    return rng.choice([{}, {"apiConfig": {}}, {"apiConfig": {"apiVersion": "v1", "kind": "K", "name": "=("}, "resource": {}}])


INPUTS = [{}, {"t": "abc"}, {"t": 1}, {"t": None}, {"t": []}, {"t": {"u": "x"}}, {"t": ["abc"]}, {"l": [1, "a"]}, {"t": True},
          {"t": 1.5}, {"t": "\ud800"}, {"t": ""}, {"t": "=inputs"}, {"a": {"b": [None]}}, {"t": 2**70}, {"t": {"u": {"v": 1}}},
          {"": 1}, {"t": "(", "ok": False}]


def naming(rng):
    """A definition which names others -> (kind, spec, [(kind, name)])"""
    k = rng.choice(["Workflow", "ResourceFunction", "FunctionTest", "FunctionTest", "FunctionTest"])
    name = rng.choice(NAMES)
    if k == "FunctionTest":
        kind = rng.choice(["ResourceFunction", "ResourceFunction", "ResourceFunction", "ValueFunction"])
        out = {"functionRef": {"kind": kind, "name": name}}
        if rng.random() < 0.7:
            out["inputs"] = rng.choice(INPUTS)
        cases = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            c = {"expectReturn": {"a": 1}} if rng.random() < 0.7 else {"expectOutcome": rng.choice(
                [{"skip": {"message": "m"}}, {"retry": {"message": "m", "delay": rng.choice([1, 1.0, 2**70, -1])}}, {"ok": {}}])}
            if rng.random() < 0.6:
                c["inputOverrides"] = rng.choice(INPUTS)
            if rng.random() < 0.3:
                c["overlayResource"] = freeform(rng)
            cases.append(c)
        if cases:
            out["testCases"] = cases
        return k, out, [(kind, name), ("ResourceTemplate", "abc")]
    if k == "ResourceFunction":
        names = [rng.choice(NAMES) for _ in range(rng.choice([1, 2, 3]))]
        return k, {**place(k, "resource", ["1"]), "overlays": [
            {"overlayRef": {"kind": "ValueFunction", "name": n}, **({"inputs": freeform(rng)} if rng.random() < 0.6 else {})}
            for n in names]}, [("ValueFunction", n) for n in set(names)]
    steps, named = [], set()
    for j in range(rng.choice([1, 2, 3, 6])):
        refs = [{"kind": rng.choice(["ValueFunction", "ResourceFunction", "Workflow"]), "name": rng.choice(NAMES)}
                for _ in range(rng.choice([1, 1, 2, 3]))]
        named |= {(r["kind"], r["name"]) for r in refs}
        st = {"label": f"step_{j}"}
        if len(refs) == 1:
            st["ref"] = refs[0]
        else:
            st["refSwitch"] = {"switchOn": expression(rng), "cases": [
                {"case": f"c{rng.randrange(4)}", **r, **({"default": True} if rng.random() < 0.3 else {})} for r in refs]}
        if rng.random() < 0.4:
            st["inputs"] = freeform(rng)
        if rng.random() < 0.2:
            st["state"] = {"a": expression(rng)}
        steps.append(st)
    return k, {"steps": steps}, sorted(named)


def acyclic(v):
    """Workflows which are named by others name none themselves."""
    if isinstance(v, dict):
        v = {k: acyclic(x) for k, x in v.items()}
        return {**v, "name": "elsewhere"} if v.get("kind") == "Workflow" else v
    return [acyclic(x) for x in v] if isinstance(v, list) else v


def again(rng, schemas):
    """(kind, spec, events): the definition, and what happens to what it names."""
    kind, out, named = naming(rng)
    if rng.random() < 0.15:
        out = mutate(rng, out)
    events = []
    for _ in range(rng.choice([2, 3, 5])):
        dkind, dname = rng.choice(named)
        r = rng.random()
        if r < 0.6:
            events.append(("offer", dkind, dname, ready(rng, dkind)))
        elif r < 0.75:
            events.append(("offer", dkind, dname, acyclic(document(rng, schemas[dkind]))))
        elif r < 0.9:
            events.append(("offer", dkind, dname, failing(rng, dkind)))
        else:
            events.append(("delete", dkind, dname, None))
    return kind, out, events
