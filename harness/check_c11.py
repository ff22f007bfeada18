"""C11: Literal.tla / LiteralTrace.tla against real definitions.

Literal values are written into every block that takes them; what arrives in
the evaluated result or in the payload sent to the cluster is recorded and
judged by TLC.
"""

import copy
import decimal
import itertools
import math

import env  # noqa: F401
import celpy
from celpy import celtypes
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.workflow.structure import Workflow

import vloop
from cluster import Cluster
from common import guard
from rfharness import offer_ok

MODEL = """CONSTANTS Alphabet = {%s} MaxLen = %d Writer = "%s"
INIT Init
NEXT Next
INVARIANTS RoundTrip KeyTrip
%s
CHECK_DEADLOCK FALSE
"""
ALPHABET = [97, 34, 92, 110, 10, 13, 9, 61, 49, 45, 46, 101, 39, 32, 233]
BROKEN = ["raw-newlines", "no-backslash", "long-when-newline", "lookalikes", "bare-keys"]
OWNER = ("ns1", {"apiVersion": "v1", "kind": "Trigger", "name": "parent", "uid": "uid-parent",
                 "blockOwnerDeletion": True, "controller": False})
VERSION = "apps.example.io/v1"
_n = itertools.count(1)


class Failed(Exception):
    pass


# --- projection


def cps(s):
    return [ord(c) for c in str.__str__(s)]


def proj(v):
    if v is None or isinstance(v, celtypes.NullType):
        return ["z"]
    if isinstance(v, (bool, celtypes.BoolType)):
        return ["b", bool(v)]
    if isinstance(v, (celtypes.TimestampType, celtypes.DurationType)):
        return ["e", type(v).__name__]
    if isinstance(v, str):
        return ["s", cps(v)]
    if isinstance(v, int):
        return ["i", int(v) < 0, cps(str(abs(int(v)))) if int(v) else []]
    if isinstance(v, float):
        if not math.isfinite(v):
            return ["e", "infinite"]
        t = decimal.Decimal(float.__repr__(float(v))).as_tuple()
        digits, exp = "".join(map(str, t.digits)).lstrip("0"), t.exponent
        short = digits.rstrip("0")
        if not short:
            return ["f", False, [], 0]
        return ["f", bool(t.sign), cps(short), exp + len(digits) - len(short)]
    if isinstance(v, dict):
        if not all(isinstance(k, str) for k in v):
            return ["e", "key"]
        return ["m", sorted([cps(k), proj(x)] for k, x in v.items())]
    if isinstance(v, (list, tuple)):
        return ["l", [proj(x) for x in v]]
    return ["e", type(v).__name__]


# --- sites: where a literal map X may be written, and where it arrives


def value_of(res):
    if not isinstance(res, dict):
        raise Failed(f"{res!r}"[:200])
    return res


async def vf(spec, inputs=None):
    fn = await offer_ok(ValueFunction, prepare_value_function, f"vf-{next(_n)}", spec)
    return value_of(await reconcile_value_function(
        location="test", function=fn, inputs=inputs or celtypes.MapType()))


async def site_return(x):
    return await vf({"return": x})


async def site_return_nested(x):
    return (await vf({"return": {"v": x}}))["v"]


async def site_return_list(x):
    return (await vf({"return": {"v": [0, x]}}))["v"][1]


async def site_locals(x):
    return (await vf({"locals": {"v": x}, "return": {"v": "=locals.v"}}))["v"]


async def site_locals_top(x):
    return (await vf({"locals": x, "return": {"v": "=locals"}}))["v"]


async def workflow(step, sub=None):
    name = f"echo-{next(_n)}"
    await offer_ok(ValueFunction, prepare_value_function, name, {"return": {"v": "=inputs.v", "one": 1}})
    ref = {"kind": "ValueFunction", "name": name}
    if sub:
        inner = f"sub-{next(_n)}"
        await offer_ok(Workflow, prepare_workflow, inner, {"steps": [
            {"label": "inner", "ref": ref, "inputs": {"v": "=parent.v"}, "state": {"v": "=value.v"}}]})
        ref = {"kind": "Workflow", "name": inner}
    wf = await offer_ok(Workflow, prepare_workflow, f"wf-{next(_n)}", {"steps": [
        {"label": "the_step", "ref": ref, **step}]})
    res = await reconcile_workflow(
        api=Cluster().api(), workflow_key="wf", owner=copy.deepcopy(OWNER),
        trigger=celpy.json_to_cel({"metadata": {"name": "t"}}), workflow=wf)
    if res.state_errors or not isinstance(res.state, dict) or "out" not in res.state:
        raise Failed(f"{res.result!r}"[:200])
    return res.state["out"]


async def site_inputs(x):
    return await workflow({"inputs": {"v": x}, "state": {"out": "=value.v"}})


async def site_sub_inputs(x):
    return (await workflow({"inputs": {"v": x}, "state": {"out": "=value"}}, sub=True))["v"]


async def site_foreach_inputs(x):
    return (await workflow({"forEach": {"itemIn": "=[1, 2]", "inputKey": "i"}, "inputs": {"v": x},
                            "state": {"out": "=value.map(r, r.v)"}}))[1]


async def site_state(x):
    return await workflow({"inputs": {"v": 1}, "state": {"out": x}})


async def rf(spec, live=None, template=None, pick="create"):
    kind = f"Thing{next(_n)}"
    plural = kind.lower() + "s"
    cluster = Cluster()
    spec = {"apiConfig": {"apiVersion": VERSION, "kind": kind, "plural": plural, "name": "obj",
                          "namespace": "ns1"}, **spec}
    if template is not None:
        tname = f"tpl-{next(_n)}"
        await offer_ok(ResourceTemplate, prepare_resource_template, tname,
                       {"template": {"apiVersion": VERSION, "kind": kind, **template}})
        spec["resourceTemplateRef"] = {"name": tname}
    if live is not None:
        cluster.put(VERSION, plural, "ns1", "obj", {
            "apiVersion": VERSION, "kind": kind,
            "metadata": {"name": "obj", "namespace": "ns1", "uid": "u", "resourceVersion": "1"}, **live})
    fn = await offer_ok(ResourceFunction, prepare_resource_function, f"rf-{next(_n)}", spec)

    async def once():
        return await reconcile_resource_function(
            api=cluster.api(), location="test", function=fn, owner=copy.deepcopy(OWNER),
            inputs=celtypes.MapType())

    res = await once()
    if pick == "return":
        return value_of((await once()).outcome)
    for r in cluster.log:
        if r["verb"] == pick:
            return r["body"]
    raise Failed(f"{res.outcome!r}"[:200])


async def site_resource(x):
    return (await rf({"resource": {"spec": x}}))["spec"]


async def site_resource_patch(x):
    return (await rf({"resource": {"spec": x, "mark": "new"}}, live={"mark": "old"}, pick="patch"))["spec"]


async def site_resource_local(x):
    return (await rf({"locals": {"v": x}, "resource": {"spec": "=locals.v"}}))["spec"]


async def site_overlay(x):
    return (await rf({"resource": {"a": 1}, "overlays": [
        {"overlay": {"b": 2}}, {"overlay": {"z": {"spec": x}, "c": 3}}]}))["z"]["spec"]


async def site_overlay_ref(x):
    name = f"ov-{next(_n)}"
    await offer_ok(ValueFunction, prepare_value_function, name, {"return": {"spec": x}})
    return (await rf({"resource": {"a": 1}, "overlays": [
        {"overlayRef": {"kind": "ValueFunction", "name": name}}]}))["spec"]


async def site_overlay_inputs(x):
    name = f"ov-{next(_n)}"
    await offer_ok(ValueFunction, prepare_value_function, name, {"return": {"spec": "=inputs.v"}})
    return (await rf({"resource": {"a": 1}, "overlays": [
        {"overlayRef": {"kind": "ValueFunction", "name": name}, "inputs": {"v": x}}]}))["spec"]


async def site_create(x):
    return (await rf({"resource": {"a": 1}, "create": {"overlay": {"spec": x}}}))["spec"]


async def site_template(x):
    return (await rf({}, template={"spec": x}))["spec"]


async def site_rf_return(x):
    return (await rf({"resource": {"a": 1}, "return": {"v": x}}, pick="return"))["v"]


async def site_rf_return_top(x):
    return await rf({"resource": {"a": 1}, "return": x}, pick="return")


SITES = {k.removeprefix("site_"): f for k, f in list(globals().items()) if k.startswith("site_")}
MERGES = {"overlay", "overlay_ref", "create", "rf_return_top", "return"}


async def deliver(site, x):
    try:
        return proj(await SITES[site](copy.deepcopy(x)))
    except Exception as err:
        return ["e", f"{type(err).__name__}: {err}"[:160].encode("ascii", "replace").decode()]


def execute(site, x):
    """Cases for the map x written at the site; failures are singled out."""
    async def go():
        got = await deliver(site, x)
        if got[0] == "e" and len(x) > 1:
            out = []
            for k, v in x.items():
                one = {k: v}
                res = await deliver(site, one)
                if res[0] == "e":
                    out.append((one, res))
            return out or [(x, got)]
        return [(x, got)]

    return [{"at": site, "w": proj(w), "d": d} for w, d in vloop.run(go())[0]]


# --- values

TOUGH = ['"', "'", '"""', "'''", "\\", "\\\\", "\n", "\r", "\r\n", "\t", " ", "  ", "\x00", "\x07", "\x1b", "\x7f",
         "\x85", "\u2028", "\ufeff", "é", "日本", "\U0001f600", "\\n", "\\t", "\\x41", "\\u0041", "\\101", "\\\"",
         "//", "/*", "{", "}", "[", "]", "(", ")", ",", ":", "=", "%", "$", "#", "`", "r\"", "b'", "${x}", "{{x}}",
         "true", "null", "inf", "nan", "e", "E", "-", "+", ".", "_", "0", "1", "9", "x", "u", "abc", "A b"]
WORDS = ["inf", "-inf", "+inf", "Infinity", "nan", "NaN", "-nan", "1_000", "1_0.5", "0x1F", "0b1", "0o7", "1u", "5L",
         " 5", "5 ", "\t5", "5\n", "\n5", "+5", "-", "--5", "- 5", ".5", "5.", "-.5", "1e", "e5", "1e+", "1.e5", "1.5.2", "1,000",
         "1e5x", "٥", "１２", "²", "true", "false", "True", "null", "None", "", " ", "\n", "\\", "\"", "''", "\"\"",
         "inputs.x", "1 + 1", "a=b", " =1", "'='", "2024-01-01", "2024-01-01T00:00:00Z", "1h", "10Gi", "100m",
         "1.2.3", "v1", "0x", "::1", "10.0.0.1", "yes", "no", "~", "NULL", "-0x1", "1e5e5", "0-0", "1/2"]
NUMERALS = ["0", "-0", "5", "-5", "007", "-007", "00", "0.0", "-0.0", "1.5", "-1.5", "01.50", "1e5", "1E5", "1e+5", "1e-5",
            "-1.25e-3", "0e0", "0.1", "100", "1.0", "123456789012345", "0.000001", "9223372036854775807",
            "-9223372036854775808", "1e22", "1e-7", "1.10", "10.0e1", "9007199254740993", "1e100", "-2.5E+10"]
INTS = [0, 1, -1, 7, 2**31, -(2**31), 2**53 + 1, 2**63 - 1, -(2**63), -(2**63) + 1, 10**18]
FLOATS = [0.0, -0.0, 0.5, -1.5, 1.0, 1e16, 1e22, 1.5e300, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3, -1e-7, 123456.789,
          2.0**53, 1e-5, 99.0]


def numeral(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice(NUMERALS)
    digits = lambda a, b: "".join(rng.choice("0123456789") for _ in range(rng.randint(a, b)))  # noqa: E731
    s = rng.choice(["", "", "-"]) + digits(1, 8)
    if rng.random() < 0.5:
        s += "." + digits(1, 5)
    if rng.random() < 0.4:
        s += rng.choice("eE") + rng.choice(["", "+", "-"]) + digits(1, 2)
    return s


def string(rng, key=False):
    r = rng.random()
    if r < 0.12:
        s = numeral(rng)
        if not key:
            return s
    elif r < 0.16:
        # nearly a numeral
        s = numeral(rng)
        k = rng.randint(0, len(s))
        s = s[:k] + rng.choice(["_", " ", "\n", "x", "+", "e", ".", "'", "\\", ",", "−"]) + s[k:]
    elif r < 0.3:
        s = rng.choice(WORDS)
    elif r < 0.8:
        s = "".join(rng.choice(TOUGH) for _ in range(rng.randint(1, 8)))
    elif r < 0.9:
        s = "".join(chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0x2FF), rng.randint(0xE000, 0x10FFFF)]))
                    for _ in range(rng.randint(1, 12)))
    elif r < 0.97:
        s = "".join(rng.choice("\"\\'\nrnu1 ") for _ in range(rng.randint(1, 10)))
    else:
        s = "".join(rng.choice(TOUGH) for _ in range(rng.randint(50, 400)))
    if not key and s.startswith("="):
        s = "x" + s
    if key and s.startswith("x-koreo"):
        s = "k"
    return s


def value(rng, depth=0):
    r = rng.random()
    if depth < 5 and r < 0.2:
        return {string(rng, True): value(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))}
    if depth < 5 and r < 0.34:
        return [value(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
    if r < 0.82:
        return string(rng)
    if r < 0.88:
        return rng.choice([*INTS, rng.randint(-(2**63), 2**63 - 1), rng.randint(-999, 999)])
    if r < 0.94:
        return rng.choice([*FLOATS, rng.uniform(-1e6, 1e6), rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)])
    return rng.choice([True, False, None])


def document(rng, n):
    out = {}
    while len(out) < n:
        out[string(rng, True) if rng.random() < 0.5 else f"k{len(out)}"] = value(rng)
    return out


def large(rng):
    """Long texts, long lists, wide maps, and deep nesting."""
    def text(n):
        return "x" + "".join(rng.choice(TOUGH) for _ in range(n))

    deep = string(rng)
    for k in range(rng.randint(8, 20)):
        deep = {f"d{k}": deep} if rng.random() < 0.6 else [deep]
    return [
        {"long": text(rng.randint(4200, 9000)), text(300): "k"},
        {"list": [rng.choice([k, string(rng), None]) for k in range(rng.randint(150, 400))],
         **{f"w{k}": k for k in range(rng.randint(60, 150))}},
        {"deep": deep},
    ]


def chunks(xs, n):
    for k in range(0, len(xs), n):
        yield xs[k : k + n]


def corrupt(rng, cases):
    """Recorded cases, with something else delivered."""
    out = []

    def leaves(v, path=()):
        if v[0] == "l":
            for k, x in enumerate(v[1]):
                yield from leaves(x, (*path, 1, k))
        elif v[0] == "m":
            for k, (_, x) in enumerate(v[1]):
                yield from leaves(x, (*path, 1, k, 1))
        yield path

    def put(v, path, fn):
        if not path:
            return fn(v)
        v = list(v)
        v[path[0]] = put(v[path[0]], path[1:], fn)
        return v

    def alter(v):
        k = v[0]
        if k == "s":
            w = list(v[1])
            r = rng.randrange(5)
            if r == 0:
                w.append(32)
            elif r == 1 and w:
                w.pop(rng.randrange(len(w)))
            elif r == 2 and w:
                w[rng.randrange(len(w))] ^= 1
            elif r == 3:
                w.insert(rng.randint(0, len(w)), 92)
            else:
                return ["z"]
            return ["s", w]
        if k == "i":
            return rng.choice([["f", v[1], v[2], 0], ["i", v[1], v[2] + [49]], ["s", v[2]], ["b", True]])
        if k == "f":
            return rng.choice([["i", v[1], v[2]], ["f", not v[1], v[2], v[3]] if v[2] else ["z"],
                               ["f", v[1], [49, *v[2]], v[3]]])
        if k == "b":
            return rng.choice([["b", not v[1]], ["i", False, [49] if v[1] else []]])
        if k == "z":
            return rng.choice([["s", cps("null")], ["b", False], ["m", []]])
        if k == "l":
            return ["l", v[1][:-1]] if v[1] else ["z"]
        if k == "m":
            if v[1] and rng.random() < 0.5:
                key, x = v[1][0]
                return ["m", [[key + [32], x], *v[1][1:]]]
            return ["m", v[1][:-1]] if v[1] else ["l", []]
        return v

    for c in cases:
        places = list(leaves(c["d"]))
        out.append({**c, "d": put(copy.deepcopy(c["d"]), rng.choice(places), alter)})
    return out


def run(ctx):
    rng = ctx.rng
    res = ctx.model_check("Literal", MODEL % (",".join(map(str, ALPHABET)), 3, "koreo", "ACTION_CONSTRAINT Emit"),
                          min_states=3000, workers=1)
    texts = ["".join(map(chr, t)) for t in res.prints("T")]
    ctx.model_check("Literal", MODEL % (",".join(map(str, ALPHABET)), ctx.pick(4, 5), "koreo", ""),
                    min_states=50000, workers=8, timeout=2400)
    for writer in BROKEN:
        res = ctx.tlc("Literal", MODEL % (",".join(map(str, ALPHABET)), 3, writer, ""), allow_violation=True)
        if not res.violated:
            raise RuntimeError(f"the model does not tell {writer} apart")
    ctx.coverage["broken_writers_rejected_by_the_model"] = BROKEN
    texts = [t for t in [*texts, "", *WORDS, *NUMERALS] if not t.startswith("=")]
    sites = sorted(SITES)
    cases = []
    with guard(ctx.pick(500, 3000)):
        # every text of the model, as a value and as a key
        for k, some in enumerate(chunks(texts, 20)):
            x = {f"k{j}": t for j, t in enumerate(some)} | {t: [t, {"in": t}] for t in some[:10]}
            cases.extend(execute(sites[k % len(sites)], x))
            if not ctx.quick:
                for site in sites:
                    cases.extend(execute(site, x))
        ctx.log(f"{len(texts)} texts of the model written ({len(cases)} definitions)")
        for site in sites:
            # alone, and nothing at all
            for x in ({}, {"a": {}}, {"a": []}, {"a": [[]]}, {"": ""}, {"a": None}, {"a": {"b": {}, "c": {}}, "d": {}}):
                if not x and site in ("overlay", "overlay_ref", "create", "rf_return_top", "inputs", "sub_inputs"):
                    continue
                cases.extend(execute(site, x))
            for x in large(rng):
                cases.extend(execute(site, x))
            for _ in range(ctx.pick(45, 400)):
                cases.extend(execute(site, document(rng, rng.choice([1, 2, 4, 8]))))
    counts = {}
    for c in cases:
        counts[c["at"]] = counts.get(c["at"], 0) + 1
    ctx.coverage["definitions_by_site"] = counts
    ctx.coverage["characters"] = len(set(ch for t in texts for ch in t))
    ctx.samples.append(cases[-1])
    ctx.check_cases("LiteralTrace", cases, label="definitions", shards=8, replay_info=lambda i: show(cases[i]))
    if not ctx.violations:
        ctx.self_check("LiteralTrace", corrupt(rng, rng.sample(cases, min(len(cases), ctx.pick(400, 3000)))), min_n=100)


def show(case):
    def back(v):
        if v[0] == "s":
            return "".join(map(chr, v[1]))
        if v[0] == "l":
            return [back(x) for x in v[1]]
        if v[0] == "m":
            return [["".join(map(chr, k)), back(x)] for k, x in v[1]]
        return v

    return {"at": case["at"], "written": back(case["w"]), "delivered": back(case["d"])}


