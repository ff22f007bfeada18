"""C09: faults in API calls inside a Workflow (Workflow.tla with faults,
WorkflowTrace.tla PassVerdict/FaultVerdict)."""

import asyncio
import copy
import itertools
import json

import httpx
import kr8s

import wfgen
import wfharness as w
from check_wf import CFG, JCFG, Ordered, from_model, model_case, names, prepare_model_functions, schedule
from cluster import Cluster, server_error
from common import MachineryError, guard
from values import enc

EXCEPTIONS = {
    "RuntimeError": lambda: RuntimeError("boom"),
    "KeyError": lambda: KeyError("gone"),
    "AttributeError": lambda: AttributeError("'NoneType' object has no attribute 'x'"),
    "ReadTimeout": lambda: httpx.ReadTimeout("slow"),
    "ConnectError": lambda: httpx.ConnectError("refused"),
    "RemoteProtocolError": lambda: httpx.RemoteProtocolError("cut"),
    "TimeoutError": lambda: asyncio.TimeoutError(),
    "CancelledError": lambda: asyncio.CancelledError(),
    "ConnectionResetError": lambda: ConnectionResetError(104, "reset"),
    "APITimeoutError": lambda: kr8s.APITimeoutError("timeout"),
    "NotFoundError": lambda: kr8s.NotFoundError("nope"),
    "403": lambda: server_error(403),
    "404": lambda: server_error(404),
    "409": lambda: server_error(409),
    "422": lambda: server_error(422),
    "401": lambda: server_error(401),
    "410": lambda: server_error(410),
    "429": lambda: server_error(429),
    "noresp": lambda: kr8s.ServerError("cut off"),
    "noresp-status": lambda: kr8s.ServerError("cut off", status="404"),
    "500": lambda: server_error(500),
    "503": lambda: server_error(503),
    "ValueError": lambda: ValueError("Kind not found."),
    "group": lambda: ExceptionGroup("many", [ValueError("a"), KeyError("b")]),
}


def make_fault(kind):
    if kind == "hang":
        return "hang"
    if kind == "hang-after":
        return ("after", "hang")
    if kind.startswith("after-"):
        return ("after", EXCEPTIONS[kind[6:]]())
    return EXCEPTIONS[kind]()


KINDS = ["hang", "hang-after", *EXCEPTIONS, *(f"after-{k}" for k in EXCEPTIONS)]
DEL = {"del"}


def is_true_answer(built, req, kind):
    """404 to the read of something to be deleted: nothing is wrong."""
    if kind in ("404", "after-404", "NotFoundError", "after-NotFoundError") and req["verb"] == "get":
        return any(lg["k"] == "del" and w.plural_of(lg) == req["plural"]
                   for _, lg in w.logics(built.case["steps"]))
    return False


def world_of(built, cluster):
    function = {w.plural_of(lg): lg["name"] for _, lg in w.logics(built.case["steps"]) if lg["k"] != "vf"}
    world = {}
    for (_, plural, _, name), obj in cluster.objects.items():
        if plural in function:
            good = obj.get("spec", {}).get("val") == name
            world[f"{function[plural]}/{name}"] = "good" if good else "stale"
    return world


def one_pass(built, cluster, faults, gate=None):
    """faults: {request index within the pass (lookups count): kind}"""
    count = itertools.count()
    hits = []

    def fault(req):
        n = next(count)
        match = faults.get(n, faults.get((req["verb"], req["name"])))
        if match is None:
            return None
        label = w.owner_label(built, req)
        if is_true_answer(built, req, match):
            # the API says it is not there: so it is not, for this pass
            for _, lg in w.logics(built.case["steps"]):
                if lg["k"] == "del" and w.plural_of(lg) == req["plural"]:
                    world.pop(f"{lg['name']}/{req['name']}", None)
        else:
            hits.append((n, label, match, req["verb"], req["name"]))
        return make_fault(match)

    world = world_of(built, cluster)
    looked = len(cluster.lookups)
    cluster.gate = gate
    cluster.fault = fault
    rec = w.run_once(built, cluster, limit=80.0)
    cluster.fault = None
    cluster.gate = None
    labels = {st["label"] for st in built.case["steps"]}
    # a lookup which was repeated within the pass may have recovered
    asked = cluster.lookups[looked:]
    hits = [h for h in hits if not (h[3] == "lookup" and asked.count(h[4]) > 1)]
    return {
        "raised": rec["raised"], "error": rec.get("error", ""), "ms": rec["ms"], "over": rec["over"],
        "conds": rec["conds"], "state": rec["state"],
        "calls": [f"{r['verb']}:{r['plural']}:{r['name']}" for r in rec["reqs"]],
        "owners": sorted({w.owner_label(built, r) for r in rec["reqs"]} & labels),
        "hit": sorted({h[1] for h in hits} & labels),
        "faults": [list(h) for h in hits],
        "world": world, "full": rec["full"], "requests": next(count),
    }


def fresh(built):
    cluster = Cluster()
    cluster.one_client = True
    w.populate(cluster, built.case, built.owner_of)
    cluster.lookup = Lookup()
    return cluster


class Lookup(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return k.split(".")[0].lower() + "s"


def settle(built, cluster, limit):
    """Fault-free passes until nothing changes any more."""
    prev = None
    n = 0
    for n in range(limit):
        mark = len(cluster.log)
        p = one_pass(built, cluster, {})
        quiet = not any(r["verb"] in ("create", "patch", "delete") for r in cluster.log[mark:])
        now = (p["full"]["outcome"], p["full"]["contents"], p["full"]["state"])
        if p["raised"]:
            break
        if quiet and prev == now:
            return {"settled": True, "outcome": now[0], "contents": now[1], "state": now[2]}, n + 1
        prev = now
    return {"settled": False, "outcome": "", "contents": "", "state": ""}, n + 1


def trim(p):
    return {k: v for k, v in p.items() if k not in ("full", "requests")}


def run_case(ctx, built, ref, plans, gate=None, limit=40):
    """plans: per faulty pass, {index or (verb, name): kind}"""
    cluster = fresh(built)
    passes = []
    for plan in plans:
        passes.append(trim(one_pass(built, cluster, plan, gate() if gate else None)))
    if not any(p["hit"] or p["faults"] for p in passes):
        return None
    last, _ = settle(built, cluster, limit)
    case = {
        "mode": "faults", "steps": built.case["steps"], "trigger": built.case["trigger"],
        "limit": 10050, "passes": passes, "ref": ref, "last": last,
    }
    return case


def from_design_model(ctx, entries, limit):
    prepare_model_functions()
    cases = []
    entries = [e for e in entries if e["fault"]]
    kinds = {
        "error": ["500", "409", "RuntimeError", "ReadTimeout"],
        "crash": ["CancelledError", "after-RuntimeError", "KeyError", "after-500"],
        "hang": ["hang", "hang-after"],
    }
    cache = {}
    ctx.rng.shuffle(entries)
    for e in entries[:limit]:
        key = json.dumps([e["steps"], e["world"]], sort_keys=True)
        if key not in cache:
            built = w.build(model_case(e), ctx.rng)
            ref, _ = settle(built, fresh(built), 12)
            cache[key] = (built, ref)
        built, ref = cache[key]
        (n, name, verb), fk = e["fault"]
        order = e["order"] + ([] if [verb, name] in e["order"] else [[verb, name]])
        case = run_case(
            ctx, built, ref, [{(verb, name): ctx.rng.choice(kinds[fk])}],
            gate=lambda: Ordered(order),
        )
        if case:
            case["spec"] = json.dumps(built.spec)
            cases.append(case)
    return cases


def random_workflow(ctx, functions, size):
    rng = ctx.rng
    case = wfgen.workflow(
        rng, functions, count=size, err=0.0, kinds=("vf", "rf", "make", "make", "rec", "del"),
        modes=["ok"] * 12 + ["skip", "retry"],
    )
    # what readonly functions wait for never appears by itself
    for name in list(case["world"]):
        if rng.random() < 0.35:
            case["world"][name] = rng.choice(["good", "stale"])
    return case


def random_cases(ctx, functions, workflows, per, exhaustive):
    """exhaustive: every call index of the first pass for these workflows."""
    rng = ctx.rng
    cases = []
    points = 0
    for n in range(workflows):
        case = random_workflow(ctx, functions, rng.choice([1, 2, 2, 3, 3, 4, 5]))
        built = w.build(case, rng)
        ref, passes = settle(built, fresh(built), 40)
        if not ref["settled"]:
            raise MachineryError("fault-free run does not settle: " + json.dumps(built.spec))
        probe = fresh(built)
        first = one_pass(built, probe, {})
        total = first["requests"]
        if not total:
            continue
        plans = []
        if n < exhaustive:
            for idx in range(min(total, 14)):
                plans += [[{idx: k}] for k in KINDS]
            points += min(total, 14)
        else:
            for _ in range(per):
                prefix = rng.choice([1, 1, 1, 2, 3])
                plan = []
                for _ in range(prefix):
                    hits = rng.sample(range(total), min(total, rng.choice([1, 1, 1, 2])))
                    plan.append({h: rng.choice(KINDS) for h in hits})
                plans.append(plan)
        for plan in plans:
            gate = None
            if rng.random() < 0.5:
                gate = lambda: schedule(rng, case)  # noqa: E731
            c = run_case(ctx, built, ref, plan, gate)
            if c:
                c["spec"] = json.dumps(built.spec)
                cases.append(c)
    ctx.coverage["exhaustive_call_points"] = points
    return cases


def lookup_cases(ctx, count):
    """Functions whose plural has to be looked up: the lookup can fail too."""
    rng = ctx.rng
    cases = []
    for n in range(count):
        tag = f"{ctx.seed}x{n}"
        steps, world = [], {}

        def build(v):
            steps.clear()
            size = 2 + n % 3
            logic = []
            for k in range(size):
                kind = ["rf", "make"][(n + k) % 2]
                # two steps may share the function, hence the lookup
                name = f"{kind}-lk{tag}v{v}x{k if n % 4 else 0}"
                if not n % 4:
                    kind = "make"
                    name = f"make-lk{tag}v{v}x0"
                logic.append({"k": kind, "name": name, "mode": [], "obj": ["obj"], "delay": 3})

            async def go():
                for lg in {x["name"]: x for x in logic}.values():
                    await w.prepare_logic(lg, dynamic_plural=True)

            w.vloop.run(go())
            for k, lg in enumerate(logic):
                inputs = [["obj", ["lit", ["s", f"o{k}"]]]]
                if k and n % 2:
                    inputs.append(["dep", ["step", f"step{k - 1}", []]])
                steps.append({
                    "label": f"step{k}", "inputs": inputs, "skipIf": ["no"], "each": ["no"],
                    "logic": lg, "state": [["e" + str(k), ["value", []]]], "cond": f"Cstep{k}",
                    "echo": "e" + str(k),
                })
            case = {"steps": copy.deepcopy(steps), "trigger": ["m", {}],
                    "world": {f"o{k}": "good" for k in range(size) if (n + k) % 2 == 0}}
            return w.build(case, rng)

        built = build("r")
        ref, _ = settle(built, fresh(built), 20)
        # names in the reference differ: compare with the version removed
        for v in range(3):
            b = build(str(v))
            kind = rng.choice([*KINDS, *["ValueError"] * 12])
            c = run_case(ctx, b, ref, [{rng.choice([0, 0, 1, 2]): kind}])
            if c:
                for part in ("outcome", "contents", "state"):
                    for old, key in (("r", "ref"), (str(v), "last")):
                        c[key] = {**c[key], part: "" if not isinstance(c[key][part], str) else
                                  c[key][part].replace(f"lk{tag}v{old}x", "lkx").replace(f"{tag}v{old}x", "x")
                                  .replace(b.name, "wf").replace(built.name, "wf")}
                c["spec"] = json.dumps(b.spec)
                cases.append(c)
    return cases


def corrupt(cases):
    out = []
    for c in cases:
        if len(out) >= 60:
            break
        c = copy.deepcopy(c)
        p = next((p for p in c["passes"] if p["hit"]), None)
        if p is None:
            continue
        kind = len(out) % 6
        if kind == 0:
            p["over"]["c"] = "Ok"
        elif kind == 1:
            p["ms"] = 30000
        elif kind == 2:
            p["conds"].append({"t": "Ready", "r": "Ready"})
        elif kind == 3:
            c["last"] = {**c["last"], "contents": c["last"]["contents"] + " "}
        elif kind == 4:
            p["raised"] = True
        else:
            st = next(s for s in c["steps"] if s["label"] in p["hit"])
            p["conds"].append({"t": st["cond"], "r": "Ready"})
        out.append(c)
    return out


def run(ctx):
    res = ctx.model_check(
        "Workflow",
        CFG % (3, names(["vok", "rok", "make"] + ([] if ctx.quick else ["each"])),
               names(["error", "crash", "hang"]), "ACTION_CONSTRAINT Emit"),
        workers=8, min_states=10000,
    )
    if not ctx.quick:
        ctx.model_check(
            "Workflow",
            CFG % (3, names(["vok", "skip", "retry", "rok", "rwait", "make", "each", "switch"]),
                   names(["error", "crash", "hang"]), ""),
            workers=8, timeout=3000, heap="8g",
        )
    entries = res.prints("T")
    with guard(ctx.pick(500, 3000)):
        cases = from_design_model(ctx, entries, ctx.pick(250, 3000))
        ctx.log(f"{len(cases)} design-model behaviours replayed")
        functions = wfgen.Functions(per=6)
        cases += random_cases(ctx, functions, ctx.pick(90, 1200), ctx.pick(9, 12), ctx.pick(6, 60))
        cases += lookup_cases(ctx, ctx.pick(24, 200))
    ctx.log(f"{len(cases)} fault histories executed")
    kinds = {}
    for c in cases:
        for p in c["passes"]:
            for f in p["faults"]:
                kinds[f[2]] = kinds.get(f[2], 0) + 1
    ctx.coverage["fault_kinds"] = kinds
    ctx.coverage["faulty_histories"] = len(cases)
    ctx.samples.append({"workflow": json.loads(cases[-1]["spec"]), "faults": cases[-1]["passes"][0]["faults"]})

    clean = [{k: v for k, v in c.items() if k != "spec"} for c in cases]
    ctx.check_cases("WorkflowTrace", clean, label="fault histories", env={"PROP": "C09"}, cfg=JCFG,
                    replay_info=lambda i: {"workflow": json.loads(cases[i]["spec"])}, shards=8)
    if not ctx.violations:
        ctx.self_check("WorkflowTrace", corrupt(ctx.rng.sample(clean, min(len(clean), 300))),
                       min_n=30, env={"PROP": "C09"}, cfg=JCFG)
