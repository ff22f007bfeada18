"""C01, C02, C03 (workflow level): Workflow.tla / WorkflowSem.tla /
WorkflowTrace.tla against real Workflows."""

import asyncio
import copy
import json

import wfgen
import wfharness as w
from cluster import Cluster
from common import guard

CFG = """CONSTANTS N = %d Kinds = {%s} Faults = {%s}
INIT Init
NEXT Next
INVARIANTS OnlyOnOk Confluent Contained NoDeadlock
%s
CHECK_DEADLOCK FALSE
"""


def names(xs):
    return ",".join(f'"{x}"' for x in xs)


# --- schedules


class Ordered:
    """Answers calls in a given order of (verb, name)."""

    def __init__(self, order):
        self.order = [tuple(o) for o in order]
        self.waiting = []
        self.driver = None

    async def __call__(self, req):
        if self.driver is None:
            self.driver = asyncio.ensure_future(self.drive())
        ev = asyncio.Event()
        entry = ((req["verb"], req["name"]), ev)
        self.waiting.append(entry)
        try:
            await ev.wait()
        finally:
            if entry in self.waiting:
                self.waiting.remove(entry)

    async def drive(self):
        todo = list(self.order)
        idle = 0
        while idle < 400:
            await asyncio.sleep(0.002)
            hit = next((x for x in self.waiting if todo and x[0] == todo[0]), None)
            if hit is None and idle > 5 and self.waiting:
                # the code is not as concurrent as the model: release anything
                hit = self.waiting[0]
            if hit is None:
                idle += 1
                continue
            idle = 0
            if todo and hit[0] == todo[0]:
                todo.pop(0)
            elif hit[0] in todo:
                todo.remove(hit[0])
            self.waiting.remove(hit)
            hit[1].set()


class Latencies:
    def __init__(self, rng, budget, most):
        self.rng, self.budget, self.most = rng, budget, most
        self.style = rng.choice(["spread", "spread", "yields", "slowfirst", "bimodal", "one", "one"])
        self.n = 0
        self.slow = rng.choice([1, 1, 2, 2, 3, 4, 5, 7])

    async def __call__(self, req):
        r = self.rng
        self.n += 1
        if self.style == "yields":
            for _ in range(r.randint(0, 30)):
                await asyncio.sleep(0)
            return
        if self.style == "one":
            # a single call takes nearly all of the time there is
            d = self.most * r.uniform(0.7, 1) if self.n == self.slow else r.random() * 0.02
        elif self.style == "slowfirst":
            d = self.budget / (1 + self.n)
        elif self.style == "bimodal":
            d = r.choice([0.0, self.budget * 0.98])
        else:
            d = r.random() * self.budget
        await asyncio.sleep(d)


def schedule(rng, case):
    bound = max(1, wfgen.depth_of(case["steps"]))
    return Latencies(rng, 8.5 / bound, 8.5)


def execute(built, gate):
    case = built.case
    cluster = Cluster()
    w.populate(cluster, case, built.owner_of)
    cluster.gate = gate
    rec = w.run_once(built, cluster)
    return rec


# --- the design model's behaviours


def from_model(entries, rng, limit):
    by_wf = {}
    for e in entries:
        by_wf.setdefault(json.dumps([e["steps"], e["world"]], sort_keys=True), []).append(e)
    keys = sorted(by_wf)
    # workflows with several schedules say more
    rng.shuffle(keys)
    keys.sort(key=lambda k: -min(4, len({json.dumps(e["order"]) for e in by_wf[k]})))
    half = keys[: limit // 2]
    rest = keys[limit // 2 :]
    half += rng.sample(rest, min(len(rest), limit - len(half)))
    return [(by_wf[k][0], by_wf[k]) for k in half]


def model_case(e):
    world = e["world"] if isinstance(e["world"], dict) else {}
    return {"mode": "workflow", "steps": e["steps"], "trigger": ["m", {}], "world": world}


MODEL_FUNCTIONS = [
    {"k": "vf", "name": "vf-ok", "mode": [], "obj": ["obj"], "delay": 5},
    *({"k": "vf", "name": f"vf-{m}", "mode": ["mode"], "obj": ["obj"], "delay": 5}
      for m in ("skip", "retry", "perm", "depskip")),
    {"k": "rf", "name": "rf-plain", "mode": [], "obj": ["obj"], "delay": 5},
    {"k": "rf", "name": "rf-one", "mode": [], "obj": ["obj"], "delay": 5},
    {"k": "make", "name": "make-plain", "mode": [], "obj": ["obj"], "delay": 5},
    {"k": "rf", "name": "rf-item", "mode": [], "obj": ["item"], "delay": 5},
]


def prepare_model_functions():
    async def go():
        for lg in MODEL_FUNCTIONS:
            await w.prepare_logic(lg)

    w.vloop.run(go())


def replay_model(ctx, entries, limit, per):
    prepare_model_functions()
    cases = []
    for first, group in from_model(entries, ctx.rng, limit):
        case = model_case(first)
        built = w.build(case, ctx.rng)
        orders = {json.dumps(e["order"]): e["order"] for e in group}
        picked = ctx.rng.sample(sorted(orders), min(per, len(orders)))
        case["runs"] = []
        for o in picked:
            case["runs"].append(w.slim(execute(built, Ordered(orders[o]))))
        case["spec"] = json.dumps(built.spec)
        cases.append(case)
    return cases


def random_cases(ctx, functions, count, schedules, **kw):
    cases = []
    rng = ctx.rng
    for n in range(count):
        size = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 9])
        if n % 12 == 0:
            size = rng.choice([12, 16, 20])
        case = wfgen.workflow(rng, functions, count=size, **kw)
        built = w.build(case, rng)
        case["runs"] = [w.slim(execute(built, None))] if n % 3 else []
        for _ in range(schedules):
            case["runs"].append(w.slim(execute(built, schedule(rng, case))))
        case["spec"] = json.dumps(built.spec)
        cases.append(case)
    return cases


JCFG = "INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n"


def corrupt(cases, prop, rng):
    out = []
    for c in cases:
        if len(out) >= 60:
            break
        c = copy.deepcopy(c)
        r = c["runs"][-1]
        kind = len(out) % 3
        if prop == "C01":
            if kind == 0 and r["calls"]:
                r["calls"] = r["calls"][1:]
            elif kind == 1:
                r["calls"].append("get:obj-unexpected")
            else:
                x = next((x for x in r["conds"] if x["r"] == "DepSkip"), None)
                if not x:
                    continue
                x["r"] = "Ready"
        elif prop == "C02":
            if len(c["runs"]) < 2:
                continue
            f = sorted(r["full"])[len(out) % 5]
            r["full"][f] += " "
        else:
            if r["over"]["c"] == "Retry":
                r["over"]["d"] = 1 if r["over"]["d"] else 2
                if r["over"]["ms"]:
                    r["over"]["ms"] = []
                elif not all("vf" == lg["k"] for _, lg in w.logics(c["steps"])):
                    continue
            elif r["over"]["c"] == "Ok":
                r["over"]["c"] = "Skip"
            elif r["over"]["c"] == "PermFail":
                r["over"]["c"] = "Retry"
            else:
                continue
        out.append(c)
    return out


def judge(ctx, cases, label):
    def info(i):
        return {"workflow": json.loads(cases[i]["spec"])}

    ctx.check_cases(
        "WorkflowTrace", [{k: v for k, v in c.items() if k != "spec"} for c in cases],
        replay_info=info, label=label, env={"PROP": ctx.prop}, cfg=JCFG, shards=8,
    )


def summary(ctx, cases):
    counts = {}
    for c in cases:
        for r in c["runs"]:
            for x in r["conds"]:
                counts[x["r"]] = counts.get(x["r"], 0) + 1
    ctx.coverage["step_conditions_seen"] = counts
    ctx.coverage["workflows"] = len(cases)
    ctx.coverage["schedules"] = sum(len(c["runs"]) for c in cases)
    ctx.coverage["largest_workflow_steps"] = max(len(c["steps"]) for c in cases)


def run_check(ctx):
    prop = ctx.prop
    kinds = {
        "C01": ["vok", "skip", "retry", "rok", "make", "skipif", "each", "switch"],
        "C02": ["vok", "skip", "rok", "make", "each"],
    }[prop]
    res = ctx.model_check(
        "Workflow", CFG % (3, names(kinds), "", "ACTION_CONSTRAINT Emit"), workers=4, min_states=10000
    )
    entries = res.prints("T")
    if not ctx.quick:
        ctx.model_check("Workflow", CFG % (4, names(["vok", "skip", "rok", "each"]), "", ""),
                        workers=8, timeout=3000, heap="8g")
    with guard(ctx.pick(400, 3000)):
        cases = replay_model(ctx, entries, ctx.pick(150, 1500), 4 if prop == "C02" else 2)
        functions = wfgen.Functions(per=8)
        if prop == "C01":
            cases += random_cases(ctx, functions, ctx.pick(400, 5000), 1,
                                  kinds=("vf", "vf", "rf", "make", "rec", "del"))
            cases += random_cases(ctx, functions, ctx.pick(250, 3000), 1,
                                  kinds=("vf", "rf", "rf"), err=0.0, modes=["ok", "ok", "ok", "skip", "retry"])
        else:
            cases += random_cases(ctx, functions, ctx.pick(260, 3000), 5, state="shared", err=0.0,
                                  kinds=("vf", "rf", "rf", "make", "rec"),
                                  modes=["ok"] * 8 + ["skip", "retry"])
            cases += random_cases(ctx, functions, ctx.pick(120, 1500), 4, state="shared",
                                  kinds=("vf", "rf", "rf", "make", "del"))
    ctx.log(f"{len(cases)} workflows executed")
    summary(ctx, cases)
    ctx.samples.append(json.loads(cases[-1]["spec"]))
    judge(ctx, cases, "workflows")
    if not ctx.violations:
        ctx.self_check(
            "WorkflowTrace",
            [{k: v for k, v in c.items() if k != "spec"}
             for c in corrupt(ctx.rng.sample(cases, min(len(cases), 300)), prop, ctx.rng)],
            min_n=20, env={"PROP": prop}, cfg=JCFG,
        )
