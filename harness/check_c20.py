"""C20: Prepare.tla / CelShapes.tla / PrepareTrace.tla against the real
preparers, called directly and through the cache."""

import asyncio
import copy
import itertools
import json
import multiprocessing
import random
import sys

import env  # noqa: F401
import celpy
import celpy.celparser
import kr8s.objects
from koreo import cache, registry, result
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.structure import Workflow

import crds
import preparegen as gen
from common import Hang, MachineryError, guard

KINDS = {"ValueFunction": (ValueFunction, prepare_value_function),
         "ResourceFunction": (ResourceFunction, prepare_resource_function),
         "ResourceTemplate": (ResourceTemplate, prepare_resource_template),
         "Workflow": (Workflow, prepare_workflow),
         "FunctionTest": (FunctionTest, prepare_function_test)}
MODEL = """CONSTANTS Engine = "%s" MaxBranch = %d Kinds = {%s}
INIT Init
NEXT Next
INVARIANTS Total Says Rejected First Going Sane
%s
CHECK_DEADLOCK FALSE
"""
SHAPES = """CONSTANTS MaxDepth = %d Engine = "%s" Leaves = "%s"
INIT Init
NEXT Next
INVARIANT Ends
%s
CHECK_DEADLOCK FALSE
"""
BROKEN = ["loose", "shallow", "blind", "late", "silent", "parse-raises", "odd-raises"]
BROKEN_WALKS = ["plain-receivers", "no-calls"]
WORKERS = 7
_n = itertools.count(1)


# --- what is worked on


class Watch:
    """Which of the compiling and looking-up functions are entered."""

    TOOL = 4

    def __init__(self):
        m = sys.monitoring
        self.codes = {}
        for what, fn in [("compile", celpy.Environment.compile), ("compile", celpy.Environment.program),
                         ("compile", celpy.celparser.CELParser.parse),
                         ("look-up", cache.get_resource_from_cache),
                         ("look-up", cache.get_resource_system_data_from_cache),
                         ("look-up", kr8s.objects.get_class), ("look-up", kr8s.objects.new_class)]:
            self.codes[getattr(fn, "func", fn).__code__] = what
        self.seen = set()
        m.use_tool_id(self.TOOL, "c20")
        m.register_callback(self.TOOL, m.events.PY_START, lambda code, _: self.seen.add(self.codes.get(code, "")))
        for code in self.codes:
            m.set_local_events(self.TOOL, code, m.events.PY_START)

    def close(self):
        sys.monitoring.free_tool_id(self.TOOL)


def describe(out):
    """(outcome, has a message)"""
    for cls, name in ((result.PermFail, "PermFail"), (result.Retry, "Retry"), (result.Skip, "Skip"),
                      (result.DepSkip, "DepSkip"), (result.Ok, "Ok")):
        if isinstance(out, cls):
            message = getattr(out, "message", None)
            return name, isinstance(message, str) and message != ""
    return "Prepared", True


def a_try(how, out, touched=(), shape=True, same=True, locals=False):
    name, message = ("raised", True) if out is _RAISED else describe(out)
    return {"how": how, "locals": locals, "out": name, "message": message, "touched": sorted(touched), "shape": shape, "same": same}


_RAISED = object()


def by_locals(kind, spec, err):
    """Whether `err` is what evaluating the locals of the Function under test
    raises for one of the test's cases (a known finding)."""
    if kind != "FunctionTest":
        return False
    try:
        fn = cache.get_resource_from_cache(ResourceFunction, spec["functionRef"]["name"])
        for case in spec["testCases"]:
            try:
                fn.local_values.evaluate({"inputs": celpy.json_to_cel(
                    merged(spec.get("inputs") or {}, case.get("inputOverrides") or {}))})
            except Exception as own:  # noqa: BLE001
                if type(own) is type(err) and str(own) == str(err):
                    return True
    except Exception:  # noqa: BLE001
        pass
    return False


def merged(base, over):
    if not isinstance(base, dict) or not isinstance(over, dict):
        return over
    return {**base, **{k: merged(base.get(k), v) for k, v in over.items()}}


def whole(cls, out):
    """Whether a preparer's answer is a prepared resource and what it watches."""
    return (isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], cls)
            and (out[1] is None or all(isinstance(r, registry.Resource) for r in out[1])))


async def attempt(watch, call, blame):
    """(result or _RAISED, what was entered, error, whether it is the locals')"""
    if watch:
        watch.seen.clear()
    try:
        with guard(60):
            out = await call()
        return out, set(watch.seen) if watch else (), None, False
    except asyncio.CancelledError:
        raise
    except (Exception, Hang) as err:  # noqa: BLE001
        return (_RAISED, set(watch.seen) if watch else (), f"{type(err).__name__}: {str(err)[:200]}", blame(err))


async def prepare_case(watch, kind, spec, name):
    cls, preparer = KINDS[kind]
    tries, errors = [], []
    given = gen.clone(spec)

    def blame(err):
        return by_locals(kind, spec, err)

    out, touched, err, mine = await attempt(watch, lambda: preparer(name, given), blame)
    errors.append(err)
    tries.append(a_try("direct", out, touched, shape=describe(out)[0] != "Prepared" or whole(cls, out), locals=mine))
    given = gen.clone(spec)
    out, touched, err, mine = await attempt(watch, lambda: cache.prepare_and_cache(
        resource_class=cls, preparer=preparer, metadata={"name": name, "resourceVersion": "1"}, spec=given), blame)
    errors.append(err)
    held = cache.get_resource_from_cache(cls, name)
    tries.append(a_try("cache", out, touched, shape=describe(out)[0] != "Prepared" or isinstance(out, cls),
                       same=out is _RAISED or held is out, locals=mine))
    await cache.delete_resource_from_cache(cls, {"name": name, "resourceVersion": "2"})
    return tries, [e for e in errors if e]


# --- worlds the definitions are prepared in


async def put(kind, name, spec):
    cls, preparer = KINDS[kind]
    return await cache.prepare_and_cache(resource_class=cls, preparer=preparer, spec=gen.clone(spec),
                                         metadata={"name": name, "resourceVersion": f"w{next(_n)}"})


async def furnish(world, rng):
    cache._reset_cache()
    await asyncio.sleep(0)
    if world == "empty":
        return
    for name in gen.NAMES:
        for kind in ("ValueFunction", "ResourceFunction", "ResourceTemplate", "Workflow"):
            spec = gen.ready(rng, kind) if world == "ready" else gen.failing(rng, kind)
            try:
                await put(kind, name, spec)
            except Exception:  # noqa: BLE001 - these are cases of their own
                pass


# --- prepared again, when what they name changes


async def again_case(kind, spec, events, name):
    """The definition, and then each of what it names offered or deleted."""
    cls, preparer = KINDS[kind]
    tries, errors = [], []

    async def recorder(key, given):
        before = asyncio.current_task() is main
        try:
            with guard(60):
                out = await preparer(key, given)
        except asyncio.CancelledError:
            raise
        except (Exception, Hang) as err:  # noqa: BLE001
            errors.append(f"{type(err).__name__}: {str(err)[:200]}")
            tries.append(a_try("cache" if before else "again", _RAISED, locals=by_locals(kind, spec, err)))
            raise RuntimeError("the preparer raised") from err
        tries.append(a_try("cache" if before else "again", out,
                           shape=describe(out)[0] != "Prepared" or whole(cls, out)))
        return out

    cache._reset_cache()
    await asyncio.sleep(0)
    main = asyncio.current_task()
    for k in range(-1, len(events)):
        if k < 0:
            call = cache.prepare_and_cache(resource_class=cls, preparer=recorder, spec=gen.clone(spec),
                                           metadata={"name": name, "resourceVersion": "1"})
        else:
            what, dkind, dname, dspec = events[k]
            if what == "delete":
                call = cache.delete_resource_from_cache(KINDS[dkind][0], {"name": dname, "resourceVersion": "z"})
            else:
                call = put(dkind, dname, dspec)
        try:
            await call
        except Exception as err:  # noqa: BLE001
            if "preparer raised" not in str(err):
                errors.append(f"{type(err).__name__}: {str(err)[:200]}")
                tries.append(a_try("cache" if k < 0 else "other", _RAISED))
        for _ in range(30):
            await asyncio.sleep(0)
    cache._reset_cache()
    return tries, errors


# --- running


def record(kind, spec, tries):
    return {"kind": kind, "doc": gen.tag(spec), "tries": tries}


def run_batch(job):
    """One worker's share: [(world, kind, spec, events)] -> [(record, info)]"""
    items, seed = job
    rng = random.Random(seed)
    sys.setrecursionlimit(1000)
    watch = Watch()

    async def go():
        out, world = [], None
        for w, kind, spec, events in items:
            name = f"def-{next(_n)}"
            if events is not None:
                tries, errors = await again_case(kind, spec, events, name)
                world = None
            else:
                if w != world:
                    await furnish(w, rng)
                    world = w
                tries, errors = await prepare_case(watch, kind, spec, name)
            out.append((record(kind, spec, tries), errors))
        cache._reset_cache()
        await asyncio.sleep(0)
        return out

    try:
        return asyncio.run(go())
    finally:
        watch.close()


def run_expressions(job):
    """[(kind, slot, [expression])] -> ([(record, errors)], expressions prepared)

    Expressions share a definition; when it is not prepared, each gets its own.
    """
    groups, _ = job
    watch = Watch()

    async def go():
        out, fine = [], 0
        await furnish("ready", random.Random(1))
        for kind, slot, texts in groups:
            todo = [texts]
            while todo:
                some = todo.pop()
                spec = gen.place(kind, slot, some)
                tries, errors = await prepare_case(watch, kind, spec, f"x-{next(_n)}")
                if all(t["out"] == "Prepared" for t in tries):
                    fine += len(some)
                elif len(some) > 1:
                    todo += [[t] for t in some]
                    continue
                out.append((record(kind, spec, tries), errors))
        return out, fine

    try:
        return asyncio.run(go())
    finally:
        watch.close()


def spread(pool, fn, items, seed):
    return pool.map(fn, [(p, f"{seed}-{k}") for k, p in enumerate(parts(items))], chunksize=1)


def known_history():
    """A test of a Function whose locals can not be evaluated."""
    fn = {"apiConfig": {"apiVersion": "apps.example.io/v1", "kind": "Thing", "plural": "things", "name": "a", "namespace": "b"},
          "locals": {"t": ["=1 / 0"]}, "resourceTemplateRef": {"name": "=inputs.name + locals.t[0]"}}
    test = {"functionRef": {"kind": "ResourceFunction", "name": "known-fn"}, "inputs": {"name": "x"},
            "testCases": [{"expectOutcome": {"ok": {}}}]}
    return "FunctionTest", test, [("offer", "ResourceFunction", "known-fn", fn)]


def again_info(item):
    return {"world": item[0], "spec": item[2], "events": item[3]}


def corrupt(rng, cases, schemas):
    """Records of preparers which do what C20 rules out."""
    out = []
    for c in cases:
        c = copy.deepcopy(c)
        t = rng.choice(c["tries"])
        r = rng.randrange(5)
        if r == 0:
            t["out"] = rng.choice(["raised", "Skip", "DepSkip", "Ok"])
        elif r == 1 and t["out"] in ("PermFail", "Retry"):
            t["message"] = False
        elif r == 2 and t["out"] == "Prepared":
            t["shape"] = False
        elif r == 3:
            t["same"] = False
        elif r == 4 and surely_bad(schemas[c["kind"]], c["doc"]) and t["out"] == "PermFail":
            if rng.random() < 0.5:
                t["out"], t["message"] = rng.choice(["Prepared", "Retry"]), True
            else:
                t["touched"] = [rng.choice(["compile", "look-up"])]
        else:
            continue
        out.append(c)
    return out


def surely_bad(schema, doc):
    """Violations which are beyond doubt at the top."""
    return doc[0] != "m" or any(k not in doc[1] for k in schema.get("required", ()))


def models(ctx, env_):
    out = {}
    kinds = '"ValueFunction", "ResourceFunction", "ResourceTemplate", "Workflow", "FunctionTest"'
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(max_workers=5) as ex:
        docs = ex.submit(ctx.model_check, "Prepare", MODEL % ("koreo", ctx.pick(4, 7), kinds, "ACTION_CONSTRAINT Emit"),
                         min_states=20000, workers=3, heap="4g", env=env_, timeout=ctx.pick(300, 800))
        shapes = ex.submit(ctx.model_check, "CelShapes", SHAPES % (2, "koreo", "all", "ACTION_CONSTRAINT Emit"),
                           min_states=90000, workers=2, heap="4g")
        bad = {e: ex.submit(ctx.tlc, "Prepare", MODEL % (e, 0, '"ValueFunction"', ""), env=env_, allow_violation=True)
               for e in BROKEN}
        walks = {e: ex.submit(ctx.tlc, "CelShapes", SHAPES % (2, e, "few", ""), allow_violation=True) for e in BROKEN_WALKS}
        far = None if ctx.quick else ex.submit(ctx.model_check, "CelShapes", SHAPES % (3, "koreo", "few", "ACTION_CONSTRAINT Emit"),
                                               min_states=500000, workers=4, heap="8g", timeout=800)
        for e, f in {**bad, **walks}.items():
            if not f.result().violated:
                raise MachineryError(f"the model accepts the broken engine {e}")
        out["docs"] = docs.result().prints("T")
        out["exprs"] = shapes.result().prints("T")
        if far:
            out["exprs"] += far.result().prints("T")
    ctx.coverage["broken_engines_rejected"] = BROKEN + BROKEN_WALKS
    return out


def run(ctx):
    schemas = crds.schemas()
    if set(schemas) != set(KINDS):
        raise MachineryError(f"schemas of {sorted(schemas)}")
    f = ctx.work / "schemas.json"
    f.write_text(json.dumps(schemas))
    env_ = {"SCHEMAS": str(f)}
    rng = ctx.rng
    with multiprocessing.get_context("fork").Pool(WORKERS, maxtasksperchild=4) as pool:
        # the pool first, so that the workers do not hold the model's states
        got = models(ctx, env_)
        docs = [(d["kind"], gen.untag(d["doc"])) for d in got["docs"]]
        seen = {}
        for kind, d in docs:
            seen.setdefault((kind, json.dumps(d, sort_keys=True)), (kind, d))
        docs = list(seen.values())
        worlds = ["empty", "ready", "failing"]
        items = [(w, k, d, None) for k, d in docs for w in (ctx.pick([rng.choice(worlds)], worlds))]
        items += [(rng.choice(worlds), k, gen.spec(rng, schemas[k]), None)
                  for k in (rng.choice(list(KINDS)) for _ in range(ctx.pick(9000, 60000)))]
        rng.shuffle(items)
        items.sort(key=lambda x: x[0])
        again = [("again", *gen.again(rng, schemas)) for _ in range(ctx.pick(2500, 20000))]
        again += [("again", *known_history())]
        done, info = [], []
        for part, res in zip(parts(items), spread(pool, run_batch, items, ctx.seed)):
            done += res
            info += part
        # too deep to be handed to another process
        deep = [("ready", k, d, None) for k in KINDS for d in deep_docs(rng, k, schemas)]
        done += run_batch((deep, ctx.seed))
        info += [None] * len(deep)
        ctx.log(f"{len(items)} specs prepared, {len(deep)} deep ones")
        for part, res in zip(parts(again), spread(pool, run_batch, again, ctx.seed)):
            done += res
            info += part
        ctx.log(f"{len(again)} histories of what is named")
        exprs = list(dict.fromkeys(got["exprs"]))
        rng.shuffle(exprs)
        exprs = exprs[:ctx.pick(14000, 400000)]
        exprs += [gen.expression(rng)[1:] for _ in range(ctx.pick(4000, 30000))]
        slots = [(k, s) for k in KINDS for s in gen.SLOTS[k]]
        groups, odd = [], [e[1:] for e in gen.ODD_EXPRESSIONS]
        at = 0
        for k, s in itertools.cycle(slots):
            n = gen.capacity(k, s)
            if at >= len(exprs):
                break
            groups.append((k, s, exprs[at:at + n]))
            at += n
        for k, s in slots:
            groups += [(k, s, [e]) for e in odd]
        fine = 0
        for res, n in spread(pool, run_expressions, groups, ctx.seed):
            done += res
            info += [None] * len(res)
            fine += n
        ctx.log(f"{len(exprs)} expressions in {len(groups)} definitions, {fine} prepared")
    cases = [d[0] for d in done]
    outs = {}
    for c in cases:
        for t in c["tries"]:
            outs[f"{t['how']}:{t['out']}"] = outs.get(f"{t['how']}:{t['out']}", 0) + 1
    ctx.coverage["outcomes"] = outs
    ctx.coverage["expressions_prepared"] = fine
    ctx.coverage["case_groups"] = {"specs": len(items), "histories": len(again), "expressions": len(exprs)}
    ctx.log(f"outcomes {outs}")
    raised = {}
    for (c, errors), _ in zip(done, info):
        for e in errors:
            raised[f"{c['kind']}: {e[:90]}"] = raised.get(f"{c['kind']}: {e[:90]}", 0) + 1
    for e in sorted(raised, key=raised.get)[-40:]:
        ctx.log(f"raised {raised[e]} times: {ascii(e)}")
    ctx.check_cases("PrepareTrace", cases, env=env_, shards=8,
                    replay_info=lambda i: {"errors": done[i][1], "item": info[i] and again_info(info[i])})
    if ctx.violations:
        return
    if min(outs.get(f"{h}:Prepared", 0) for h in ("direct", "cache", "again")) < 500:
        raise MachineryError(f"too little is prepared: {outs}")
    some = rng.sample([c for c in cases if all(t["out"] != "raised" for t in c["tries"])], 3000)
    ctx.self_check("PrepareTrace", corrupt(rng, some, schemas), label="preparations", min_n=300, env=env_)
    ctx.samples += [{"kind": c["kind"], "out": [t["out"] for t in c["tries"]], "doc": json.dumps(c["doc"])[:300]}
                    for c in rng.sample(cases, 5)]
    ctx.assumptions += ["x-kubernetes-validations rules of the bundled CRDs are not judged (JSON Schema part only)",
                        "1.0 as an integer and null for nullable properties may be accepted or rejected",
                        "specs are JSON values as Python's json module reads them"]


def parts(items):
    n = WORKERS * 3
    return [p for p in (items[k::n] for k in range(n)) if p]


def deep_docs(rng, kind, schemas):
    """Documents nested deeper than anyone writes them."""
    out = []
    for n in (250, 400, 700, 1200, 5000):
        out.append(gen.deep(rng, n))
        base = gen.document(random.Random(n), schemas[kind])
        spots = [p for p in gen.paths(base) if p]
        for _ in range(6):
            d = gen.clone(base)
            if spots:
                p = rng.choice(spots)
                gen.get(d, p[:-1])[p[-1]] = gen.deep(rng, n)
            out.append(d)
    free = {"ValueFunction": ["locals", "return"], "ResourceFunction": ["locals", "resource", "return"],
            "ResourceTemplate": ["template", "context"], "Workflow": [], "FunctionTest": ["inputs", "currentResource"]}
    for n in (60, 100, 250, 400, 700, 1200, 5000):
        for field in free[kind]:
            d = gen.place(kind, gen.SLOTS[kind][0], ["true"])
            d[field] = {**gen.PAYLOAD, "x": gen.deep(rng, n)}
            out.append(d)
    return out
