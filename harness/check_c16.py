"""C16: hot reload coherence (HotReload.tla / HotReloadTrace.tla)."""

import asyncio
import copy
import itertools
import multiprocessing as mp

import env  # noqa: F401
from koreo import cache, registry
from koreo.result import PermFail

from common import MachineryError, guard

_uniq = itertools.count(1)


class KindA: ...


class KindB: ...


class Prepared:
    def __init__(self, n):
        self.n = n


def id_of(x):
    if x is None:
        return 0
    if isinstance(x, Prepared):
        return x.n
    if isinstance(x, PermFail) and (x.message or "").startswith("prep"):
        return int(x.message[4:])
    return -1


class Driver:
    def __init__(self, names):
        tag = next(_uniq)
        kinds = [KindA, KindB]
        self.names = names
        # neighbours share the name and differ in kind
        self.res = {
            n: (kinds[k % 2], f"r{k // 2}-{tag}") for k, n in enumerate(names)
        }
        self.keys = {n: registry.Resource(*self.res[n]) for n in names}
        self.back = {v: k for k, v in self.keys.items()}
        self.by_cls_name = {v: k for k, v in self.res.items()}
        self.events = []
        self.ids = itertools.count(1)
        self.vers = itertools.count(1)
        self.offers = itertools.count(1)
        self.tasks = []
        self.preparers = {n: self.preparer(n) for n in names}

    def current(self, n):
        return id_of(cache.get_resource_from_cache(*self.res[n]))

    def preparer(self, n):
        async def prepare(name, spec):
            if self.by_cls_name[(self.res[n][0], name)] != n:
                raise AssertionError("prepared under another name")
            pid = next(self.ids)
            deps = list(spec["deps"])
            reads = {}
            late = spec.get("late", [])
            dyn = spec.get("dyn")
            if dyn and self.current(dyn[0]):
                deps += [d for d in dyn[1] if d not in deps]
            for d in deps:
                if d not in late:
                    reads[d] = self.current(d)
            for _ in range(spec["delay"]):
                await asyncio.sleep(0)
            for d in deps:
                if d in late:
                    reads[d] = self.current(d)
            ver = spec.pop("ver", 0)  # preparers may consume their copy
            fail = spec.get("fail")
            self.events.append(
                {
                    "ev": "prep",
                    "n": n,
                    "id": pid,
                    "ver": ver,
                    "reads": {x: reads.get(x, 0) for x in self.names},
                    "deps": [] if fail else deps,
                }
            )
            spec["deps"] = None
            if fail:
                return PermFail(message=f"prep{pid}")
            return Prepared(pid), [self.keys[d] for d in deps] or None

        return prepare

    async def offer(self, n, spec, ver):
        num = next(self.offers)
        self.events.append({"ev": "offer", "n": n, "ver": ver, "o": num})
        try:
            await cache.prepare_and_cache(
                resource_class=self.res[n][0],
                preparer=self.preparers[n],
                metadata={"name": self.res[n][1], "resourceVersion": f"v{ver}"},
                spec={**spec, "ver": ver},
            )
        except Exception as err:
            self.events.append({"ev": "raised", "n": n, "error": repr(err)[:200]})
        self.events.append({"ev": "done", "n": n, "ver": ver, "o": num})

    async def delete(self, n):
        self.events.append({"ev": "delete", "n": n})
        try:
            await cache.delete_from_cache(*self.res[n])
        except Exception as err:
            self.events.append({"ev": "raised", "n": n, "error": repr(err)[:200]})
        self.events.append({"ev": "deleted", "n": n})

    def idle_event(self):
        cached = {}
        for n in self.names:
            d = cache.get_resource_system_data_from_cache(*self.res[n])
            cached[n] = {
                "id": self.current(n),
                "ver": int(d.resource_version[1:]) if d else 0,
            }
        return {
            "ev": "idle",
            "cached": cached,
            "watching": {
                n: sorted(self.back[x] for x in registry.get_subscriptions(self.keys[n]))
                for n in self.names
            },
            "watchers": {
                n: sorted(self.back[x] for x in registry.get_subscribers(self.keys[n]))
                for n in self.names
            },
        }

    async def settle(self):
        """Let everything run until nothing is prepared any more."""
        quiet = 0
        seen = -1
        for _ in range(3000):
            await asyncio.sleep(0)
            pending = [t for t in self.tasks if not t.done()]
            quiet = quiet + 1 if len(self.events) == seen and not pending else 0
            seen = len(self.events)
            if quiet > 25:
                return
        self.events.append({"ev": "raised", "n": "", "error": "never idle"})

    async def run(self, script):
        base = set(asyncio.all_tasks())
        last_ver = {}
        for o in script:
            for _ in range(o.get("gap", 0)):
                await asyncio.sleep(0)
            n = o["n"]
            if o["op"] == "offer":
                ver = next(self.vers)
                if o.get("same") and n in last_ver:
                    ver = last_ver[n]
                last_ver[n] = ver
                spec = {
                    k: o[k] for k in ("deps", "delay", "fail", "late", "dyn") if k in o
                }
                if o.get("bg"):
                    self.tasks.append(asyncio.ensure_future(self.offer(n, spec, ver)))
                else:
                    await self.offer(n, spec, ver)
            elif o["op"] == "delete":
                if o.get("bg"):
                    self.tasks.append(asyncio.ensure_future(self.delete(n)))
                else:
                    await self.delete(n)
            elif o["op"] == "idle":
                await self.settle()
                self.events.append(self.idle_event())
        await self.settle()
        self.events.append(self.idle_event())
        # a change of each present definition must still reach its dependents
        for n in self.names:
            if self.current(n):
                d = cache.get_resource_system_data_from_cache(*self.res[n])
                await self.offer(
                    n, {**{"deps": []}, **d.spec, "delay": 0}, next(self.vers)
                )
                await self.settle()
                self.events.append(self.idle_event())
        for n in self.names:
            await self.delete(n)
        await self.settle()
        self.events.append(self.idle_event())
        left = [t for t in asyncio.all_tasks() if t not in base and not t.done()]
        self.events.append({"ev": "end", "tasks": len(left)})
        for t in left:
            t.cancel()
        cache._reset_cache()


async def _one(names, script):
    d = Driver(names)
    await d.run(script)
    return {"names": names, "events": d.events}


def replay(args):
    names, script = args
    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda *_: None)
    try:
        with guard(30):
            return loop.run_until_complete(_one(names, script))
    finally:
        loop.close()


def replay_many(jobs, procs=8):
    if len(jobs) < 200:
        return [replay(j) for j in jobs]
    with mp.get_context("fork").Pool(procs) as pool:
        return pool.map(replay, jobs, chunksize=max(1, len(jobs) // (procs * 8)))


DEPS = {"a": [], "b": ["a"], "c": ["a", "b"], "d": ["b"], "e": ["c", "d"]}


def expand(script, bg):
    """A generated schedule, after initial offers of all its definitions."""
    pre = [
        {"op": "offer", "n": n, "deps": DEPS[n], "delay": 0}
        for n in ("a", "b", "c")[: 3]
    ]
    ops = []
    for k, o in enumerate(script):
        e = dict(o)
        if e["op"] == "offer":
            e["deps"] = DEPS[e["n"]]
            e["bg"] = bg or e["delay"] > 0
        ops.append(e)
    return pre + [{"op": "idle", "n": ""}] + ops


def random_script(rng, names, length):
    ops = []
    for _ in range(length):
        n = rng.choice(names)
        below = names[: names.index(n)]
        x = rng.random()
        gap = rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 9])
        if x < 0.62:
            deps = sorted(rng.sample(below, rng.randint(0, min(3, len(below)))))
            if rng.random() < 0.5 and below:
                deps = sorted(set(deps) | {rng.choice(below)})
            o = {
                "op": "offer",
                "n": n,
                "deps": deps,
                "delay": rng.choice([0, 0, 0, 1, 2, 4]),
                "gap": gap,
                "bg": rng.random() < 0.5,
            }
            if rng.random() < 0.12:
                o["fail"] = True
            if deps and rng.random() < 0.3:
                o["late"] = [rng.choice(deps)]
            if len(deps) > 0 and len(below) > 1 and rng.random() < 0.25:
                o["dyn"] = [deps[0], [rng.choice(below)]]
            if rng.random() < 0.1:
                o["same"] = True
        elif x < 0.9:
            o = {"op": "delete", "n": n, "gap": gap, "bg": rng.random() < 0.3}
            ops.append(o)
            if rng.random() < 0.5:
                ops.append(
                    {
                        "op": "offer",
                        "n": n,
                        "deps": below[-2:],
                        "delay": rng.choice([0, 0, 1]),
                        "gap": rng.choice([0, 0, 0, 1, 2]),
                    }
                )
            continue
        else:
            o = {"op": "idle", "n": ""}
        ops.append(o)
    return ops


CFG = """CONSTANTS N = {%s} MaxOps = %d MaxFly = 2
BugReoffer = %s BugOverwrite = %s BugSupersede = %s BugMissed = %s
INIT Init
NEXT Next
INVARIANTS Coherent NewestCached NoLeftovers Watched
CHECK_DEADLOCK FALSE
"""
JCFG = "INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n"


def cfg(n, ops, *bugs):
    names = ["BugReoffer", "BugOverwrite", "BugSupersede", "BugMissed"]
    return CFG % (n, ops, *("TRUE" if b in bugs else "FALSE" for b in names))


def corrupt(cases):
    out = []
    for c in cases:
        for k, e in enumerate(c["events"]):
            if e["ev"] != "idle" or not any(e["watching"].values()):
                continue
            cc = {**c, "events": copy.deepcopy(c["events"][: k + 1])}
            f = cc["events"][k]
            n = next(n for n, w in e["watching"].items() if w)
            d = e["watching"][n][0]
            kind = len(out) % 3
            if kind == 0:
                f["watching"][n].remove(d)
            elif kind == 1:
                f["cached"][n] = {"id": 0, "ver": 0}
                f["watching"][n] = []
                for w in f["watchers"].values():
                    if n in w:
                        w.remove(n)
            else:
                for p in cc["events"]:
                    if p["ev"] == "prep" and p["id"] == e["cached"][n]["id"]:
                        p["reads"][d] = 999
            out.append(cc)
            break
        if len(out) >= 45:
            break
    return out


def run(ctx):
    # 1. design: exhaustive, plus liveness, plus sensitivity to known mistakes
    ctx.model_check("HotReload", cfg("1,2", ctx.pick(4, 5)), workers=8, min_states=1000)
    if not ctx.quick:
        ctx.model_check("HotReload", cfg("1,2,3", 3), workers=8, timeout=1800)
    ctx.model_check(
        "HotReload",
        cfg("1,2", 3).replace("INIT Init\nNEXT Next", "SPECIFICATION Spec\nPROPERTY Settles"),
        workers=4,
    )
    for bug in ("BugReoffer", "BugOverwrite", "BugSupersede", "BugMissed"):
        r = ctx.tlc(
            "HotReload", cfg("1,2", 4, bug), workers=4, allow_violation=True
        )
        if not r.violated:
            raise MachineryError(f"HotReload does not notice {bug}")
    ctx.coverage["design_mistakes_detected_by_model"] = 4

    # 2. all small schedules on the real cache
    names = ["a", "b", "c"]
    gen = ctx.tlc(
        "HotReloadGen",
        'CONSTANTS L = %d Gaps = {%s} Delays = {%s} Names = {"a","b","c"}\n'
        "INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
        % ctx.pick((3, "0,1,2", "0,2"), (4, "0,1", "0,2")),
        timeout=900,
    )
    scripts = gen.prints("T")
    if ctx.quick:
        scripts = ctx.rng.sample(scripts, min(len(scripts), 9000))
    jobs = [(names, expand(s, bg=False)) for s in scripts]
    cases = replay_many(jobs)
    ctx.log(f"replayed {len(cases)} of {gen.generated} schedules")
    ctx.samples.append({"schedule": jobs[-1][1]})
    ctx.check_cases(
        "HotReloadTrace",
        cases,
        replay_info=lambda i: jobs[i][1],
        label="small schedules (all or a seeded sample)",
        cfg=JCFG,
        shards=8,
    )

    # 3. random histories: 5 definitions, suspended and failing preparers,
    #    dynamic dependencies, overlapping offers
    n = ctx.pick(2500, 40000)
    names5 = list(DEPS)
    rjobs = [
        (names5, random_script(ctx.rng, names5, ctx.rng.randint(4, 22)))
        for _ in range(n)
    ]
    rcases = replay_many(rjobs)
    ctx.samples.append({"history": rjobs[0][1][:6]})
    ctx.check_cases(
        "HotReloadTrace",
        rcases,
        replay_info=lambda i: rjobs[i][1],
        label="random histories",
        cfg=JCFG,
        shards=8,
    )
    ctx.coverage["events_validated"] = sum(len(c["events"]) for c in cases + rcases)
    if not ctx.violations:
        ctx.self_check("HotReloadTrace", corrupt(cases[:60] + rcases), min_n=30, cfg=JCFG)
