"""C15: cache keyed by resourceVersion (Cache.tla / CacheTrace.tla)."""

import asyncio
import copy
import itertools

import env  # noqa: F401
from koreo import cache
from koreo.result import PermFail

from common import guard


class KindA: ...


class KindB: ...


_uniq = itertools.count(1)


class Prepared:
    def __init__(self, n):
        self.n = n


def prep_of(x):
    if x is None:
        return 0
    if isinstance(x, Prepared):
        return x.n
    if isinstance(x, PermFail) and (x.message or "").startswith("prep"):
        return int(x.message[4:])
    return -1


class Driver:
    def __init__(self, keys, same=False, crowd=0):
        self.keys = keys
        self.same = same  # every version has the same spec
        self.crowd = crowd  # others, offered in between
        tag = f"{next(_uniq)}"
        names = {
            "a": (KindA, f"n{tag}"),
            "b": (KindB, f"n{tag}"),
            "c": (KindA, f"m{tag}"),
            "d": (KindB, f"m{tag}"),
        }
        self.res = {k: names[k] for k in keys}
        self.preps = 0
        self.offers = 0
        self.flights = {}
        self.gate = None

    def preparer(self, spec_ok, gate):
        async def prepare(key, spec):
            self.preps += 1
            n = self.preps
            if gate is not None:
                await gate.wait()
            spec["mutated"] = True
            if spec_ok:
                return Prepared(n), None
            return PermFail(message=f"prep{n}")

        return prepare

    def meta(self, k, ver):
        return {"name": self.res[k][1], "resourceVersion": ver or "zz"}

    def offer(self, o, gate=None):
        return cache.prepare_and_cache(
            resource_class=self.res[o["k"]][0],
            preparer=self.preparer(o["ok"], gate),
            metadata=self.meta(o["k"], o["ver"]),
            spec={"v": "any" if self.same else o["ver"]},
        )

    async def bystanders(self):
        async def prepare(key, spec):
            return Prepared(0), None

        for n in range(self.crowd):
            await cache.prepare_and_cache(
                resource_class=(KindA, KindB)[n % 2],
                preparer=prepare,
                metadata={"name": f"by{next(_uniq)}", "resourceVersion": "1"},
                spec={"v": "any"},
            )

    async def call(self, o):
        op = o["op"]
        if op in ("offer", "begin"):
            await self.bystanders()
        if op == "offer":
            self.offers += 1
            return await self.offer(o)
        if op == "begin":
            self.offers += 1
            gate = asyncio.Event()
            task = asyncio.ensure_future(self.offer(o, gate))
            for _ in range(4):
                await asyncio.sleep(0)
            if task.done():
                return task.result()
            self.flights[self.offers] = (gate, task)
            return None
        if op == "end":
            if o["offer"] not in self.flights:
                return None
            gate, task = self.flights.pop(o["offer"])
            gate.set()
            await task
            return None
        if op == "delete":
            await cache.delete_from_cache(
                self.res[o["k"]][0], self.res[o["k"]][1], o["ver"] or None
            )
        elif op == "deletemeta":
            await cache.delete_resource_from_cache(
                self.res[o["k"]][0], self.meta(o["k"], "zz")
            )
        return None

    def look(self, k):
        cls, name = self.res[k]
        got = cache.get_resource_from_cache(cls, name)
        sysd = cache.get_resource_system_data_from_cache(cls, name)
        n = prep_of(got)
        if n and (sysd is None or sysd.resource is not got):
            n = -2
        return {
            "prep": n,
            "ver": sysd.resource_version if sysd else "",
            "ok": not isinstance(got, PermFail),
        }

    async def observe(self, o):
        before = self.preps
        raised, ret = False, None
        try:
            ret = await self.call(o)
        except Exception as err:
            raised = True
            o = {**o, "error": repr(err)[:200]}
        return {
            **o,
            "raised": raised,
            "preps": self.preps - before,
            "ret": prep_of(ret),
            "look": {k: self.look(k) for k in self.keys},
        }

    async def close(self):
        for gate, task in self.flights.values():
            task.cancel()
        cache._reset_cache()


async def replay(keys, ops, **kw):
    d = Driver(keys, **kw)
    evs = [await d.observe(o) for o in ops]
    await d.close()
    return {"keys": keys, "events": evs}


def random_ops(rng, keys, length):
    """Random history; respects the same enabling conditions as Cache!Next."""
    ops, flying, offers = [], {}, 0
    entry_guess = {}
    for _ in range(length):
        k = rng.choice(keys)
        x = rng.random()
        if x < 0.45 or (x < 0.6 and len(flying) >= 3):
            ver = rng.choice(["1", "2", "10", "01", "3"])
            offers += 1
            ops.append({"op": "offer", "k": k, "ver": ver, "ok": rng.random() < 0.7})
            entry_guess[k] = ver
        elif x < 0.6:
            ver = rng.choice(["1", "2", "10", "01", "3"])
            offers += 1
            ops.append({"op": "begin", "k": k, "ver": ver, "ok": rng.random() < 0.7})
            flying[offers] = k
        elif x < 0.78 and flying:
            n = rng.choice(sorted(flying))
            k = flying.pop(n)
            ops.append({"op": "end", "offer": n})
        elif k not in flying.values():
            ver = rng.choice(["", "1", "2", "10", entry_guess.get(k, "3")])
            op = "delete"
            if ver == "" and rng.random() < 0.4:
                op = "deletemeta"
            ops.append({"op": op, "k": k, "ver": ver})
    return ops


CFG = """CONSTANTS K = {%s} Vers = {%s} MaxOffers = %d MaxFlying = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS LatestWins
PROPERTIES PrepareOncePerVersion StaleDeleteHarmless
%s
CHECK_DEADLOCK FALSE
"""
JCFG = """CONSTANTS K = {"a"} Vers = {"1"} MaxOffers = 1 MaxFlying = 1
INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
"""


def corrupt(cases):
    out = []
    for c in cases:
        for n, e in enumerate(c["events"]):
            cc = {**c, "events": copy.deepcopy(c["events"][: n + 1])}
            f = cc["events"][n]
            k = e.get("k")
            if e["op"] in ("offer", "begin") and e["preps"] == 0:
                f["preps"] = 1
            elif e["op"] == "offer" and e["preps"] == 1 and len(out) % 2:
                f["look"][k]["prep"] -= 1
            elif e["op"] == "offer" and e["preps"] == 1:
                f["preps"], f["ret"] = 0, 0
            elif e["op"] == "delete" and e["look"][k]["prep"]:
                f["look"][k] = {"prep": 0, "ver": "", "ok": True}
            else:
                continue
            out.append(cc)
            break
        if len(out) >= 60:
            break
    return out


def run(ctx):
    res = ctx.model_check(
        "Cache",
        CFG % ('"a","b"', '"1","2"', 3, "ACTION_CONSTRAINT Emit"),
        min_states=1000,
    )
    paths = res.prints("T")
    if not ctx.quick:
        ctx.model_check(
            "Cache", CFG % ('"a","b"', '"1","2","3"', 5, ""), workers=8, timeout=1800
        )
    keys = ["a", "b"]

    n = ctx.pick(200, 4000)
    length = ctx.pick(50, 80)
    keys4 = ["a", "b", "c", "d"]
    hist = [random_ops(ctx.rng, keys4, length) for _ in range(n)]

    async def everything():
        return (
            [await replay(keys, p) for p in paths],
            [
                await replay(keys4, h, same=n % 3 == 0, crowd=(n % 10 == 0) * 8)
                for n, h in enumerate(hist)
            ],
        )

    with guard(400):
        cases, long = asyncio.run(everything())
    ctx.log(f"replayed {len(cases)} + {len(long)}")
    ctx.samples += [{"behaviour": paths[-1]}, {"history": hist[0][:10]}]
    ctx.check_cases(
        "CacheTrace",
        cases,
        replay_info=lambda i: paths[i],
        label="one behaviour per transition of Cache (2 keys, 2 versions, 3 offers)",
        cfg=JCFG,
        shards=8,
    )
    ctx.check_cases(
        "CacheTrace",
        long,
        replay_info=lambda i: hist[i],
        label="random histories, 4 keys",
        cfg=JCFG,
        shards=8,
    )
    ctx.coverage["exhaustive"] = True
    if not ctx.violations:
        ctx.self_check(
            "CacheTrace", corrupt(ctx.rng.sample(cases, 300) + long), min_n=40, cfg=JCFG
        )
