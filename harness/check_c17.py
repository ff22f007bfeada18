"""C17: subscription registry (Registry.tla / RegistryTrace.tla)."""

import asyncio
import copy

from koreo import registry
from koreo.registry import Resource

from common import Hang, guard


class KindA: ...


class KindB: ...


RES = {
    "a": Resource(KindA, "x"),
    "b": Resource(KindB, "x"),
    "c": Resource(KindA, "y"),
    "d": Resource(KindA, "x", "ns"),
    "e": Resource(KindB, "y"),
}
# a larger universe: wide fans and long chains
WIDE = list(RES) + [f"w{k}" for k in range(15)]
RES |= {f"w{k}": Resource((KindA, KindB)[k % 2], f"w{k // 2}", (None, "ns")[k % 3 == 0]) for k in range(15)}
BACK = {v: k for k, v in RES.items()}

MODEL_CFG = """CONSTANT R = {%s}
INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK ViewsInverse Acyclic NothingToTheDead
%s
CHECK_DEADLOCK FALSE
"""


def peek(q):
    return list(q._queue)


class Driver:
    """Applies calls to the real registry and records what happened."""

    def __init__(self, names):
        registry._reset_registries()
        self.names = names
        self.queues = {}
        self.waiters = {n: [] for n in names}
        self.clock = 1000.0
        self.hung = False

    def items(self):
        return {
            n: [x for x in peek(q) if not isinstance(x, registry.Kill)]
            for n, q in self.queues.items()
        }

    def call(self, o):
        op = o["op"]
        if op == "register":
            r = RES[o["r"]]
            cap = o.get("cap")
            if cap is None:
                q = registry.register(r)
            else:
                q = registry.register(r, asyncio.Queue(maxsize=cap))
            newq = self.queues.get(o["r"]) is not q
            self.queues[o["r"]] = q
            return newq
        if op == "subscribe":
            registry.subscribe(RES[o["s"]], RES[o["r"]])
        elif op == "only":
            registry.subscribe_only_to(RES[o["s"]], [RES[x] for x in o["rs"]])
        elif op == "unsubscribe":
            registry.unsubscribe(RES[o["s"]], RES[o["r"]])
        elif op == "notify":
            registry.notify_subscribers(RES[o["r"]], self.clock)
        elif op == "kill":
            registry.kill_resource(RES[o["r"]])
        elif op == "deregister":
            registry.deregister(RES[o["r"]], self.clock)
        elif op == "getwait":
            q = self.queues.get(o["r"])
            if q is not None:
                self.waiters[o["r"]].append(asyncio.ensure_future(self._get(q)))
        elif op == "joinwait":
            q = self.queues.get(o["r"])
            if q is not None:
                self.waiters[o["r"]].append(asyncio.ensure_future(q.join()))
        elif op == "putwait":
            q = self.queues.get(o["r"])
            if q is not None and q.full():
                self.waiters[o["r"]].append(asyncio.ensure_future(self._put(q)))
        elif op == "take":
            q = self.queues.get(o["r"])
            if q is not None and not q.empty():
                q.get_nowait()
                q.task_done()
        elif op == "drain":
            q = self.queues.get(o["r"])
            while q is not None and not q.empty():
                q.get_nowait()
                q.task_done()
        return False

    @staticmethod
    async def _get(q):
        try:
            await q.get()
        except asyncio.QueueShutDown:
            return
        q.task_done()

    @staticmethod
    async def _put(q):
        try:
            await q.put(registry.Kill())
        except asyncio.QueueShutDown:
            return

    def observe(self, o, full=True):
        before = self.items()
        was_full = {n: q.full() for n, q in self.queues.items()}
        self.clock += 1
        raised = False
        newq = False
        hung = False
        try:
            # these calls take microseconds
            with guard(10):
                newq = self.call(o)
        except Hang:
            self.hung = hung = True
        except Exception as err:
            raised = True
            o = {**o, "error": type(err).__name__}
        if not full:
            return None
        after = self.items()
        got, ok = {}, True
        for n in self.names:
            b = before.get(n, []) if not (op_new(o, n) and newq) else []
            a = after.get(n, [])
            fresh = [x for x in a if not any(x is y for y in b)]
            if o["op"] in ("deregister", "drain") and o["r"] == n:
                fresh = []
            got[n] = len(fresh)
            for ev in fresh:
                if ev.resource != RES[o.get("r") or o.get("s")]:
                    ok = False
                if o["op"] in ("notify", "deregister") and ev.event_time != self.clock:
                    ok = False
        if o["op"] == "deregister" and not raised:
            self.queues.pop(o["r"], None)
        return {
            **o,
            "raised": raised,
            "hung": hung,
            "newq": bool(newq),
            "full": {n: bool(was_full.get(n, False)) for n in self.names},
            "got": got,
            "fromok": ok,
            "watching": self.view(registry.get_subscriptions),
            "watchers": self.view(registry.get_subscribers),
            "pending": {n: 0 for n in self.names},
        }

    def view(self, fn):
        return {
            n: sorted(BACK.get(x, str(x)) for x in list(fn(RES[n])))
            for n in self.names
        }

    async def settle(self, ev):
        for _ in range(6):
            await asyncio.sleep(0)
        ev["pending"] = {
            n: sum(not t.done() for t in self.waiters[n]) for n in self.names
        }

    def close(self):
        for ts in self.waiters.values():
            for t in ts:
                t.cancel()
        registry._reset_registries()


async def last_only(names, ops):
    d = Driver(names)
    for o in ops[:-1]:
        d.observe(o, full=False)
        if o["op"] == "deregister":
            d.queues.pop(o["r"], None)
    ev = d.observe(ops[-1])
    ev["hung"] = d.hung
    d.close()
    return {"names": names, "pre": ops[:-1], "events": [ev]}


async def whole(names, ops):
    d = Driver(names)
    evs = []
    for o in ops:
        ev = d.observe(o)
        await d.settle(ev)
        evs.append(ev)
        if d.hung:
            break
    d.close()
    await asyncio.sleep(0)
    return {"names": names, "pre": [], "events": evs}


async def several(histories, how=last_only, patience=4):
    """Each history in turn; a few calls which hang are evidence enough."""
    out = []
    for names, ops in histories:
        out.append(await how(names, ops))
        patience -= any(e["hung"] for e in out[-1]["events"])
        if not patience:
            break
    return out


def op_new(o, n):
    return o["op"] == "register" and o["r"] == n


def random_ops(rng, names, length, fan=3):
    ops = []
    # a hierarchy makes most subscriptions legal, so that graphs grow deep
    order = names[:]
    rng.shuffle(order)
    for _ in range(length):
        k = rng.random()
        r = rng.choice(names)
        s = rng.choice(names)
        if k < 0.16:
            o = {"op": "register", "r": r}
            if rng.random() < 0.25:
                o["cap"] = rng.choice([0, 1, 2])
        elif k < 0.38:
            if rng.random() < 0.7:
                i, j = sorted(rng.sample(range(len(order)), 2))
                s, r = order[i], order[j]
            o = {"op": "subscribe", "s": s, "r": r}
        elif k < 0.52:
            i = order.index(s)
            pool = order[i + 1 :] if rng.random() < 0.7 else names
            n = rng.randint(0, min(fan, len(pool)))
            rs = [rng.choice(pool) for _ in range(n)] if pool else []
            o = {"op": "only", "s": s, "rs": rs}
        elif k < 0.60:
            o = {"op": "unsubscribe", "s": s, "r": r}
        elif k < 0.75:
            o = {"op": "notify", "r": r}
        elif k < 0.81:
            o = {"op": "kill", "r": r}
        elif k < 0.88:
            o = {"op": "deregister", "r": r}
        elif k < 0.94:
            o = {"op": "getwait", "r": r}
        elif k < 0.98:
            o = {"op": "joinwait", "r": r}
        else:
            o = {"op": "drain", "r": r}
        ops.append(o)
    return ops


def crowded_ops(rng, names, length):
    """Small queues which fill up, are killed, emptied, deregistered."""
    ops = []
    while len(ops) < length:
        s, r, *others = rng.sample(names, 4)
        ops.append({"op": "register", "r": s, "cap": rng.choice([1, 1, 2, 3])})
        ops.append({"op": "subscribe", "s": s, "r": r})
        if rng.random() < 0.5:
            ops.append({"op": "subscribe", "s": others[0], "r": r})
            ops.append({"op": "register", "r": others[0]})
        for _ in range(rng.randint(2, 9)):
            k = rng.choice(["notify", "notify", "notify", "take", "drain", "kill", "getwait", "joinwait", "putwait",
                            "register"])
            ops.append({"op": k, "r": r if k == "notify" else s})
        if rng.random() < 0.6:
            ops.append({"op": "notify", "r": r})
        ops.append({"op": rng.choice(["deregister", "deregister", "kill", "unsubscribe"]), "r": s, "s": s})
        if ops[-1]["op"] == "unsubscribe":
            ops[-1]["r"] = r
        if rng.random() < 0.4:
            ops.append({"op": "notify", "r": r})
        if rng.random() < 0.4:
            ops.append({"op": "deregister", "r": s})
    return ops


def corrupt(cases, rng):
    """Traces that the specification must reject."""
    out = []
    for c in cases:
        if len(out) >= 60:
            break
        for k, e in enumerate(c["events"]):
            cc = {**c, "events": copy.deepcopy(c["events"][: k + 1])}
            f = cc["events"][k]
            delivered = [n for n, g in e["got"].items() if g]
            silent = [n for n, g in e["got"].items() if not g]
            if e["op"] in ("notify", "deregister") and delivered:
                f["got"][delivered[0]] = rng.choice([0, 2])
            elif e["op"] == "notify" and silent:
                f["got"][silent[0]] = 1
            elif e["op"] == "subscribe" and not e["raised"]:
                f["watchers"][e["r"]] = []
            elif e["op"] == "only" and e["raised"]:
                f["raised"] = False
            else:
                continue
            out.append(cc)
            break
    return out


def run(ctx):
    # 1. design model, exhaustively; every transition becomes one behaviour
    res = ctx.model_check(
        "Registry",
        MODEL_CFG % ('"a","b","c"', "ACTION_CONSTRAINT Emit"),
        min_states=600,
    )
    paths = res.prints("T")
    if not ctx.quick:
        ctx.model_check(
            "Registry",
            MODEL_CFG % ('"a","b","c","d"', ""),
            workers=8,
            min_states=40000,
            timeout=1500,
        )
    names = ["a", "b", "c"]
    paths = [p for p in paths if p]

    async def replay_all():
        return await several((names, p) for p in paths)

    cases = asyncio.run(replay_all())
    ctx.log(f"replayed {len(cases)} behaviours (one per transition)")
    ctx.samples.append({"behaviour": paths[-1]})
    ctx.check_cases(
        "RegistryTrace",
        cases,
        replay_info=lambda i: paths[i],
        label="one behaviour per transition of the 3-resource state graph",
        shards=8,
        cfg=JCFG,
    )

    # 2. long random histories, five resources, waiters, bounded queues
    n = ctx.pick(250, 3000)
    length = ctx.pick(60, 120)
    names5 = WIDE[:5]
    hist = [random_ops(ctx.rng, names5, length) for _ in range(n)]
    hist += [crowded_ops(ctx.rng, names5, length) for _ in range(n // 2)]

    hist = [(names5, h) for h in hist]
    hist += [(WIDE, random_ops(ctx.rng, WIDE, length + 40, 14)) for _ in range(n // 4)]

    async def replay_hist():
        return await several(hist, whole)

    long = asyncio.run(replay_hist())
    ctx.samples.append({"history": hist[0][1][:12]})
    ctx.check_cases(
        "RegistryTrace",
        long,
        replay_info=lambda i: hist[i],
        label="random histories",
        shards=8,
        cfg=JCFG,
    )
    ctx.coverage["events_validated"] = len(cases) + n * length
    ctx.coverage["exhaustive"] = True

    # 3. binding: corrupted traces are rejected
    if not ctx.violations:
        pool = [c for c in cases if c["events"][0]["op"] in ("notify", "only", "subscribe")]
        ctx.self_check(
            "RegistryTrace",
            corrupt(ctx.rng.sample(pool, 200) + long[:20], ctx.rng),
            min_n=30,
            cfg=JCFG,
        )


JCFG = 'CONSTANT R = {"a"}\nINIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n'
