"""Random workflows in the abstract language of WorkflowSem.tla."""

import asyncio

import vloop
from wfharness import prepare_logic

S = lambda s: ["s", s]  # noqa: E731
B = lambda b: ["b", b]  # noqa: E731
N = lambda n: ["n", str(n)]  # noqa: E731


def M(**kw):
    return ["m", kw]


MODES = ["ok", "ok", "ok", "skip", "depskip", "retry", "perm", "err"]


class Functions:
    """A pool of prepared Functions; each workflow draws distinct ones."""

    SHAPES = {
        # (mode path, obj path)
        "vf": [((), ()), (("mode",), ()), (("item", "mode"), ()), (("item",), ())],
        "rf": [((), ("obj",)), (("mode",), ("obj",)), ((), ("item",)), (("item", "mode"), ("item", "obj"))],
        "make": [((), ("obj",)), ((), ("item",)), (("item", "mode"), ("item", "obj"))],
        "rec": [((), ("obj",)), ((), ("item",))],
        "del": [((), ("obj",)), ((), ("item",))],
    }

    def __init__(self, per=8, kinds=("vf", "rf", "make", "rec", "del")):
        self.pool = {}
        self.all = []
        for kind in kinds:
            for sn, (mode, obj) in enumerate(self.SHAPES[kind]):
                for n in range(per):
                    lg = {
                        "k": kind, "name": f"{kind}-{sn}{n:02d}", "mode": list(mode),
                        "obj": list(obj), "delay": 5 + 7 * n + 3 * sn,
                        # Without a return, the locals need not be evaluated.
                        "ret": "echo" if mode else {per - 1: "none", per - 2: "empty" if kind == "vf" else "echo"}.get(n, "echo"),
                    }
                    self.pool.setdefault((kind, mode, obj), []).append(lg)
                    self.all.append(lg)

        async def go():
            for lg in self.all:
                await prepare_logic(lg)

        vloop.run(go())

    def draw(self, rng, kind, mode, obj, used):
        options = [x for x in self.pool[(kind, mode, obj)] if x["name"] not in used]
        if not options:
            return None
        lg = rng.choice(options)
        used.add(lg["name"])
        return lg


def trigger(rng):
    return M(
        yes=B(True), no=B(False), num=N(rng.randint(0, 9)), sw=S(rng.choice(["a", "b", "c", "zz", " a", "A", "3", ""])),
        mode=S(rng.choice(MODES)), name=S("from parent"),
        modes=["l", [S(rng.choice(MODES)) for _ in range(rng.randint(0, 4))]],
        deep=M(flag=B(rng.random() < 0.5), words=["l", [S("x"), S("y")]]),
        empty=["l", []],
    )


class Gen:
    def __init__(self, rng, functions, kinds=("vf", "rf", "make"), err=0.04, state="echo",
                 nested=2, modes=MODES, sites=0.0):
        self.rng, self.f, self.kinds, self.err = rng, functions, kinds, err
        self.used = set()
        self.objects = []
        self.state, self.nested, self.modes, self.lacking = state, nested, modes, False
        self.sites = sites
        self.mute = False  # none of the steps publishes anything

    # -- terms
    def scalar(self, earlier):
        rng = self.rng
        r = rng.random()
        if r < self.err:
            return ["err"]
        if r < 0.3:
            return ["lit", rng.choice([S("plain"), N(7), B(True), B(True), ["l", [N(1), S("a")]], M(k=S("v"))])]
        if r < 0.5 or not earlier:
            return ["parent", rng.choice([["yes"], ["num"], ["name"], ["deep", "flag"], ["deep", "words"], ["deep"]])]
        return self.stepref(earlier)

    def stepref(self, earlier):
        rng = self.rng
        st = rng.choice(earlier)
        lg = st["logic"]
        paths = [[]]
        if st["each"][0] != "yes":
            if lg["k"] == "wf":
                for s in lg["steps"]:
                    if s["echo"]:
                        paths += [[s["echo"]], [s["echo"]]]
                        if s["each"][0] != "yes" and echoes(s["logic"]):
                            paths.append([s["echo"], "fn"])
            elif lg["k"] != "switch":
                if lg["ret"] != "echo":
                    return ["step", st["label"], []]
                paths += [["fn"], ["in"]] + [["in", k] for k, _ in st["inputs"]]
                if lg["k"] == "rf":
                    paths.append(["res"])
            else:
                paths += [["fn"], ["in"]]
        if rng.random() < 0.02:
            paths = [["missing"]]
        return ["step", st["label"], rng.choice(paths)]

    def term(self, earlier, depth=0):
        rng = self.rng
        r = rng.random()
        if depth < 2 and r < 0.1:
            return ["list", [self.term(earlier, depth + 1) for _ in range(rng.randint(1, 3))]]
        if depth < 2 and r < 0.18:
            return ["map", rng.choice(["kk", "other"]), self.term(earlier, depth + 1)]
        if depth < 2 and r < 0.22:
            return ["if", ["parent", [rng.choice(["yes", "no"])]], self.term(earlier, depth + 1), self.term(earlier, depth + 1)]
        return self.scalar(earlier)

    def obj_name(self):
        n = f"obj{len(self.objects)}"
        self.objects.append(n)
        return n

    def leaf(self, item_shape=None):
        """A leaf logic for a plain step or for items of a given shape."""
        rng = self.rng
        kind = rng.choice(self.kinds)
        if item_shape == "any":
            return self.f.draw(rng, "vf", (), (), self.used) or rng.choice(self.f.pool[("vf", (), ())])
        if item_shape is None:
            mode, obj = rng.choice([s for s in self.f.SHAPES[kind] if "item" not in s[0] + s[1]])
        elif item_shape == "map":
            opts = [s for s in self.f.SHAPES[kind] if s[0] == ("item", "mode")]
            if not opts:
                kind = "vf"
                opts = [(("item", "mode"), ())]
            mode, obj = opts[0]
        else:
            opts = [s for s in self.f.SHAPES[kind] if ("item",) in s]
            mode, obj = rng.choice(opts)
        lg = self.f.draw(rng, kind, mode, obj, self.used)
        return lg or rng.choice(self.f.pool[("vf", (), ())])

    def add_inputs(self, inputs, lg):
        rng = self.rng
        keys = {k for k, _ in inputs}
        if lg["k"] == "switch":
            for c in lg["cases"]:
                self.add_inputs(inputs, c["logic"])
            return
        if lg["k"] == "wf":
            for k, t in lg["wants"]:
                if k not in keys:
                    inputs.append([k, t])
            return
        if lg["mode"] == ["mode"] and "mode" not in keys:
            t = ["lit", S(rng.choice(self.modes))]
            if rng.random() < 0.25 and not self.lacking:
                t = ["parent", ["mode"]]
            inputs.append(["mode", t])
        if lg["obj"] == ["obj"] and "obj" not in keys:
            inputs.append(["obj", ["lit", S(self.obj_name())]])

    def logic(self, depth, item_shape=None):
        rng = self.rng
        r = rng.random()
        if depth < self.nested and r < (0.14 if item_shape is None else 0.4) and item_shape in (None, "any"):
            kinds = self.kinds
            if item_shape:  # iterations share the objects: they may only read
                self.kinds = [k for k in kinds if k in ("vf", "rf")]
            # a sub-workflow may be given nothing: it has no parent to look at
            lacking, self.lacking = self.lacking, rng.random() < 0.2
            mute, self.mute = self.mute, rng.random() < 0.15
            steps = self.steps(rng.randint(1, 4), depth + 1, "n" * (depth + 1))
            given, self.lacking = not self.lacking, lacking
            self.mute = mute
            self.kinds = kinds
            wants = [["yes", ["lit", B(True)]], ["no", ["lit", B(False)]], ["num", ["lit", N(3)]],
                     ["name", ["lit", S("sub")]], ["sw", ["lit", S(rng.choice("abz"))]],
                     ["mode", ["lit", S(rng.choice(self.modes))]],
                     ["deep", ["parent", ["deep"]]],
                     ["modes", ["parent", ["modes"]]], ["empty", ["lit", ["l", []]]]]
            return {"k": "wf", "steps": steps, "wants": wants if given else []}
        if depth < self.nested and r < 0.32:
            names = rng.sample(["a", "b", "c", "dflt", "one", "from parent", "3", "7", " a", "A", "zz"], rng.randint(1, 5))
            cases = []
            dflt = rng.randrange(len(names)) if rng.random() < 0.6 else -1
            for n, name in enumerate(names):
                lg = self.logic(self.nested if rng.random() < 0.75 else depth + 1, item_shape)
                if lg["k"] == "switch":
                    lg = self.leaf(item_shape)
                cases.append({"case": S(name), "dflt": n == dflt, "logic": lg})
            on = rng.choice([["lit", S(rng.choice(names))], ["lit", S(rng.choice(names))], ["parent", ["sw"]],
                             ["inputs", ["which"]], ["parent", ["num"]], ["parent", ["yes"]]])
            if rng.random() < 0.06:
                on = ["inputs", ["sw"]]  # not its parent's
            if rng.random() < self.sites:
                on = ["err"]
            return {"k": "switch", "on": on, "cases": cases}
        return self.leaf(item_shape)

    # -- steps
    def steps(self, count, depth=0, prefix="s"):
        rng = self.rng
        steps = []
        for n in range(count):
            steps.append(self.step(f"{prefix}tep{n}" if depth else rng.choice(
                [f"step{n}", f"step_{n}", f"Step{n}", f"st{n}ep", f"steps{n}", f"in{n}puts"]), steps, depth))
        return steps

    def step(self, label, earlier, depth):
        rng = self.rng
        each = ["no"]
        item_shape = None
        items = None
        if rng.random() < 0.2:
            item_shape = rng.choice(["str", "map", "any"])
            if item_shape == "any" and "rf" not in self.kinds:
                item_shape = "str"
        lg = self.logic(depth, item_shape)
        if item_shape:
            leaves = [x for x in self.leaves(lg)]
            n = rng.choice([0, 1, 2, 2, 3, 3, 5]) if rng.random() > 0.05 else rng.choice([11, 12])
            items = []
            # enough of the long lists go through, so that their order shows
            risk = 0.35 if n < 10 else rng.choice([0, 0, 0.15])
            for _ in range(n):
                mode = rng.choice(self.modes) if rng.random() < risk else "ok"
                if item_shape == "map":
                    items.append(M(mode=S(mode), obj=S(self.obj_name()), n=N(len(items))))
                elif all(x["mode"] == ["item"] for x in leaves):
                    items.append(S(mode))
                else:
                    items.append(S(self.obj_name()))
            src = ["lit", ["l", items]]
            if rng.random() < 0.15 and items:
                src = ["list", [["lit", x] for x in items]]
            if item_shape == "any":
                lists = [["step", s["label"], ["in", k]] for s in earlier for k, t in s["inputs"]
                         if s["each"][0] != "yes" and echoes(s["logic"])
                         and (t[0] == "list" or t[0] == "lit" and t[1][0] == "l")]
                lists += [["step", s["label"], []] for s in earlier if s["each"][0] == "yes"]
                src = rng.choice(lists or [["parent", ["modes"]], ["parent", ["deep", "words"]]])
            if rng.random() < 0.05:
                src = rng.choice([["parent", ["name"]], ["err"], ["parent", ["empty"]]])
            if rng.random() < self.sites:
                src = rng.choice([["err"], ["list", [["lit", S("ok")], ["err"]]]])
            each = ["yes", src, "item"]
        inputs = []
        self.add_inputs(inputs, lg)
        if lg["k"] == "switch" and lg["on"] == ["inputs", ["which"]]:
            inputs.append(["which", ["lit", S(rng.choice([c["case"][1] for c in lg["cases"]] + ["none"]))]])
        bare = lg["k"] == "wf" and not lg["wants"] and rng.random() < 0.6
        for k in rng.sample(["aa", "bb", "cc", "from"], 0 if bare else rng.choice([0, 1, 1, 2, 3])):
            inputs.append([k, self.term(earlier)])
        if item_shape and rng.random() < 0.2:
            # the item takes the place of an input of that name
            inputs.append(["item", ["lit", rng.choice([S("ok"), N(5), M(mode=S("ok"), obj=S("static"))])]])
        if earlier and not bare and rng.random() < 0.6:
            inputs.append(["dep", self.stepref(earlier)])
        if earlier and lg["k"] == "switch" and rng.random() < 0.3:
            st = rng.choice(earlier)
            if st["logic"]["k"] == "vf" and echoes(st["logic"]) and st["each"][0] != "yes":
                lg["on"] = ["step", st["label"], ["fn"]]
        rng.shuffle(inputs)
        skip = ["no"]
        clean = all(t[0] != "err" for _, t in inputs)
        if rng.random() < (0.5 if each[0] == "yes" and each[1][0] == "step" else 0.15) and clean:
            skip = rng.choice([["parent", ["yes"]], ["parent", ["no"]], ["parent", ["no"]], ["lit", B(False)],
                               ["parent", ["deep", "flag"]], ["lit", B(True)], ["parent", ["num"]], ["err"]])
            flags = [["step", s["label"], ["in", k]] for s in earlier for k, t in s["inputs"]
                     if s["each"][0] != "yes" and echoes(s["logic"])
                     and t in (["lit", B(True)], ["parent", ["yes"]], ["parent", ["no"]], ["parent", ["deep", "flag"]])]
            if flags and rng.random() < (0.9 if each[0] == "yes" and each[1][0] == "step" else 0.6):
                skip = rng.choice(flags)
            if rng.random() < self.sites * 3:
                skip = ["err"]
            elif skip[0] == "err" and rng.random() < 0.6:
                skip = ["lit", B(False)]
            # a skipped step with inputs which cannot be evaluated is ambiguous
            inputs = [[k, t] for k, t in inputs if safe(t) and not (t[0] == "parent" and self.lacking)]
        echo = f"echo_{label}"
        state = [[echo, ["value", []]]]
        if self.state == "shared" and rng.random() < 0.6:
            state.append([rng.choice(["shared", "other"]), rng.choice(
                [["lit", S(f"by {label}")], ["map", "who", ["lit", S(label)]], ["value", []]])])
        if rng.random() < 0.03:
            state.append(["broken", ["value", ["nothing", "there"]]])
        if earlier and rng.random() < 0.02:
            state.append(["broken_ref", self.stepref(earlier)])
        rng.shuffle(state)
        if rng.random() < self.sites:
            state.append(["broken", rng.choice([["err"], ["map", "deep", ["err"]], ["list", [["err"]]]])])
        if depth and self.mute or rng.random() < 0.04:
            state = []
        if not state or any(k.startswith("broken") for k, _ in state):
            echo = ""
        return {
            "label": label, "inputs": inputs, "skipIf": skip, "each": each, "logic": lg,
            "state": state, "cond": "C" + label.replace("_", "U"), "echo": echo,
        }

    def leaves(self, lg):
        if lg["k"] == "switch":
            for c in lg["cases"]:
                yield from self.leaves(c["logic"])
        elif lg["k"] != "wf":
            yield lg


def echoes(lg):
    """Its value has the members which steps refer to."""
    return lg["k"] in ("vf", "rf") and lg["ret"] == "echo"


def safe(t):
    if t[0] in ("lit",):
        return True
    if t[0] == "parent":
        return True
    return False


def workflow(rng, functions, count=None, **kw):
    g = Gen(rng, functions, **kw)
    count = count or rng.choice([1, 2, 3, 4, 5, 6, 8])
    steps = g.steps(count)
    labels = [s["label"] for s in steps]
    assert len(set(labels)) == len(labels)
    world = {}
    for o in g.objects:
        r = rng.random()
        if r < 0.72:
            world[o] = "good"
        elif r < 0.82:
            world[o] = "stale"
    return {"mode": "workflow", "steps": steps, "trigger": trigger(rng), "world": world}


def depth_of(steps):
    """Upper bound on the number of sequential API calls of a pass."""
    def logic(lg):
        if lg["k"] == "wf":
            return depth_of(lg["steps"])
        if lg["k"] == "switch":
            return max(logic(c["logic"]) for c in lg["cases"])
        return 0 if lg["k"] == "vf" else 2

    level = {}
    total = 0
    for st in steps:
        below = max([level[d] for d in deps(st) if d in level], default=0)
        level[st["label"]] = below + logic(st["logic"])
        total = max(total, level[st["label"]])
    return total


def deps(st):
    out = set()

    def walk(t):
        if t[0] == "step":
            out.add(t[1])
        elif t[0] == "list":
            for x in t[1]:
                walk(x)
        elif t[0] == "map":
            walk(t[2])
        elif t[0] == "if":
            for x in t[1:]:
                walk(x)

    for _, t in st["inputs"] + st["state"]:
        walk(t)
    walk(st["skipIf"])
    if st["each"][0] == "yes":
        walk(st["each"][1])
    if st["logic"]["k"] == "switch":
        walk(st["logic"]["on"])
    return out
