"""Expression trees of StaticRefsSem.tla: rendering and random generation."""

PREC = {"||": 2, "&&": 3, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, "in": 4, "+": 5, "-": 5, "*": 6,
        "/": 6, "%": 6}


def text(rng, s, plain=False):
    if plain or rng.random() < 0.6:
        q = rng.choice("'\"")
        return q + s + q
    q = rng.choice(["'", '"', "'''", '"""'])
    if s and rng.random() < 0.5:
        k = rng.randrange(len(s))
        c = ord(s[k])
        esc = rng.choice([f"\\x{c:02x}", f"\\{c:03o}"]) if c < 256 else s[k]
        return q + s[:k] + esc + s[k + 1:] + q
    return rng.choice(["r", "R", ""]) + q + s + q


def render(e, rng, least=0):
    out, prec = _render(e, rng)
    if prec < least:
        return "(" + out + ")"
    if rng.random() < 0.04:
        return "(" + out + ")"
    return out


def _render(e, rng):
    def sub(x, least=0):
        return render(x, rng, least)

    def receiver(x):
        return "(" + sub(x) + ")" if x[0] in ("lit", "str") and rng.random() < 1 else sub(x, 8)

    sp = rng.choice(["", "", " ", "\n"])
    k = e[0]
    if k == "id":
        return e[1], 9
    if k == "did":
        return "." + e[1], 9
    if k == "str":
        return text(rng, e[1]), 9
    if k == "lit":
        return e[1], 9
    if k == "dot":
        return f"{receiver(e[1])}{sp}.{e[2]}", 8
    if k == "idx":
        return f"{receiver(e[1])}[{sp}{sub(e[2])}{sp}]", 8
    if k == "mcall":
        return f"{receiver(e[1])}.{e[2]}({', '.join(sub(x) for x in e[3])})", 8
    if k == "call":
        return f"{e[1]}({', '.join(sub(x) for x in e[2])})", 9
    if k == "bin":
        p = PREC[e[1]]
        return f"{sub(e[2], p)} {e[1]} {sub(e[3], p + 1)}", p
    if k == "un":
        return f"{e[1]}{' ' if e[1] == '-' else ''}{sub(e[2], 7)}", 7
    if k == "cond":
        return f"{sub(e[1], 2)} ? {sub(e[2], 2)} : {sub(e[3], 1)}", 1
    if k == "list":
        return "[" + f",{sp}".join(sub(x) for x in e[1]) + "]", 9
    if k == "map":
        return "{" + ", ".join(f"{sub(a)}: {sub(b)}" for a, b in e[1]) + "}", 9
    if k == "par":
        return "(" + sub(e[1]) + ")", 9
    if k == "macro":
        return f"{receiver(e[1])}.{e[2]}({e[3]}, {sub(e[4])})", 8
    if k == "has":
        return f"has({sub(e[1])})", 9
    raise AssertionError(e)


STEPS = ["id", "steps"]


def reference(rng, name):
    root = rng.choice([STEPS, STEPS, STEPS, ["par", STEPS], ["did", "steps"]])
    if rng.random() < 0.5 and not name[0].isdigit():
        e = ["dot", root, name]
    else:
        key = ["str", name]
        e = ["idx", root, ["par", key] if rng.random() < 0.1 else key]
    for _ in range(rng.choice([0, 0, 1, 2])):
        e = rng.choice([["dot", e, "f"], ["idx", e, ["str", "f"]], ["idx", e, ["lit", "0"]]])
    return e


def decoy(rng, names):
    n = rng.choice(names or ["zzz"])
    inp = ["id", "parent"]
    return rng.choice([
        ["dot", ["dot", inp, "steps"], "k" if n[0].isdigit() else n], ["idx", ["dot", inp, "steps"], ["str", n]], ["str", f"steps.{n}"],
        ["idx", STEPS, ["dot", inp, "which"]], ["idx", STEPS, ["bin", "+", ["str", n], ["str", ""]]],
        ["dot", inp, "k"], ["lit", "1"], ["lit", "true"], ["lit", "null"], ["lit", "1.5"], ["lit", "3u"],
        ["lit", "b'steps'"], ["str", ""]])


def tree(rng, names, depth=0, scope=()):
    """A random tree over references to `names`."""
    def sub():
        return tree(rng, names, depth + 1, scope)

    r = rng.random()
    if depth >= 5 or r < 0.18 + 0.08 * depth:
        if names and rng.random() < 0.6:
            return reference(rng, rng.choice(names))
        if scope and rng.random() < 0.4:
            return ["id", rng.choice(scope)]
        return decoy(rng, names)
    k = rng.choice(["dot", "idx", "idx", "mcall", "mcall", "call", "bin", "bin", "un", "cond", "list", "map", "par",
                    "macro", "macro", "macro", "has"])
    if k == "dot":
        return ["dot", sub(), rng.choice("fgh")]
    if k == "idx":
        return ["idx", sub(), sub()]
    if k == "mcall":
        return ["mcall", sub(), rng.choice(["startsWith", "contains", "matches", "getFullYear", "size", "endsWith"]),
                [sub() for _ in range(rng.choice([0, 1, 1, 2]))]]
    if k == "call":
        return ["call", rng.choice(["size", "string", "overlay", "to_ref", "flatten", "split", "lower", "int", "type"]),
                [sub() for _ in range(rng.choice([1, 1, 2, 3]))]]
    if k == "bin":
        return ["bin", rng.choice(sorted(PREC)), sub(), sub()]
    if k == "un":
        return ["un", rng.choice("!-"), sub()]
    if k == "cond":
        return ["cond", sub(), sub(), sub()]
    if k == "list":
        return ["list", [sub() for _ in range(rng.choice([0, 1, 2, 3]))]]
    if k == "map":
        return ["map", [[sub() if rng.random() < 0.3 else ["str", f"k{j}"], sub()]
                        for j in range(rng.choice([0, 1, 2]))]]
    if k == "par":
        return ["par", sub()]
    if k == "has":
        return ["has", ["dot", sub(), "h"]]
    v = rng.choice("xyzw")
    return ["macro", sub(), rng.choice(["map", "filter", "all", "exists", "exists_one"]), v,
            tree(rng, names, depth + 1, (*scope, v))]
