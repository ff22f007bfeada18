"""Koreo Expressions which cannot be evaluated, whatever surrounds them.

`inputs` is {"k": "text", "l": [1, 2], "m": {"a": "b"}, "n": null, "t": true, ...}
without a member `missing`.
"""

BASES = [
    "1 / 0", "1 % 0", "inputs.missing", "inputs.missing.deeper", "inputs['missing']",
    "[1][3]", "[1, 2][-4]", "{'a': 1}.b", "{'a': 1}['b']", "int('x')",
    "'abc'.nope", "unknown_variable", "from_json('{')", "to_ref({})",
    "to_ref({'name': ''})", "to_ref({'external': ''})", "self_ref({'a': 1})",
    "self_ref({'apiVersion': 'v1', 'kind': 'K'})", "group_ref({})", "kindless_ref({'name': ''})",
    "split('a', '')", "split_index('a,b', ',', 9)", "split_first('a', '')", "split_last('a', '')",
    "b64encode(5)", "b64decode('x')", "replace(5, 'a', 'b')", "lower(5)", "flatten([1])",
    "strip(5, 'x')", "rstrip(5, 'x')", "overlay({'a': 1}, 5)", "overlay(5, {'a': 1})",
    "'a' + 1", "timestamp('x')", "duration('zz')", "size(5)", "matches('a', '(')",
    "config_connect_ready(5)", "1 > 'a'", "-'a'", "!5", "5 && 'a'", "'x' ? 1 : 2",
    "no_such_function(1)", "'a'.no_such_method()", "[3, 0].map(x, 6 / x)", "[0].map(x, {'a': 6 / x})",
    "[1].map(x, nowhere)", "to_json([1 / 0])", "{'a': 1, 'a': 2}",
    "9223372036854775807 + 1",
    # failures of kinds which the interpreter does not translate (OverflowError)
    "int(double('inf'))", "uint(double('inf'))", "int(double('-1e999'))",
]

WRAPPERS = [
    "[%s]", "[1, %s]", "{'k': %s}", "{'k': [%s]}", "[{'k': {'j': %s}}]", "[[[%s]]]",
    "true ? %s : 1", "false ? 1 : %s", "(%s)", "dyn(%s)",
    "[1, 2].map(x, %s)", "[1].map(x, {'y': %s})", "[[1]].map(x, x.map(y, %s))",
    "[1].map(x, [{'y': [%s]}])", "{'a': %s}.a", "{'a': %s}['a']", "[%s].map(x, x)", "{'a': 1}.map(x, %s)",
    "to_json(%s)", "to_json({'a': [%s]})", "overlay({'a': 1}, {'b': %s})", "overlay({'b': %s}, {'a': 1})",
    "{'a': 1}.overlay({'b': {'c': %s}})", "to_ref({'name': 'x', 'kind': %s})", "to_ref({'external': %s})",
    "{'name': 'x', 'apiVersion': %s}.to_ref()", "group_ref({'name': 'x', 'apiVersion': %s})",
    "group_ref({'name': 'x', 'kind': %s})", "kindless_ref({'name': %s})",
    "self_ref({'apiVersion': 'v1', 'kind': %s, 'metadata': {'name': 'a', 'namespace': 'b'}})",
    "self_ref({'apiVersion': 'v1', 'kind': 'K', 'metadata': {'name': %s, 'namespace': 'b'}})",
    "config_connect_ready({'status': {'conditions': [{'type': %s}]}})",
    "config_connect_ready({'status': {'conditions': [{'type': 'Ready', 'reason': %s}]}})",
    "flatten([[%s]])", "[[{'a': %s}]].flatten()", "[%s].flatten()",
    "string(%s)", "'x' + string(%s)", "lower(string(%s))", "b64encode(string(%s))",
    "split(string(%s), ',')", "replace('a', 'a', string(%s))", "strip(string(%s), 'x')",
    "split_first(string(%s), ',')", "from_json(string(%s))", "b64decode(string(%s))",
    "%s + 1", "[1].filter(x, !%s)", "[1].all(x, !%s)", "[1].exists(x, !%s)", "!%s || !%s",
]


def bad(rng, depth=None):
    """An expression which fails to evaluate."""
    out = rng.choice(BASES)
    if "?" in out or "&&" in out or "+" in out or ">" in out:
        out = f"({out})"
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if depth is None else depth):
        wrap = rng.choice(WRAPPERS)
        out = wrap.replace("%s", out)
        if wrap.startswith(("%s +", "!%s", "true", "false")):
            out = f"({out})"
    return out
