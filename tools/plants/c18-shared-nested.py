PROPERTY = "C18"
NEEDS = "a variant case whose inputOverrides reach into a nested map of the base inputs, followed by any other case"
BREAKS = "only the top level is copied before merging, so a variant's inputOverrides stay behind in the nested maps the next case starts from"
EDITS = [("src/koreo/cel/functions.py", """    resource = copy.deepcopy(resource)

    for field, overlay_value in overlay.items():""", """    resource = copy.copy(resource)

    for field, overlay_value in overlay.items():"""),
         ("src/koreo/cel/functions.py", """                updated_value = _deep_overlay(resource_value, overlay_value)

                if isinstance(updated_value, celpy.CELEvalError):
                    return updated_value

                resource[field] = updated_value

                continue
""", """                for sub_field, sub_value in overlay_value.items():
                    current = resource_value.get(sub_field)
                    if isinstance(current, celtypes.MapType) and isinstance(
                        sub_value, celtypes.MapType
                    ):
                        sub_value = _deep_overlay(current, sub_value)

                    resource_value[sub_field] = sub_value

                continue
""")]
DEMO = '''
import asyncio
from demolib import *
from koreo.function_test.run import run_function_test


async def run(cases):
    ft = await offer(FunctionTest, "t", {
        "functionRef": {"kind": "ValueFunction", "name": "f"},
        "inputs": {"m": {"a": 1, "b": 1}},
        "testCases": cases})
    return [(r.label.split()[-1], r.test_pass) for r in (await run_function_test("t", ft)).test_results]


async def main():
    await offer(ValueFunction, "f", {"return": {"a": "=inputs.m.a", "b": "=inputs.m.b"}})
    variant = {"label": "v", "variant": True, "inputOverrides": {"m": {"a": 2}}, "expectReturn": {"a": 2, "b": 1}}
    plain = {"label": "p", "expectReturn": {"a": 1, "b": 1}}
    with_variant = await run([plain, variant, plain | {"label": "q"}])
    without = await run([plain, plain | {"label": "q"}])
    assert with_variant == [("p", True), ("v", True), ("q", True)], with_variant
    assert without == [("p", True), ("q", True)], without


asyncio.run(main())
'''
