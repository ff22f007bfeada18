PROPERTY = "C18"
NEEDS = "a non-variant case which changes the resource (overlayResource or currentResource) and whose function makes no API write, followed by another case"
BREAKS = "the next case starts from the resource before the overlay"
EDITS = [("src/koreo/function_test/run.py", "        new_resource=api.materialized if api._api_called else resource,\n",
          "        new_resource=api.materialized if api._api_called else current_resource,\n")]
DEMO = '''
import asyncio
from demolib import *
from koreo.function_test.run import run_function_test

SPEC = {"apiConfig": API, "resource": {"spec": {"a": 1}}, "return": {"n": "=has(resource.n) ? resource.n : 0"}}


async def main():
    await offer(ResourceFunction, "f", SPEC)
    ft = await offer(FunctionTest, "t", {
        "functionRef": {"kind": "ResourceFunction", "name": "f"},
        "testCases": [
            {"expectResource": {"apiVersion": API["apiVersion"], "kind": API["kind"], "spec": {"a": 1},
                                "metadata": {"name": "thing", "namespace": "ns1"}}},
            {"overlayResource": {"n": 3}, "expectReturn": {"n": 3}},
            {"expectReturn": {"n": 3}},
        ]})
    run = await run_function_test("t", ft)
    assert [r.test_pass for r in run.test_results] == [True] * 3, run.test_results


asyncio.run(main())
'''
