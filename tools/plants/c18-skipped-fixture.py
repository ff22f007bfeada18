PROPERTY = "C18"
NEEDS = "a skipped case which sets currentResource, followed by other cases"
BREAKS = "a skipped case's currentResource is what the following cases start from: taking it out changes their results"
EDITS = [("src/koreo/function_test/run.py", """            new_inputs=base_inputs,
            new_resource=current_resource,
            result=TestCaseResult(
                test_pass=True,""", """            new_inputs=base_inputs,
            new_resource=test_case.current_resource or current_resource,
            result=TestCaseResult(
                test_pass=True,""")]
DEMO = '''
import asyncio
from demolib import *
from koreo.function_test.run import run_function_test

SPEC = {"apiConfig": API, "resource": {"spec": {"a": 1}}, "return": {"n": "=has(resource.n) ? resource.n : 0"}}


async def main():
    await offer(ResourceFunction, "f", SPEC)
    live = thing({"a": 1})
    results = []
    for cases in ([], [{"skip": True, "currentResource": {**live, "n": 5}, "expectReturn": {"n": 5}}]):
        ft = await offer(FunctionTest, "t", {
            "functionRef": {"kind": "ResourceFunction", "name": "f"}, "currentResource": live,
            "testCases": [*cases, {"expectReturn": {"n": 0}}]})
        results.append((await run_function_test("t", ft)).test_results[-1].test_pass)
    assert results == [True, True], results


asyncio.run(main())
'''
