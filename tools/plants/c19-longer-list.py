PROPERTY = "C19"
NEEDS = "an actual list which holds more items than the expected one"
BREAKS = "surplus items at the end of a returned or sent list go unnoticed"
EDITS = [("src/koreo/function_test/run.py", """    if len(target) != len(actual):
        return ResourceMatch(
            match=False,
            differences=f"<length""", """    if len(target) > len(actual) or (actual and not target):
        return ResourceMatch(
            match=False,
            differences=f"<length""")]
DEMO = '''
import asyncio
from demolib import *
from koreo.function_test.run import run_function_test


async def main():
    await offer(ValueFunction, "f", {"return": {"l": [1, 2, 3]}})
    passed = []
    for l in ([1, 2, 3], [1, 2], [], [1, 2, 3, 4]):
        ft = await offer(FunctionTest, "t", {
            "functionRef": {"kind": "ValueFunction", "name": "f"}, "testCases": [{"expectReturn": {"l": l}}]})
        passed.append((await run_function_test("t", ft)).test_results[0].test_pass)
    assert passed == [True, False, False, False], passed


asyncio.run(main())
'''
