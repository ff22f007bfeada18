PROPERTY = "C19"
NEEDS = "expectOutcome retry with a delay and an empty message, and a function which retries with another delay"
BREAKS = "the delay is only compared when a message is expected: a wrong delay with any message ('') passes"
EDITS = [("src/koreo/function_test/run.py", """            if expected_delay and (expected_delay != actual_delay):""",
          """            if expected_message and expected_delay and (expected_delay != actual_delay):""")]
DEMO = '''
import asyncio
from demolib import *
from koreo.function_test.run import run_function_test


async def main():
    await offer(ValueFunction, "f", {"preconditions": [{"assert": "=false", "retry": {"message": "wait", "delay": 5}}]})
    passed = []
    for delay in (5, 0, 6):
        ft = await offer(FunctionTest, "t", {
            "functionRef": {"kind": "ValueFunction", "name": "f"},
            "testCases": [{"expectOutcome": {"retry": {"message": "", "delay": delay}}}]})
        passed.append((await run_function_test("t", ft)).test_results[0].test_pass)
    assert passed == [True, True, False], passed


asyncio.run(main())
'''
