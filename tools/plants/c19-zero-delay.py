PROPERTY = "C19"
NEEDS = "an expectOutcome retry whose delay is 0, meaning any delay, for a function which retries with a delay other than the default"
BREAKS = "a delay of zero is read as the default delay wherever predicates are read; FunctionTest reads its expectOutcome the same way, so a test which accepts any delay fails"
EDITS = [("src/koreo/predicate_helpers.py", """            case {"assert": _, "retry": {"message": message, "delay": delay}}:
""", """            case {"assert": _, "retry": {"message": message, "delay": delay}} if not delay:
                return result.Retry(
                    message=f"{message}",
                    delay=DEFAULT_LOAD_RETRY_DELAY,
                    location=location,
                )

            case {"assert": _, "retry": {"message": message, "delay": int() as delay}}:
"""), ("src/koreo/predicate_helpers.py", """from koreo.cel.functions import koreo_cel_functions
""", """from koreo.cel.functions import koreo_cel_functions
from koreo.constants import DEFAULT_LOAD_RETRY_DELAY
""")]
DEMO = '''
import asyncio
from demolib import *
from koreo.function_test.run import run_function_test


async def main():
    await offer(ValueFunction, "f", {"preconditions": [
        {"assert": "=inputs.ok", "retry": {"message": "not yet", "delay": 7}}]})
    seen = []
    for delay in (0, 7, 8):
        ft = await offer(FunctionTest, "t", {
            "functionRef": {"kind": "ValueFunction", "name": "f"},
            "inputs": {"ok": False},
            "testCases": [{"expectOutcome": {"retry": {"message": "not", "delay": delay}}}]})
        seen.append((await run_function_test("t", ft)).test_results[0].test_pass)
    assert seen == [True, True, False], seen


asyncio.run(main())
'''
