PROPERTY = "C19"
NEEDS = "expectResource for an object with annotations of its own"
BREAKS = "all annotations are taken out of the object before it is compared, not only Koreo's: expectations with wrong annotations pass and right ones fail"
EDITS = [("src/koreo/function_test/run.py", """    annotation_count = len(actual["metadata"]["annotations"])
    if annotation_count == 0:
        return actual

    stripped = copy.deepcopy(actual)
    if annotation_count == 1:
        del stripped["metadata"]["annotations"]
    else:
        del stripped["metadata"]["annotations"][LAST_APPLIED_ANNOTATION]
""", """    if LAST_APPLIED_ANNOTATION not in actual["metadata"]["annotations"]:
        return actual

    stripped = copy.deepcopy(actual)
    del stripped["metadata"]["annotations"]
""")]
DEMO = '''
import asyncio
from demolib import *
from koreo.function_test.run import run_function_test

SPEC = {"apiConfig": API, "resource": {"metadata": {"annotations": {"a": "b"}}, "spec": {"a": 1}}}


async def main():
    await offer(ResourceFunction, "f", SPEC)
    passed = []
    for annotations in ({"a": "b"}, {"a": "c"}, None):
        metadata = {"name": "thing", "namespace": "ns1"}
        if annotations:
            metadata["annotations"] = annotations
        ft = await offer(FunctionTest, "t", {
            "functionRef": {"kind": "ResourceFunction", "name": "f"},
            "testCases": [{"expectResource": {"apiVersion": API["apiVersion"], "kind": API["kind"], "spec": {"a": 1},
                                              "metadata": metadata}}]})
        passed.append((await run_function_test("t", ft)).test_results[0].test_pass)
    assert passed == [True, False, False], passed


asyncio.run(main())
'''
