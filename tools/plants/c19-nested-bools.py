PROPERTY = "C19"
NEEDS = "a boolean in a list directly inside a list, in an object a ResourceFunction creates or patches"
BREAKS = "nested lists are passed on unconverted, so the object sent holds CEL's number-like booleans: the right expectResource fails and one with 1 in place of true passes"
EDITS = [("src/koreo/cel/encoder.py", """            return [convert_bools(item) for item in cel_object]
""", """            return [
                convert_bools(item) if isinstance(item, _CONVERTED) else item
                for item in cel_object
            ]
"""), ("src/koreo/cel/encoder.py", """def convert_bools(
""", """_CONVERTED = (
    celtypes.BoolType,
    celtypes.StringType,
    celtypes.TimestampType,
    celtypes.DurationType,
    celtypes.IntType,
    celtypes.UintType,
    celtypes.DoubleType,
    celtypes.BytesType,
    celtypes.MapType,
    celtypes.NullType,
    dict,
)


def convert_bools(
""")]
DEMO = '''
import asyncio
from demolib import *
from koreo.function_test.run import run_function_test

SPEC = {"apiConfig": API, "resource": {"spec": {"grid": [[True, False], [True]]}}}


async def main():
    await offer(ResourceFunction, "f", SPEC)
    passed = []
    for grid in ([[True, False], [True]], [[1, 0], [1]], [[True, True], [True]]):
        ft = await offer(FunctionTest, "t", {
            "functionRef": {"kind": "ResourceFunction", "name": "f"},
            "testCases": [{"expectResource": {
                "apiVersion": API["apiVersion"], "kind": API["kind"], "spec": {"grid": grid},
                "metadata": {"name": "thing", "namespace": "ns1"}}}]})
        passed.append((await run_function_test("t", ft)).test_results[0].test_pass)
    assert passed == [True, False, False], passed


asyncio.run(main())
'''
