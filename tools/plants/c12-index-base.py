PROPERTY = "C12"
NEEDS = "an overlay in which a map with two or more values comes before another nested map"
BREAKS = "a nested map's values are counted from the number of its siblings instead of their values, so leaves get the values of other leaves"
EDITS = [("src/koreo/cel/prepare.py", """                    value, base=len(values) + base
""", """                    value, base=len(index) + base
""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    out = await value({"return": {"a": {"b": 1, "c": 2}, "d": {"e": 3}, "f": 4}})
    assert json.loads(json.dumps(out)) == {"a": {"b": 1, "c": 2}, "d": {"e": 3}, "f": 4}, out


asyncio.run(main())
'''
