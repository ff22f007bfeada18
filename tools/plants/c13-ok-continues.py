PROPERTY = "C13"
NEEDS = "a false ok-assertion followed by another false assertion"
BREAKS = "a false ok-assertion no longer stops the checking, the next false assertion decides"
EDITS = [("src/koreo/predicate_helpers.py", """            case {"assert": _, "ok": {}}:
                return None
""", """            case {"assert": _, "ok": {}}:
                continue
""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    out = await value({"preconditions": [{"assert": "=false", "ok": {}}, {"assert": "=false", "skip": {"message": "no"}}],
                       "return": {"a": 1}})
    assert out == {"a": 1}, out


asyncio.run(main())
'''
