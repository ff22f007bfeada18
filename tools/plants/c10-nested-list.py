PROPERTY = "C10"
NEEDS = "a failing expression in a map below a list of lists"
BREAKS = "the scan for error objects only looks at the maps in a list, not at lists in it, so the error object is returned as data"
EDITS = [("src/koreo/cel/evaluation.py", """        case celtypes.ListType() | list() | tuple():
            for subvalue in value:
""", """        case celtypes.ListType() | list() | tuple():
            for subvalue in (v for v in value if not isinstance(v, (list, tuple))):
""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    out = await value({"return": {"rows": [["a", {"b": "=1 / 0"}]]}})
    assert isinstance(out, result.PermFail), out


asyncio.run(main())
'''
