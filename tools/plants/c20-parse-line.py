PROPERTY = "C20"
NEEDS = "a document accepted by the schema with an expression that is empty after its '=' (skipIf: \"=\"), so that the parser reports line 1 of no lines"
BREAKS = "preparing the document raises IndexError instead of reporting the bad expression, because the message quotes the line the parser names"
EDITS = [("src/koreo/cel/prepare.py", """'{err}' in {location} ('{encoded}')",""", """'{err}' in {location} ('{encoded.splitlines()[err.line - 1]}')",""")]
DEMO = '''
from demolib import *
from koreo.result import PermFail


async def main():
    await offer(ValueFunction, "f", {"return": {"a": 1}})
    for bad in ("=", "= ", "=1 +", "=(", "=\\n"):
        outcome = await offer(Workflow, "w", {"steps": [
            {"label": "step", "ref": {"kind": "ValueFunction", "name": "f"}, "skipIf": bad}]})
        assert outcome is not None, bad


run(main())
'''
