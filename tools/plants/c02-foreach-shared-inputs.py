PROPERTY = "C02"
NEEDS = "a forEach step whose items' Functions look at the item only after another await (an API call), with at least two items"
BREAKS = "all iterations share one map of inputs, so every invocation which evaluates after the loop has moved on sees the last item"
EDITS = [("src/koreo/workflow/reconcile.py", """                iterated_inputs = copy.deepcopy(inputs)
""", """                iterated_inputs = inputs
""")]
DEMO = '''
from demolib import *


async def main():
    await offer(ValueFunction, "show", {"return": {"got": "=inputs.item"}})
    cluster = Cluster()
    spec = {"steps": [{"label": "each", "ref": {"kind": "ValueFunction", "name": "show"},
                       "inputs": {"other": 1}, "forEach": {"itemIn": "=parent.items", "inputKey": "item"},
                       "state": {"each": "=value"}}]}
    out = await workflow(cluster, spec, {"items": ["a", "b", "c"]})
    assert [x["got"] for x in out.state["each"]] == ["a", "b", "c"], out


run(main())
'''
