PROPERTY = "C01"
NEEDS = "a step which references two steps, one of which references the other"
BREAKS = "dependencies implied by another dependency are dropped, and with them the value"
EDITS = [("src/koreo/workflow/reconcile.py", """                        case structure.Step(dynamic_input_keys=dynamic_input_keys):
                            step_dependencies = [
                                task_map[dependency]
                                for dependency in dynamic_input_keys
                            ]
""", """                        case structure.Step(dynamic_input_keys=dynamic_input_keys):
                            # Waiting for a step implies waiting for what it needs.
                            implied = set().union(
                                *(needed.get(key, ()) for key in dynamic_input_keys)
                            )
                            needed[step.label] = implied.union(dynamic_input_keys)
                            step_dependencies = [
                                task_map[dependency]
                                for dependency in filter(lambda key: key not in implied, dynamic_input_keys)
                            ]
"""), ("src/koreo/workflow/reconcile.py", """    task_map: dict[str, asyncio.Task[StepResult]] = {}

    try:""", """    task_map: dict[str, asyncio.Task[StepResult]] = {}
    needed: dict[str, set[str]] = {}

    try:""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    cluster = Cluster()
    await offer(ValueFunction, "give", {"return": {"v": "=inputs.v"}})
    ref = {"kind": "ValueFunction", "name": "give"}
    out = await workflow(cluster, {"steps": [
        {"label": "one", "ref": ref, "inputs": {"v": 1}},
        {"label": "two", "ref": ref, "inputs": {"v": "=steps.one.v + 1"}},
        {"label": "three", "ref": ref, "inputs": {"v": "=steps.one.v + steps.two.v"}, "state": {"v": "=value.v"}},
    ]})
    assert out.state == {"v": 3}, (out.state, out.result)


asyncio.run(main())
'''
