PROPERTY = "C02"
NEEDS = "two steps publishing the same state key, the later one answering first"
BREAKS = "step results are merged in the order the steps complete"
EDITS = [("src/koreo/workflow/reconcile.py", """    task_map: dict[str, asyncio.Task[StepResult]] = {}

    try:""", """    task_map: dict[str, asyncio.Task[StepResult]] = {}
    finished: list[asyncio.Task[StepResult]] = []

    try:"""), ("src/koreo/workflow/reconcile.py", """                    outcome_map[step.label] = (step.condition, step.state)
    except:
        # Exceptions will be processed for each task
        pass
""", """                    outcome_map[step.label] = (step.condition, step.state)
                    task_map[step.label].add_done_callback(finished.append)
    except:
        # Exceptions will be processed for each task
        pass
"""), ("src/koreo/workflow/reconcile.py", """    for task in task_map.values():
        task_name = task.get_name()
""", """    for task in finished:
        task_name = task.get_name()
""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    cluster = Cluster()

    async def gate(req):
        await asyncio.sleep(0.2 if req["name"] == "slow" else 0.01)

    cluster.gate = gate
    for name in ("slow", "fast"):
        cluster.put(API["apiVersion"], "things", "ns1", name, {**thing({}, name=name)})
    await offer(ResourceFunction, "read", {"apiConfig": {**API, "name": "=inputs.name", "readonly": True}, "resource": {},
                                           "return": {"n": "=resource.metadata.name"}})
    step = lambda name: {"label": "step" + name, "ref": {"kind": "ResourceFunction", "name": "read"},
                         "inputs": {"name": name}, "state": {"last": "=value.n"}}
    out = await workflow(cluster, {"steps": [step("slow"), step("fast")]})
    assert out.state == {"last": "fast"}, out.state


asyncio.run(main())
'''
