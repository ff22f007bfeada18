PROPERTY = "C09"
NEEDS = "an API call of one forEach iteration which never answers while the others succeed"
BREAKS = "iterations which timed out are left out, so the forEach step is reported ready with items missing"
EDITS = [("src/koreo/workflow/reconcile.py", """        if task.cancelled():
            outcomes.append(
                StepResult(
                    result=result.Retry(
                        message=f"Timeout running step ({task_name}), will retry.",
                        delay=TIMEOUT_RETRY_DELAY,
                        location=workflow_key,
                    )
                )
            )

        elif""", """        if task.cancelled():
            continue

        elif""")]
DEMO = '''
from demolib import *


async def main():
    cluster = Cluster()
    cluster.fault = lambda req: "hang" if req["name"] == "two" else None
    for name in ("one", "two"):
        cluster.put(API["apiVersion"], "things", "ns1", name, thing({}, name=name))
    await offer(ResourceFunction, "read", {"apiConfig": {**API, "name": "=inputs.name", "readonly": True}, "resource": {},
                                           "return": {"n": "=resource.metadata.name"}})
    out = await workflow(cluster, {"steps": [{"label": "each", "ref": {"kind": "ResourceFunction", "name": "read"},
        "forEach": {"itemIn": "=['one', 'two']", "inputKey": "name"}, "condition": {"type": "Each", "name": "each"}}]})
    return out


out, _ = run(main())
assert isinstance(out.result, (result.Retry, result.PermFail)), out.result
assert all(c["reason"] != "Ready" for c in out.conditions), out.conditions
'''
