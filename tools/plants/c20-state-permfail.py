PROPERTY = "C20"
NEEDS = "a Workflow whose step passes the schema and names known Logic, but whose `state` map does not compile"
BREAKS = "the failed compilation of a step's state is no longer turned into an error step: preparing the Workflow raises instead of reporting the step as failed"
EDITS = [("src/koreo/workflow/prepare.py", """        case PermFail() as failure:
            return (
                resources,
                structure.ErrorStep(
                    label=step_label,
                    outcome=failure,
                    condition=None,
                ),
                needed_parent_properties,
            )

    out_of_order_steps""", """
    out_of_order_steps""")]
DEMO = '''
from demolib import *
from koreo.result import PermFail, is_unwrapped_ok


async def main():
    await offer(ValueFunction, "f", {"return": {"a": 1}})
    cluster = Cluster()
    good = {"steps": [{"label": "step", "ref": {"kind": "ValueFunction", "name": "f"}, "state": {"got": "=value.a"}}]}
    bad = {"steps": [{"label": "step", "ref": {"kind": "ValueFunction", "name": "f"}, "state": {"got": "=value.a +"}}]}
    outcome = (await workflow(cluster, good, {})).result
    assert is_unwrapped_ok(outcome), outcome
    outcome = (await workflow(cluster, bad, {})).result
    assert isinstance(outcome, PermFail), outcome
    prepared = await offer(Workflow, "bad", bad)
    assert not hasattr(prepared, "steps_ready") or isinstance(prepared.steps_ready, PermFail), prepared.steps_ready


run(main())
'''
