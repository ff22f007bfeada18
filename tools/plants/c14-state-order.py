PROPERTY = "C14"
NEEDS = "a step whose state block names a later step"
BREAKS = "steps named by the state block are collected after the order has been checked"
EDITS = [("src/koreo/workflow/prepare.py", """    condition_spec = step_spec.get("condition")
    if not condition_spec:
        condition = None
    else:
        condition = structure.StepConditionSpec(
            type_=condition_spec.get("type"),
            name=condition_spec.get("name"),
        )

    state_spec""", """    out_of_order_steps = needed_steps.difference(known_steps)
    if out_of_order_steps:
        return (
            resources,
            structure.ErrorStep(
                label=step_label,
                outcome=PermFail(
                    message=f"Step '{step_label}', must come after {', '.join(out_of_order_steps)}.",
                    location=step_location,
                ),
                condition=None,
            ),
            needed_parent_properties,
        )

    condition_spec = step_spec.get("condition")
    if not condition_spec:
        condition = None
    else:
        condition = structure.StepConditionSpec(
            type_=condition_spec.get("type"),
            name=condition_spec.get("name"),
        )

    state_spec"""), ("src/koreo/workflow/prepare.py", """                needed_parent_properties,
            )

    out_of_order_steps = needed_steps.difference(known_steps)
    if out_of_order_steps:
        return (
            resources,
            structure.ErrorStep(
                label=step_label,
                outcome=PermFail(
                    message=f"Step '{step_label}', must come after {', '.join(out_of_order_steps)}.",
                    location=step_location,
                ),
                condition=None,
            ),
            needed_parent_properties,
        )

    return (
        resources,
        structure.Step(""", """                needed_parent_properties,
            )

    return (
        resources,
        structure.Step(""")]
DEMO = '''
import asyncio
from demolib import *
from koreo.result import is_unwrapped_ok
from koreo.workflow.prepare import prepare_workflow


async def main():
    await offer(ValueFunction, "give", {"return": {"v": 1}})
    ref = {"kind": "ValueFunction", "name": "give"}
    wf, _ = await prepare_workflow("wf", {"steps": [
        {"label": "one", "ref": ref, "state": {"v": "=steps.two.v"}},
        {"label": "two", "ref": ref},
    ]})
    assert not is_unwrapped_ok(wf.steps_ready), wf.steps_ready


asyncio.run(main())
'''
