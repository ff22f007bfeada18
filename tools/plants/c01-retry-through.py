PROPERTY = "C01"
NEEDS = "a step with at least three dependencies, one of which has to be retried"
BREAKS = "a step with many dependencies takes over the Retry of a dependency as its own outcome instead of DepSkip"
EDITS = [("src/koreo/workflow/reconcile.py", """            case result.Retry(message=retry_message, location=retry_location):
                return StepResult(
                    result=result.DepSkip(
                        f"'{step_label}' is waiting ({retry_message} at {retry_location}).",
                        location=location,
                    )
                )
""", """            case result.Retry(
                message=retry_message, location=retry_location
            ) if len(dependencies) < 3:
                return StepResult(
                    result=result.DepSkip(
                        f"'{step_label}' is waiting ({retry_message} at {retry_location}).",
                        location=location,
                    )
                )

            case result.Retry() as waiting:
                return StepResult(result=waiting)
""")]
DEMO = '''
from demolib import *


async def main():
    await offer(ValueFunction, "good", {"return": {"a": 1}})
    await offer(ValueFunction, "wait", {"preconditions": [{"assert": "=false", "retry": {"message": "m", "delay": 7}}],
                                        "return": {"a": 1}})
    step = lambda label, name, **more: {"label": label, "ref": {"kind": "ValueFunction", "name": name},
                                        "condition": {"type": label.title(), "name": label}, **more}
    for deps in (["one", "wait"], ["one", "two", "wait"]):
        out = await workflow(Cluster(), {"steps": [
            step("one", "good"), step("two", "good"), step("wait", "wait"),
            step("last", "good", inputs={d: f"=steps.{d}" for d in deps})]}, name="-".join(deps))
        reasons = {c["type"]: c["reason"] for c in out.conditions}
        assert reasons["Last"] == "DepSkip", reasons


run(main())
'''
