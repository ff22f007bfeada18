PROPERTY = "C14"
NEEDS = "a refSwitch step whose switchOn names one step and whose skipIf names another one"
BREAKS = "the steps skipIf names are only recorded when nothing was recorded before, so the step runs without waiting for them"
EDITS = [("src/koreo/workflow/prepare.py", """            arg_structure = extract_argument_structure(skip_if.ast)

            needed_parent_properties.update(
                match.group("name")
                for match in (PARENT_NAME_PATTERN.match(key) for key in arg_structure)
                if match
            )

            needed_steps.update(
""", """            arg_structure = extract_argument_structure(skip_if.ast)

            needed_parent_properties.update(
                match.group("name")
                for match in (PARENT_NAME_PATTERN.match(key) for key in arg_structure)
                if match
            )

            needed_steps = needed_steps or set(
""")]
DEMO = '''
from demolib import *


async def main():
    await offer(ValueFunction, "f", {"return": {"a": "x"}})
    ref = {"kind": "ValueFunction", "name": "f"}
    wf = await offer(Workflow, "w", {"steps": [
        {"label": "one", "ref": ref}, {"label": "two", "ref": ref},
        {"label": "three", "skipIf": "=steps.two.a == 'y'",
         "refSwitch": {"switchOn": "=steps.one.a", "cases": [ref | {"case": "x"}]}}]})
    three = wf.steps[-1]
    assert set(three.dynamic_input_keys) == {"one", "two"}, three


run(main())
'''
