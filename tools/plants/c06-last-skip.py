PROPERTY = "C06"
NEEDS = "at least two overlays, of which the last is skipped and an earlier one sets the name, namespace, kind or apiVersion"
BREAKS = "the identity is not put back when the last overlay is skipped, so that the overlaid identity is compared and sent"
EDITS = [("src/koreo/resource_function/reconcile/__init__.py", """                    if skip:
                        continue

                case _ as bad_type:
                    return PermFail(
                        message=f"Expected boolean, but received {type(bad_type)} for 'spec.overlays[{idx}].skipIf'",""", """                    if skip and idx + 1 == len(overlay_steps):
                        return new_resource
                    elif skip:
                        continue

                case _ as bad_type:
                    return PermFail(
                        message=f"Expected boolean, but received {type(bad_type)} for 'spec.overlays[{idx}].skipIf'",""")]
DEMO = '''
from demolib import *


async def main():
    for skip in (True, False):
        cluster = Cluster()
        cluster.put(API["apiVersion"], API["plural"], "ns1", "thing", thing({"a": 1}))
        await resource(cluster, {
            "apiConfig": API, "resource": {"spec": {"a": 2}},
            "overlays": [{"overlay": {"metadata": {"name": "other", "labels": {"x": "y"}}}},
                         {"skipIf": "=inputs.skip", "overlay": {"spec": {"b": 3}}}]}, {"skip": skip}, name=f"rf{skip}")
        sent = [r["body"] for r in cluster.log if r["verb"] == "patch"]
        assert sent and sent[0]["metadata"]["name"] == "thing", sent


run(main())
'''
