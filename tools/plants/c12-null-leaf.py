PROPERTY = "C12"
NEEDS = "an overlay leaf which is null (literally, or computed)"
BREAKS = "an overlay's null removes the field instead of setting it"
EDITS = [("src/koreo/cel/evaluation.py", """                overlaid[cel_key] = values[value_index]
""", """                if values[value_index] is None:
                    overlaid.pop(cel_key, None)
                else:
                    overlaid[cel_key] = values[value_index]
""")]
DEMO = '''
from demolib import *


async def main():
    cluster = Cluster()
    await resource(cluster, {"apiConfig": API, "resource": {"spec": {"a": 2, "b": 3}},
                             "overlays": [{"overlay": {"spec": {"a": None, "c": "=inputs.n"}}}]}, {"n": None})
    sent = [r["body"]["spec"] for r in cluster.log if r["verb"] == "create"]
    assert sent == [{"a": None, "b": 3, "c": None}], sent


run(main())
'''
