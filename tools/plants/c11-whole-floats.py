PROPERTY = "C11"
NEEDS = "a whole-numbered float written in a resource, and the payload looked at"
BREAKS = "2.0 is sent to the cluster as 2: the number is retyped"
EDITS = [("src/koreo/cel/encoder.py", """        case celtypes.DoubleType():
            return float(cel_object)
""", """        case celtypes.DoubleType():
            number = float(cel_object)
            return int(number) if number.is_integer() else number
""")]
DEMO = '''
import asyncio, json
from demolib import *


async def main():
    cluster = Cluster()
    await resource(cluster, {"apiConfig": API, "resource": {"spec": {"ratio": 2.0, "n": 2}}})
    sent = cluster.log[-1]["body"]["spec"]
    assert json.dumps(sent, sort_keys=True) == json.dumps({"n": 2, "ratio": 2.0}), sent


asyncio.run(main())
'''
