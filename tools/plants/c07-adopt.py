PROPERTY = "C07"
NEEDS = "an existing object which meets the target but lacks the parent's owner reference, with update policy never or recreate"
BREAKS = "the object is adopted with a patch whatever the update policy says"
EDITS = [("src/koreo/resource_function/reconcile/__init__.py", """    match crud_config.update:
        case structure.UpdateNever():
            logger.debug(""", """    update = crud_config.update
    if resource_match.match and not owner_reffed:
        # Adopting is cheap, there is no need to replace the object for it.
        update = structure.UpdatePatch()

    match update:
        case structure.UpdateNever():
            logger.debug(""")]
DEMO = '''
import asyncio
from demolib import *


async def main():
    for policy in ({"never": {}}, {"recreate": {}}):
        cluster = Cluster()
        cluster.put(API["apiVersion"], "things", "ns1", "thing", thing({"a": 1}, ownerReferences=[]))
        await resource(cluster, {"apiConfig": API, "resource": {"spec": {"a": 1}}, "update": policy})
        assert "patch" not in verbs(cluster), (policy, verbs(cluster))


asyncio.run(main())
'''
