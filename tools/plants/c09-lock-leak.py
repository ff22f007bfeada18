PROPERTY = "C09"
NEEDS = "a ResourceFunction without plural whose kind look-up is cancelled by the step timeout, then another pass"
BREAKS = "the look-up's lock is kept when it is cancelled, so that every later pass waits for an answer nobody will set"
EDITS = [("src/koreo/resource_function/reconcile/kind_lookup.py", """        except:
            del _lookup_locks[lookup_kind]
            raise
""", """        except Exception:
            del _lookup_locks[lookup_kind]
            raise
""")]
DEMO = '''
from demolib import *
from koreo.result import Retry, is_unwrapped_ok


async def main():
    cluster = Cluster()
    api = {k: v for k, v in API.items() if k != "plural"} | {"kind": "Slow"}
    cluster.lookup = {f"Slow.{API['apiVersion']}": "slows"}
    hang = [True]
    cluster.fault = lambda request: "hang" if request["verb"] == "lookup" and hang[0] else None
    await offer(ResourceFunction, "slow", {"apiConfig": api, "resource": {"spec": {"a": 1}}})
    spec = {"steps": [{"label": "step", "ref": {"kind": "ResourceFunction", "name": "slow"}}]}
    first = await workflow(cluster, spec)
    assert isinstance(first.result, Retry), first.result
    hang = [False]
    verbs_seen = []
    for _ in range(3):
        await workflow(cluster, spec, name="again")
        verbs_seen = verbs(cluster)
    assert "create" in verbs_seen, verbs_seen


run(main())
'''
