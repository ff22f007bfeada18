PROPERTY = "C09"
NEEDS = "a drifted object whose patch the API server refuses"
BREAKS = "a refused patch is swallowed, and the function reports the stale object as ready"
EDITS = [("src/koreo/resource_function/reconcile/__init__.py", """            await api_resource.patch(_prepare_for_api(converted_resource))
""", """            try:
                await api_resource.patch(_prepare_for_api(converted_resource))
            except kr8s.ServerError:
                return ReconcileResult(result=api_resource.raw, resource_id=resource_id)
""")]
DEMO = '''
from demolib import *
from koreo.result import is_unwrapped_ok


async def main():
    cluster = Cluster()
    cluster.put(API["apiVersion"], API["plural"], "ns1", "thing", thing({"a": 1}))
    cluster.fault = lambda request: server_error(503) if request["verb"] == "patch" else None
    await offer(ResourceFunction, "thing", {"apiConfig": API, "resource": {"spec": {"a": 2}},
                                            "return": {"a": "=resource.spec.a"}})
    spec = {"steps": [{"label": "step", "ref": {"kind": "ResourceFunction", "name": "thing"}}]}
    out = await workflow(cluster, spec)
    assert not is_unwrapped_ok(out.result), out.result
    cluster.fault = None
    for _ in range(3):
        out = await workflow(cluster, spec)
    assert is_unwrapped_ok(out.result), out.result


run(main())
'''
