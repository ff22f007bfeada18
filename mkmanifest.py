"""Regenerates MANIFEST.json from the table below (run by hand)."""
import json, pathlib

RF = "ResourceFn.tla exhaustively (481k states: every small target x live x policy); the model's scenarios and random functions (templates, overlays, functions, directives, every value kind) run through the real prepare/reconcile code against an in-memory API server; every recorded pass judged by TLC. Assumes RFC 7386 patches."
WF = "Workflow.tla exhaustively (all 3-step workflows over the step kinds, every interleaving of their API calls); the model's behaviours replayed in that call order plus random workflows (up to 20 steps, sub-workflows, refSwitch, forEach, skipIf) under random schedules through the real reconcile_workflow; outcomes, values, calls and state judged by TLC against the declarative WorkflowSem.tla."
FN = "Function.tla exhaustively (stage machine: preconditions, locals, apiConfig, target, overlays, API, postconditions, return, with failing sites; up to 3-4 assertions of every kind and truth value); model behaviours and random functions (assertion lists to 20, failing sub-expressions at random depth, macros, custom functions) evaluated by the real code against an in-memory cluster; every outcome, message, delay and call judged by TLC against the declarative FunctionSem.tla."
FT = "FTest.tla exhaustively (all chains of 2-4 cases over overrides, overlays, replaced resources, variants, skips, passing and failing assertions; six broken runners must be rejected); "
NOTES = {
    "C18": FT + "the model's chains and random ones to 20 cases run through the real run_function_test against Functions whose behaviour the specification states, judged by TLC case by case; families of related tests (variants and skips removed, added, reordered) of random Functions must agree; the Function, its spec, the fixtures and the API class compared before and after.",
    "C19": FT + "random Functions' real behaviour (evaluated directly) and claims about it: true ones, and documents, deletes, outcomes, messages and delays one step away, with directives; every verdict of the real runner judged by TLC. How a patch merges into the expected object, and repeated members of map-directed lists, are left open. Known findings (the runner counts as test code and is not to be changed): its comparator of set- and map-directed lists, and deletions as empty resources; the specification models them, so that any other verdict is reported.",
    "C20": "Prepare.tla exhaustively (a JSON Schema of each bundled CRD walked over all one-step departures from a valid document; seven broken engines must be rejected) and CelShapes.tla (all expression shapes to depth 2-3 against the reference walk; two broken walks must be rejected); model documents, random specs (schema-directed mutations, type confusion, oversized and deep values) and expressions of every parseable shape given to the real preparers directly, through the cache, and again when what they name changes; validity judged by TLC with the bundled schema, compile and look-up calls watched. One known finding (locals of the Function under test).",
    "C10": FN + " Plus random Workflows with failing inputs, skipIf, forEach, switchOn and state blocks.",
    "C12": "Merge.tla exhaustively (index-tree engine against the declarative merge over all key/depth overlaps: 57.6k single layers on wide trees, 486k two-layer stacks on deep ones; seven broken engines must be rejected); model documents and random ones (templates, function overlays, computed values, locals, skipIf, create overlays) evaluated by the real code, each result judged by TLC; inputs, base, template, function and cached spec compared before and after every evaluation, which is repeated. Whether a computed map merges or replaces is left open.",
    "C13": FN,
    "C01": WF,
    "C02": WF + " Each workflow is run under several schedules.",
    "C09": "Workflow.tla with faults (error, crash, hang at any call); every fault kind at every call of sampled workflows plus random fault histories in a virtual-time loop; each pass and the recovery to the fault-free fixpoint judged by TLC. Faults are Exception subclasses, cancellation and hangs.",
    "C03": "Outcome.tla exhaustively (all operand combinations to length 4); every model transition executed on the real combine functions plus random lists, and random real Workflow passes; judged by TLC.",
    "C04": RF,
    "C05": RF,
    "C06": RF + " Documents try every identity override.",
    "C07": RF + " All mode combinations x cluster situations enumerated.",
    "C08": RF + " Directives at every depth, all owner situations.",
    "C11": "Literal.tla exhaustively (CEL lexer and writer over all texts to length 4-5 of 15 lexical classes; broken writers must be rejected); every model text plus random JSON documents written into 18 blocks of real definitions; delivered values judged by TLC character by character. Doubles compared by shortest decimal form.",
    "C14": "StaticRefs.tla exhaustively (references wrapped into every syntactic context to depth 2-3; four broken analyses must be rejected); the model's expressions and random ones placed in every field of real Workflows: recorded dependencies, readiness, and the lookups of a real evaluation judged by TLC; watched resources of random Workflows, ResourceFunctions and FunctionTests; change histories of every named resource, after each of which the definition in the cache must use the latest version.",
    "C15": "Cache.tla exhaustively (2 keys, 2-3 versions, overlapping preparations); one replay per transition of the state graph plus random histories on the real cache, each validated by TLC. Trusts the replay driver's projection of lookups.",
    "C16": "HotReload.tla exhaustively (safety and settling) incl. suspended preparers; all/sampled small schedules and random histories of the real cache at asyncio-turn granularity validated by TLC. Preparers are instrumented stand-ins.",
    "C17": "Registry.tla exhaustively; every transition of the 3-resource state graph replayed on the real registry plus random histories with waiters and bounded queues, validated by TLC.",
}
NA = {}
checks = []
for p, note in sorted(NOTES.items()):
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p} quick",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "technique": "TLA+ specification model-checked with TLC; behaviours replayed into the real code and recorded traces validated by TLC against the specification",
        "level": "model_checking",
        "level_note": note,
    })
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [
        {"property": p, "reason": NA.get(p, "check under construction")}
        for p in props if p not in NOTES
    ],
}
pathlib.Path("/verif/MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
