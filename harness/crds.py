"""The bundled CRD schemas, as SchemaSem.tla reads them."""

import pathlib

import yaml
import koreo.schema

KEYWORDS = {"type", "required", "enum", "minItems", "maxItems", "minLength", "maxLength", "minProperties",
            "maxProperties", "nullable", "oneOf", "anyOf", "items", "properties", "additionalProperties"}
IGNORED = {"description", "default", "x-kubernetes-preserve-unknown-fields", "x-kubernetes-embedded-resource",
           "x-kubernetes-validations", "x-kubernetes-list-type", "x-kubernetes-list-map-keys", "title", "format"}


def schemas():
    """{kind: schema of spec}; what is not understood is kept for TLC to reject."""
    out = {}
    for f in sorted(pathlib.Path(koreo.schema.__file__).parent.glob("*.yaml")):
        for crd in yaml.safe_load_all(f.read_text()):
            for version in crd["spec"]["versions"]:
                if version["name"] == "v1beta1":
                    out[crd["spec"]["names"]["kind"]] = node(
                        version["schema"]["openAPIV3Schema"]["properties"]["spec"])
    return out


def node(s):
    out = {}
    for k, v in s.items():
        if k in IGNORED:
            continue
        if k == "properties":
            out[k] = {name: node(x) for name, x in v.items()}
        elif k in ("oneOf", "anyOf"):
            out[k] = [node(x) for x in v]
        elif k == "items":
            out[k] = node(v)
        else:
            out[k] = v
    if any(r.get("rule") == "self.startsWith('=')" for r in s.get("x-kubernetes-validations", [])):
        out["expression"] = True
    return out
