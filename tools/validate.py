"""Validates properties.jsonl, MANIFEST.json and evidence/ (python3-vt tools/validate.py)."""
import glob, json, os, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = lambda p: json.load(open(p))
jsonschema.validate(L(V + "/MANIFEST.json"), L("/root/.vp/MANIFEST.schema.json"))
s = L("/root/.vp/PROPERTIES.schema.json")
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), s)
    for f in json.loads(l)["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
s = L("/root/.vp/EVIDENCE.schema.json")
for f in glob.glob(V + "/evidence/*.json"):
    jsonschema.validate(L(f), s)
print("valid")
