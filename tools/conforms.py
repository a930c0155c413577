"""stdin: one JSON document {"schemas": {name: schema}, "configs": [...]}; stdout: for every schema, which configurations conform."""
import json, sys
import jsonschema
d = json.load(sys.stdin)
out = {}
for name, s in d["schemas"].items():
    jsonschema.Draft7Validator.check_schema(s)
    v = jsonschema.Draft7Validator(s)
    out[name] = [v.is_valid(c) for c in d["configs"]]
json.dump(out, sys.stdout)
