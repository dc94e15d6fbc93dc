"""writes MANIFEST.json from sa/props.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from sa import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    P = props.PROPS.get(i)
    if P is None:
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=P.technique, level=P.level, level_note=P.note))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
