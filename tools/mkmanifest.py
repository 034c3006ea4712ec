#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check %s --tier thorough" % i, technique="symbolic execution of the program's LLVM IR, assertions decided by z3",
    level="model_checking", level_note="every input within the bounds is covered by a path whose condition and assertions z3 decides; bounds: " + PROPS[i]["bounds"]) for i in ids if i in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
