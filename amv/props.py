"""Claimed properties (level etc.); the texts are in /verif/properties.jsonl"""
import json, os
_p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
PROPS = {}
if os.path.exists(_p):
    for _l in open(_p):
        if _l.strip():
            _d = json.loads(_l)
            PROPS[_d["id"]] = dict(level="proof", title=_d["title"])

_m = os.path.join(os.path.dirname(_p), "MANIFEST.json")
if os.path.exists(_m):
    for _c in json.load(open(_m))["checks"]:
        if _c["property"] in PROPS:
            PROPS[_c["property"]]["level"] = _c["level"]
