"""recorded findings: which failures they cover"""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return json.load(f)
    except (OSError, ValueError):
        return []


def matches(kf, prop, cname, label, choices):
    if kf.get("status") != "known" or kf["property"] != prop or kf["contract"] != cname:
        return False
    if not re.fullmatch(kf.get("label", ".*"), label):
        return False
    return all(str((choices or {}).get(k)) in [str(x) for x in (v if isinstance(v, list) else [v])]
               for k, v in kf.get("choices", {}).items())
