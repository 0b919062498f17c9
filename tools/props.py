#!/usr/bin/env python3
# Source of /verif/properties.jsonl:  python3 tools/props.py > properties.jsonl
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)
exec(open(__file__.rsplit('/', 1)[0] + '/props_list.py').read())
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
for x in P: print(json.dumps(x, ensure_ascii=False))
