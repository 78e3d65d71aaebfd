"""rewrites the C part of properties.jsonl (C22 and later)"""
import json, sys
P = "lib/sundials-6.1.1/"
def prop(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[P + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech], state=[], observe_at=observe, hook_needed=None))
NEW = []
exec(open("/verif/tools/props_c_list.py").read())
ls = open("/verif/properties.jsonl").read().splitlines()
ids = {p["id"] for p in NEW}
ls = [l for l in ls if json.loads(l)["id"] not in ids] + [json.dumps(p) for p in NEW]
open("/verif/properties.jsonl", "w").write("\n".join(ls) + "\n")
