"""writes MANIFEST.json from fzv/units.PROPS and czv/props.PROPS (run by hand after changing the properties)"""
import json, sys
sys.path.insert(0, "/verif")
from fzv import units
from czv import props as cprops
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
tech = "contract-based deductive verification: weakest-precondition style VC generation over the real Fortran source, discharged by z3/cvc5"
ctech = "contract-based deductive verification: VC generation from clang's typed AST of the real C source (contracts at call sites, loop facts proved by induction), discharged by z3"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in units.PROPS:
        checks.append(dict(property=i, quick_cmd="python3-vt -m fzv.check %s" % i, thorough_cmd="python3-vt -m fzv.check %s --thorough" % i,
            technique=tech, level=units.PROPS[i].level, level_note=units.NOTES.get(i, units.NOTE)))
    elif i in cprops.PROPS:
        checks.append(dict(property=i, quick_cmd="python3-vt -m czv.check %s" % i, thorough_cmd="python3-vt -m czv.check %s --thorough" % i,
            technique=ctech, level=cprops.PROPS[i].level, level_note=cprops.PROPS[i].note))
    else:
        na.append(dict(property=i, reason=units.NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -m compileall -q fzv czv", checks=checks, not_applicable=na), open("/verif/MANIFEST.json", "w"), indent=1)
