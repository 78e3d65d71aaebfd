import sys, time, importlib, traceback, multiprocessing as mp
from . import run
m = importlib.import_module("czv." + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ""
us = []
for n in dir(m):
    v = getattr(m, n)
    if n.isupper() and isinstance(v, list):
        us += [u for u in v if isinstance(u, run.Unit) and pat in u.id and u not in us]
def go(i):
    u = us[i]
    try:
        d = run.run(u, time.time() + 300)
    except Exception:
        return u.id + " bad " + "".join(traceback.format_exc().splitlines(True)[-5:])
    bad = [o for o in d["obs"] if not o["ok"]]
    t = ["%-45s %5.1fs paths %d obs %d bad %d %s" % (u.id, d["wall"], d["paths"], len(d["obs"]), len(bad), d["error"] or "")]
    for o in bad[:4]:
        t.append("    %s | %s | %s %s" % (o["name"], o["where"], "imprecise" if o["imprecise"] else "", o["detail"][:300]))
    return "\n".join(t)
if us:
    for u in us:
        run.program(u.files)
    if "--main" in sys.argv:
        for i in range(len(us)):
            print(go(i))
    else:
        with mp.get_context("fork").Pool(8) as p:
            for r in p.imap(go, range(len(us)), chunksize=1):
                print(r, flush=True)
