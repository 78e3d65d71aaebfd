"""tools/cseed.py [ids]: writes /verif/seeded/<id> from tools/cseeds.py and confirms that each planted change builds, passes the stable tests and is shown by its demo (works on /repo's tree and restores it)"""
import os, subprocess, json, sys
SEEDS = {}
SUN = "lib/sundials-6.1.1/"
def seed(id, prop, edits, body, srcs, needs, breaks):
    SEEDS[id] = (prop, edits, body, srcs, needs, breaks)
HERE = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(HERE, "cseeds.py")).read())
SH = '''#!/bin/bash
# run in the repository's root after the build: builds demo.c with the C sources it exercises, in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
U=$R/lib/sundials-6.1.1
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
cp "$D/demo.c" "$S/demo.c" || exit 3
cd "$S" || exit 3
L=""
for f in %s; do L="$L $U/$f"; done
gcc-11 -g -O1 -w -I$U -I$U/include -I$U/src/sundials -I$U/src/cvodes -I$U/src/idas -I$U/src/kinsol demo.c $L -lm -o demo || exit 3
timeout 120 ./demo
rc=$?
exit $rc
'''
def run(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fast(sel):
    """only the demos, on a copy"""
    import tempfile
    for id in sel or list(SEEDS):
        prop, edits, body, srcs, needs, breaks = SEEDS[id]
        w = tempfile.mkdtemp(); run("mkdir -p %s/lib/sundials-6.1.1; cp -a /repo/lib/sundials-6.1.1/src /repo/lib/sundials-6.1.1/include %s/lib/sundials-6.1.1/; mkdir %s/d" % (w, w, w))
        open(w + "/d/demo.c", "w").write(body); open(w + "/d/demo.sh", "w").write(SH % " ".join(srcs))
        c = run("bash %s/d/demo.sh" % w, cwd=w)
        for f, a, b in edits:
            p = w + "/" + SUN + f; t = open(p).read()
            if t.count(a) != 1: print(id, "matches", t.count(a), a[:60])
            open(p, "w").write(t.replace(a, b))
        m = run("bash %s/d/demo.sh" % w, cwd=w)
        print(id, "clean", c.returncode, (c.stdout + c.stderr)[:300], "| patched", m.returncode, m.stdout[:150].replace("\n", " / "), m.stderr[:200], "OK" if c.returncode == 0 and m.returncode in (1, 2) else "BAD")
        run("rm -rf " + w)
def main(sel):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for id in sel or list(SEEDS):
        prop, edits, body, srcs, needs, breaks = SEEDS[id]
        d = "/verif/seeded/" + id
        os.makedirs(d, exist_ok=True)
        ok = True
        for f, a, b in edits:
            p = "/repo/" + SUN + f
            t = open(p).read()
            if t.count(a) != 1:
                print(id, "edit matches", t.count(a), "times:", a[:60]); ok = False; break
            open(p, "w").write(t.replace(a, b))
        if not ok:
            run("git -C /repo checkout -- ."); continue
        diff = run("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.c", "w").write(body)
        open(d + "/demo.sh", "w").write(SH % " ".join(srcs))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        b = run("bash /opt/vp/build.sh")
        t = run("bash /opt/vp/test.sh /tmp/o.json")
        o = json.load(open("/tmp/o.json")) if os.path.exists("/tmp/o.json") else {}
        lost = sorted(stable - set(o.get("passed", [])))
        m = run("bash %s/demo.sh" % d, cwd="/repo")
        run("git -C /repo checkout -- .")
        c = run("bash %s/demo.sh" % d, cwd="/repo")
        good = not lost and b.returncode == 0 and m.returncode not in (0, 3) and c.returncode == 0
        print(id, prop, "build", b.returncode, "lost tests", lost[:3], "demo patched", m.returncode, (m.stdout + m.stderr)[:150].replace("\n", " / "), "clean", c.returncode, c.stdout[:100] + c.stderr[:300], "OK" if good else "BAD")
    run("bash /opt/vp/build.sh")
if __name__ == "__main__":
    fast(sys.argv[2:]) if sys.argv[1:2] == ["fast"] else main(sys.argv[1:])
