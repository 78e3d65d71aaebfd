"""Concrete executions of the real code: replay of violations, and bounded stand-in where a unit is outside reach."""
from .gendrv import GEN
import sys, json, time, os, subprocess, tempfile, shutil, threading, glob, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FC = "gfortran-11"
FLAGS = ["-cpp", "-O0", "-g", "-fcheck=all", "-ffree-line-length-none", "-w"]

SUN = "/repo/lib/sundials-6.1.1"
CVINC = ["include", "src/sundials", "src/cvodes"]
CVPAT = r"src/(cvodes/|nvector/serial|sunmatrix/dense|sunlinsol/dense|sunlinsol/band|sunmatrix/band|sunlinsol/spgmr|sunnonlinsol/(newton|fixedpoint)|sundials/sundials_(?!xbraid|mpi|hypre)|sundials/fmod)"
def sundials():
    """the C files and Fortran interfaces of the bundled SUNDIALS that the ODE solver needs, from its build file"""
    t = open(SUN + "/meson.build").read()
    t = re.sub(r"#[^\n]*", "", t)
    fs = re.findall(r"'(src/[\w/]+\.(?:c|f90))'", t)
    return [SUN + "/" + f for f in fs if re.match(CVPAT, f)]

def sources(src, cv=False):
    """library sources in dependency order"""
    files = [f for f in glob.glob(src + "/*.F90") + glob.glob(src + "/prob/*.F90") if cv or not os.path.basename(f).startswith("cvodes")]
    if cv:
        files += [f for f in sundials() if f.endswith(".f90")]
    prov, need = {}, {}
    for f in files:
        t = open(f, errors="replace").read().lower()
        for m in re.findall(r"^\s*module\s+(\w+)\s*$", t, re.M):
            prov[m] = f
        need[f] = set(re.findall(r"^\s*use\s*(?:,\s*\w+\s*::)?\s*(\w+)", t, re.M))
    order, seen = [], set()
    def visit(f):
        if f in seen:
            return
        seen.add(f)
        for m in sorted(need[f]):
            if m in prov and prov[m] != f:
                visit(prov[m])
        order.append(f)
    for f in sorted(files):
        visit(f)
    return order, prov, need

def build(src, scratch, flags=FLAGS, jobs=4, cv=False):
    order, prov, need = sources(src, cv)
    cs = [f for f in sundials() if f.endswith(".c")] if cv else []
    co = lambda f: "o/c_%s.o" % os.path.basename(f)[:-2]
    if cv:
        flags = flags + ["-DUSE_SUNDIALS"] + ["-I%s/%s" % (SUN, d) for d in CVINC]
        jobs = 6
    mk = ["FC=%s" % FC, "all: %s" % " ".join(["o/%s.o" % os.path.basename(f)[:-4] for f in order] + [co(f) for f in cs])]
    for f in cs:
        mk.append("%s:\n\tgcc-11 -O1 -w %s -c %s -o $@" % (co(f), " ".join("-I%s/%s" % (SUN, d) for d in CVINC), f))
    inv = {}
    for m, f in prov.items():
        inv.setdefault(f, []).append(m)
    for f in order:
        deps = ["o/%s.o" % os.path.basename(prov[m])[:-4] for m in need[f] if m in prov and prov[m] != f]
        mk.append("o/%s.o: %s\n\t$(FC) %s -c %s -J. -o $@" % (os.path.basename(f)[:-4], " ".join(sorted(set(deps))), " ".join(flags), f))
    os.makedirs(scratch + "/o", exist_ok=True)
    open(scratch + "/Makefile", "w").write("\n".join(mk) + "\n")
    r = subprocess.run(["make", "-s", "-j%d" % jobs, "all"], cwd=scratch, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        return "library does not build: " + (r.stdout + r.stderr)[-1500:]
    return None

class Job:
    pass

def start(pid, src, tier, seed):
    """in a process of its own, beside the proofs"""
    j = Job()
    j.dir = tempfile.mkdtemp(prefix="fzv-replay-")
    j.p = subprocess.Popen([sys.executable, "-m", "fzv.replay", pid, src, tier, str(seed), j.dir + "/out.json"], cwd=ROOT, start_new_session=True)
    return j

def wait(j):
    try:
        j.p.wait(timeout=500)
    except subprocess.TimeoutExpired:
        os.killpg(j.p.pid, 9)
        j.p.wait()

def finish(j):
    wait(j)
    try:
        return json.load(open(j.dir + "/out.json"))
    except Exception as x:
        return dict(fails=[], evaluations=0, bound="", note="", error="replay gave no result: %s" % x, how="")
    finally:
        shutil.rmtree(j.dir, ignore_errors=True)

def main(argv):
    pid, src, tier, seed, out = argv
    j = Job()
    j.res = dict(fails=[], evaluations=0, bound="", note="", error=None, how="")
    j.scratch = os.path.dirname(out) + "/build"
    os.makedirs(j.scratch)
    run(j, pid, src, tier, int(seed))
    json.dump(j.res, open(out, "w"))

def run(j, pid, src, tier, seed):
    drv = os.path.join(ROOT, "replay", pid.lower() + ".F90")
    if not os.path.exists(drv) and pid not in GEN:
        j.res["note"] = "no replay driver"
        return
    scratch = j.scratch
    if pid in GEN:
        drv = scratch + "/drv.F90"
        open(drv, "w").write(GEN[pid]())
    try:
        err = build(src, scratch, cv=pid in ("C18", "C19"))
        if err:
            j.res["error"] = err
            return
        common = os.path.join(ROOT, "replay", "chk.F90")
        objs = sorted(glob.glob(scratch + "/o/*.o"))
        r = subprocess.run([FC] + FLAGS + ["-I.", "-J.", common, drv] + (["-DUSE_SUNDIALS"] if pid in ("C18", "C19") else []) + objs + ["-o", "drv", "-lm"], cwd=scratch, capture_output=True, text=True, timeout=300)
        if r.returncode != 0:
            j.res["error"] = "driver does not build: " + r.stderr[-1500:]
            return
        execute(j, scratch, "./drv", tier, seed)
        j.res["how"] = "build %s with %s %s, then run it with arguments %s %s" % (drv, FC, " ".join(FLAGS), seed, tier)
    except Exception as x:
        j.res["error"] = str(x)

def execute(j, scratch, exe, tier, seed):
    """the driver takes a case group number; groups run until one prints END"""
    g = 1
    bounds = []
    t0 = time.time()
    lim = 60 if tier == "quick" else 240
    while g <= 60:
        if time.time() - t0 > 400:
            j.res["note"] = "stopped before case group %d: out of time" % g
            return
        try:
            r = subprocess.run([exe, str(g), str(seed), "1" if tier == "quick" else "8"], cwd=scratch, capture_output=True, text=True, timeout=lim, env=dict(os.environ, MALLOC_PERTURB_="89"))
            out, rc = r.stdout, r.returncode
            err = r.stderr
        except subprocess.TimeoutExpired as x:
            j.res["fails"].append("case group %d: does not terminate within %d s" % (g, lim))
            lim = 10
            g += 1
            continue
        last = ""
        done = False
        for l in out.splitlines():
            l = l.strip()
            if l.startswith("FAIL"):
                j.res["fails"].append(l)
            elif l.startswith("CASE"):
                last = l
            elif l.startswith("DONE"):
                done = True
                j.res["evaluations"] += int(l.split()[1])
            elif l.startswith("BOUND"):
                bounds.append(l[5:].strip())
            elif l.startswith("END"):
                j.res["bound"] = "; ".join(bounds)
                return
        if not done:
            j.res["fails"].append("case group %d stops with exit code %d after %s: %s" % (g, rc, last or "start", " ".join(err.split())[:400]))
        g += 1

if __name__ == "__main__":
    main(sys.argv[1:])
