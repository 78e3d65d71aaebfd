"""Concrete replay: driver programs built from /repo's C sources with sanitizers; a search for failing inputs, never counted as proof."""
import os, re, subprocess, tempfile, shutil, threading
from . import cast

HERE = os.path.dirname(os.path.abspath(__file__))
BASE_LIT = {}

def mined(files):
    """numeric literals of the sources, for the pools of values and lengths"""
    out = []
    for f in files:
        try:
            t = open(os.path.join(cast.SUN, f)).read()
        except OSError:
            continue
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        t = re.sub(r'"(\\.|[^"\\])*"', " ", t)
        for m in re.finditer(r"(?<![\w.])(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)", t):
            try:
                v = float(m.group(1))
            except ValueError:
                continue
            if v not in out and abs(v) < 1e15:
                out.append(v)
    return out[:200]

class Replay:
    pass

def start(driver, sources, mine, args, extra_args="", timeout=400, sanitize=True):
    r = Replay()
    r.fails, r.evaluations, r.error, r.how = [], 0, None, ""
    r.driver = driver
    def go():
        d = tempfile.mkdtemp(prefix="czv_")
        try:
            ms = mined(mine)
            with open(os.path.join(d, "mined.h"), "w") as f:
                f.write("#define NMINED %d\nstatic const double mined[] = {%s};\n" % (len(ms), ", ".join(repr(x) for x in ms) or "0"))
            inc = ["-I" + d, "-I" + os.path.join(HERE, "drv")] + cast.incs(cast.SUN)
            flags = ["-O1", "-g", "-w"]
            if sanitize:
                flags += ["-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero", "-fno-omit-frame-pointer"]
            objs, procs = [], []
            for s in list(sources) + [os.path.join(HERE, "drv", driver + ".c")]:
                p = s if os.path.isabs(s) else os.path.join(cast.SUN, s)
                o = os.path.join(d, re.sub(r"\W", "_", s)[-80:] + ".o")
                objs.append(o)
                procs.append((s, subprocess.Popen(["gcc-11"] + flags + inc + ["-c", p, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            for s, p in procs:
                out = p.communicate(timeout=300)[0]
                if p.returncode:
                    r.error = "cannot compile %s: %s" % (s, out.decode(errors="replace")[:1500])
            if r.error:
                return
            exe = os.path.join(d, "drv")
            p = subprocess.run(["gcc-11"] + flags + objs + ["-lm", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if p.returncode:
                r.error = "cannot link: " + p.stdout.decode(errors="replace")[:1500]
                return
            r.how = "czv/drv/%s.c built from the C sources of /repo with -fsanitize=address,undefined; arguments: %s" % (driver, " ".join(args))
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0")
            with open(os.path.join(d, "out"), "wb") as fo:
                try:
                    p = subprocess.run([exe] + list(args), stdout=fo, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            t = open(os.path.join(d, "out"), errors="replace").read()
            for l in t.splitlines():
                if l.startswith("FAIL "):
                    r.fails.append("%s: %s" % (driver, l[5:]))
                elif "runtime error:" in l and "division by zero" not in l:
                    r.fails.append("%s: undefined behaviour: %s" % (driver, l.split("/repo/")[-1]))
                m = re.match(r"EXEC (\d+) FAILS", l)
                if m:
                    r.evaluations = int(m.group(1))
            if rc == 77 or "AddressSanitizer" in t or "LeakSanitizer" in t:
                m = re.search(r"(ERROR: \w+Sanitizer[^\n]*)", t)
                st = [x.strip() for x in t.splitlines() if re.match(r"\s+#\d+ ", x)][:6]
                r.fails.append("%s: memory error: %s %s" % (driver, m.group(1) if m else "", " | ".join(st)))
            elif rc == "timeout":
                r.fails.append("%s: the program does not end (within %d s); last output: %s" % (driver, timeout, t[-300:].replace("\n", " / ")))
            elif rc != 0:
                r.fails.append("%s: the program ended with status %s after %s" % (driver, rc, t[-300:].replace("\n", " / ")))
            elif not re.search(r"^EXEC ", t, re.M):
                r.error = "driver gave no count"
        except Exception as x:
            r.error = "replay: %s" % x
        finally:
            shutil.rmtree(d, ignore_errors=True)
    r.thread = threading.Thread(target=go)
    r.thread.start()
    return r

def finish(r):
    r.thread.join()
    return r
