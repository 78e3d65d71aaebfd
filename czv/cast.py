"""C front end: clang's typed AST of the real source file, as JSON."""
import json, os, subprocess, re

SUN = os.environ.get("CZV_SRC", "/repo/lib/sundials-6.1.1")
def incs(sun):
    return ["-I" + sun, "-I" + sun + "/include", "-I" + sun + "/src/sundials", "-I" + sun + "/src/cvodes"]

class N:
    """AST node"""
    __slots__ = ("kind", "type", "name", "op", "value", "cast", "inner", "ref", "refkind", "arrow", "line", "extra", "rid", "did")
    def __repr__(s):
        return "<%s %s %s>" % (s.kind, s.name or s.op or s.value, s.line)

class TU:
    def __init__(s, path):
        s.path = path
        s.funcs, s.records, s.typedefs, s.enums, s.globals = {}, {}, {}, {}, {}

def _ty(d):
    t = d.get("type")
    if not t:
        return None
    return t.get("desugaredQualType") or t.get("qualType")

class Loader:
    def __init__(s):
        s.line = 0
        s.file = None
    def conv(s, d):
        n = N()
        n.kind = d.get("kind")
        loc = d.get("loc") or {}
        s.pos(loc)
        r = d.get("range") or {}
        s.pos(r.get("begin") or {})
        n.line = s.line
        n.type = _ty(d)
        n.name = d.get("name")
        n.op = d.get("opcode")
        n.value = d.get("value")
        n.cast = d.get("castKind")
        n.arrow = d.get("isArrow")
        n.did = d.get("id")
        rd = d.get("referencedDecl")
        n.ref = rd.get("name") if rd else None
        n.rid = rd.get("id") if rd else None
        n.refkind = rd.get("kind") if rd else None
        n.extra = {k: d[k] for k in ("isPostfix", "argType", "hasElse", "hasInit", "hasVar", "init", "storageClass", "declId", "targetLabelDeclId", "computeLHSType", "tagUsed") if k in d}
        n.inner = [s.conv(c) if c else None for c in d.get("inner", [])]
        s.pos(r.get("end") or {})
        return n
    def pos(s, l):
        if "expansionLoc" in l:
            # both parts update clang's notion of the last printed line
            s.pos(l.get("spellingLoc") or {})
            s.pos(l["expansionLoc"])
            return
        if "line" in l:
            s.line = l["line"]

def load(path, sun=SUN):
    r = subprocess.run(["clang", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json"] + incs(sun) + ["-D_FILE_OFFSET_BITS=64", path], capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("clang: " + r.stderr[-800:])
    d = json.loads(r.stdout)
    tu = TU(path)
    L = Loader()
    for c in d["inner"]:
        k = c.get("kind")
        if k == "FunctionDecl":
            if any(x.get("kind") == "CompoundStmt" for x in c.get("inner", [])):
                # only this source's functions are converted in full
                n = L.conv(c)
                tu.funcs[n.name] = n
            else:
                L.conv({kk: v for kk, v in c.items() if kk != "inner"})
                if any("inner" in c for _ in [0]):
                    for x in c.get("inner", []):
                        L.conv(x)
        elif k == "RecordDecl":
            n = L.conv(c)
            nm = "%s %s" % (c.get("tagUsed"), c.get("name"))
            if c.get("completeDefinition"):
                tu.records[nm] = [(f["name"], _ty(f)) for f in c.get("inner", []) if f.get("kind") == "FieldDecl" and f.get("name")]
        elif k == "TypedefDecl":
            L.conv(c)
            tu.typedefs[c["name"]] = _ty(c)
        elif k == "EnumDecl":
            n = L.conv(c)
            v = -1
            for x in n.inner:
                if x is not None and x.kind == "EnumConstantDecl":
                    lit = const_int(x)
                    v = lit if lit is not None else v + 1
                    tu.enums[x.name] = v
        elif k == "VarDecl":
            n = L.conv(c)
            tu.globals[n.name] = n
        else:
            L.conv(c)
    return tu

def const_int(n):
    for x in n.inner:
        if x is None:
            continue
        if x.kind == "ConstantExpr" and x.value is not None:
            return int(x.value)
        if x.kind == "IntegerLiteral":
            return int(x.value)
        r = const_int(x)
        if r is not None:
            return -r if x.kind == "UnaryOperator" and x.op == "-" else r
    return None
