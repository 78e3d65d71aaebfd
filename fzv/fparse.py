"""Front end: preprocess and parse the free-form Fortran sources of /repo/src.

Every run reads the current working tree.  Nothing is dropped silently: a statement
the parser does not know becomes an `Unsupported` node, and executing it makes the
obligation that needed it undischarged ("outside the verifier's reach").
"""
import re, subprocess, glob, os
from fractions import Fraction

class ParseError(Exception):
    pass

# ----------------------------------------------------------------- preprocessing
def preprocess(path, defs=("USE_SUNDIALS",)):
    cmd = ["gfortran-11", "-E", "-cpp", "-ffree-line-length-none"] + ["-D" + d for d in defs] + [path]
    out = subprocess.run(cmd, capture_output=True, text=True)
    if out.returncode != 0:
        raise ParseError("preprocessing failed: %s\n%s" % (path, out.stderr[:2000]))
    return out.stdout

def logical_lines(text, path):
    """yield (lineno, label, statement text) with comments dropped, continuations joined, ';' split"""
    res = []
    lineno = 0
    cur, cur_line = "", None
    for raw in text.split("\n"):
        m = re.match(r'#\s*(\d+)\s+"', raw)
        if m:
            lineno = int(m.group(1)) - 1
            continue
        if raw.startswith("#"):
            lineno += 1
            continue
        lineno += 1
        s = strip_comment(raw).strip()
        if not s:
            continue
        if cur and s.startswith("&"):
            s = s[1:].lstrip()
        if s.endswith("&"):
            cur += s[:-1] + " "
            if cur_line is None:
                cur_line = lineno
            continue
        cur += s
        if cur_line is None:
            cur_line = lineno
        for part in split_semi(cur):
            part = part.strip()
            if part:
                m = re.match(r"(\d+)\s+(?=\S)", part)
                label = None
                if m:
                    label, part = m.group(1), part[m.end():]
                res.append((cur_line, label, part))
        cur, cur_line = "", None
    return res

def strip_comment(s):
    q = None
    for i, c in enumerate(s):
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c == "!":
            return s[:i]
    return s

def split_semi(s):
    out, q, cur = [], None, ""
    for c in s:
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c == ";":
            out.append(cur)
            cur = ""
            continue
        cur += c
    out.append(cur)
    return out

# ----------------------------------------------------------------- tokens
TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
 |(?P<real>(?:\d+\.\d*|\.\d+|\d+)(?:[edED][+-]?\d+)(?:_\w+)?|\d+\.(?![a-zA-Z]+\.)\d*(?:_\w+)?|\.\d+(?:_\w+)?)
 |(?P<int>\d+(?:_\w+)?)
 |(?P<dot>\.[a-zA-Z]+\.)
 |(?P<name>[a-zA-Z_]\w*)
 |(?P<op>\*\*|//|==|/=|<=|>=|=>|::|\(/|/\)|[-+*/<>=(),:%\[\]&])
""", re.X)

DOTOPS = {".eq.": "==", ".ne.": "/=", ".lt.": "<", ".le.": "<=", ".gt.": ">", ".ge.": ">="}

def tokenize(s):
    pos, out = 0, []
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise ParseError("cannot tokenize: %r" % s[pos:pos + 40])
        k = m.lastgroup
        t = m.group()
        pos = m.end()
        if k == "ws":
            continue
        if k == "name":
            t = t.lower()
        if k == "dot":
            t = t.lower()
            if t in DOTOPS:
                k, t = "op", DOTOPS[t]
        out.append((k, t))
    out.append(("end", ""))
    return out

class Toks:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0
        self.src = s
    def peek(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)]
    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t
    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] in ("op", "name", "dot")
    def accept(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise ParseError("expected %r at %r in %r" % (v, self.peek()[1], self.src))
    def name(self):
        k, t = self.next()
        if k != "name":
            raise ParseError("expected name, got %r in %r" % (t, self.src))
        return t
    def done(self):
        return self.peek()[0] == "end"

# ----------------------------------------------------------------- expressions
# ('int',n) ('real',Fraction,text) ('log',b) ('str',s) ('name',n) ('ref',base,args) ('mem',base,n)
# ('bin',op,a,b) ('un',op,a) ('arr',items,typespec) ('slice',lo,hi,st) ('kw',n,e) ('implied',items,v,lo,hi,st)
BINLV = [[".eqv.", ".neqv."], [".or."], [".and."]]

def expr(t):
    return p_lv(t, 0)

def p_lv(t, lv):
    if lv < 3:
        a = p_lv(t, lv + 1)
        while t.peek()[0] == "dot" and t.peek()[1] in BINLV[lv]:
            op = t.next()[1]
            a = ("bin", op, a, p_lv(t, lv + 1))
        return a
    if t.peek() == ("dot", ".not."):
        t.next()
        return ("un", ".not.", p_lv(t, 3))
    return p_cmp(t)

def p_cmp(t):
    a = p_cat(t)
    if t.peek()[0] == "op" and t.peek()[1] in ("==", "/=", "<", "<=", ">", ">="):
        op = t.next()[1]
        return ("bin", op, a, p_cat(t))
    return a

def p_cat(t):
    a = p_add(t)
    while t.at("//"):
        t.next()
        a = ("bin", "//", a, p_add(t))
    return a

def p_add(t):
    if t.at("-") or t.at("+"):
        op = t.next()[1]
        a = ("un", op, p_mul(t))
    else:
        a = p_mul(t)
    while t.at("+") or t.at("-"):
        op = t.next()[1]
        a = ("bin", op, a, p_mul(t))
    return a

def p_mul(t):
    a = p_pow(t)
    while t.at("*") or t.at("/"):
        op = t.next()[1]
        a = ("bin", op, a, p_pow(t))
    return a

def p_pow(t):
    a = p_prim(t)
    if t.at("**"):
        t.next()
        if t.at("-"):
            t.next()
            return ("bin", "**", a, ("un", "-", p_pow(t)))
        return ("bin", "**", a, p_pow(t))
    return a

def num(text):
    body = text.split("_")[0].lower().replace("d", "e")
    return Fraction(body)

def p_prim(t):
    k, v = t.peek()
    if k == "int":
        t.next()
        e = ("int", int(v.split("_")[0]))
    elif k == "real":
        t.next()
        e = ("real", num(v), v)
    elif k == "str":
        t.next()
        e = ("str", v[1:-1])
    elif k == "dot" and v in (".true.", ".false."):
        t.next()
        e = ("log", v == ".true.")
    elif v == "(" and k == "op":
        t.next()
        e = expr(t)
        if t.accept(","):  # complex constant or implied do (only inside array constructors)
            raise ParseError("complex constant unsupported in %r" % t.src)
        t.expect(")")
        e = ("paren", e)
    elif v in ("[", "(/") and k == "op":
        close = "]" if v == "[" else "/)"
        t.next()
        e = p_arrcons(t, close)
    elif k == "name":
        t.next()
        e = ("name", v)
    else:
        raise ParseError("unexpected %r in %r" % (v, t.src))
    while True:
        if t.at("("):
            t.next()
            e = ("ref", e, p_args(t))
        elif t.at("%"):
            t.next()
            e = ("mem", e, t.name())
        else:
            return e

def p_args(t):
    args = []
    if t.accept(")"):
        return args
    while True:
        args.append(p_arg(t))
        if t.accept(","):
            continue
        t.expect(")")
        return args

def p_arg(t):
    if t.peek()[0] == "name" and t.peek(1) == ("op", "="):
        n = t.name()
        t.next()
        return ("kw", n, expr(t))
    lo = hi = st = None
    if t.at("::"):
        t.next()
        return ("slice", None, None, expr(t))
    if not t.at(":"):
        lo = expr(t)
        if t.at("::"):
            t.next()
            return ("slice", lo, None, expr(t))
        if not t.at(":"):
            return lo
    t.expect(":")
    if not (t.at(",") or t.at(")") or t.at(":")):
        hi = expr(t)
    if t.accept(":"):
        st = expr(t)
    return ("slice", lo, hi, st)

def p_arrcons(t, close):
    save = t.i
    tspec = None
    # type-spec ::
    depth, j = 0, t.i
    while j < len(t.t):
        v = t.t[j][1]
        if v in ("(", "["):
            depth += 1
        elif v in (")", "]"):
            if depth == 0:
                break
            depth -= 1
        elif v == "::" and depth == 0:
            tspec = p_typespec(t)
            t.expect("::")
            break
        elif v == "," and depth == 0:
            break
        j += 1
    items = []
    if t.accept(close):
        return ("arr", items, tspec)
    while True:
        items.append(p_acitem(t))
        if t.accept(","):
            continue
        t.expect(close)
        return ("arr", items, tspec)

def p_acitem(t):
    if t.at("("):
        save = t.i
        t.next()
        try:
            items = [p_acitem(t)]
            while t.accept(","):
                if t.peek()[0] == "name" and t.peek(1) == ("op", "="):
                    v = t.name()
                    t.next()
                    lo = expr(t)
                    t.expect(",")
                    hi = expr(t)
                    st = None
                    if t.accept(","):
                        st = expr(t)
                    t.expect(")")
                    return ("implied", items, v, lo, hi, st)
                items.append(p_acitem(t))
        except ParseError:
            pass
        t.i = save
    return expr(t)

# ----------------------------------------------------------------- types and declarations
INTRINSIC_TYPES = ("integer", "real", "logical", "character", "complex")

def p_typespec(t):
    """returns (base, kind/typename, is_class)"""
    n = t.name()
    if n == "double":
        if t.at("precision"):
            t.next()
        return ("real", "rk", False)
    if n == "doubleprecision":
        return ("real", "rk", False)
    if n in INTRINSIC_TYPES:
        kind = None
        if t.at("("):
            t.next()
            args = p_args_loose(t)
            kind = args
        elif t.at("*"):
            t.next()
            t.next()
        return (n, kind, False)
    if n in ("type", "class"):
        t.expect("(")
        if t.accept("*"):
            t.expect(")")
            return ("type", "*", True)
        k = t.name()
        while not t.at(")"):
            t.next()
        t.expect(")")
        if k in INTRINSIC_TYPES:
            return (k, None, n == "class")
        return ("type", k, n == "class")
    if n == "procedure":
        t.expect("(")
        k = None
        if not t.at(")"):
            k = t.name()
        t.expect(")")
        return ("procedure", k, False)
    # a derived type name in an array constructor
    return ("type", n, False)

def p_args_loose(t):
    depth, out = 1, []
    while depth:
        k, v = t.next()
        if v == "(":
            depth += 1
        elif v == ")":
            depth -= 1
            if not depth:
                break
        if k == "end":
            raise ParseError("unbalanced in %r" % t.src)
        out.append(v)
    return "".join(out)

DECL_START = re.compile(r"(integer|real|double\s*precision|logical|character|complex|type\s*\(|class\s*\(|procedure\s*\()", re.I)

class Decl:
    __slots__ = ("name", "ts", "dims", "attrs", "init", "line", "ptrinit")
    def __init__(s, name, ts, dims, attrs, init, ptrinit, line):
        s.name, s.ts, s.dims, s.attrs, s.init, s.ptrinit, s.line = name, ts, dims, attrs, init, ptrinit, line

def p_decl(text, line):
    t = Toks(text)
    ts = p_typespec(t)
    attrs, dims0 = set(), None
    while t.accept(","):
        a = t.name()
        if a == "intent":
            t.expect("(")
            k = t.name()
            if t.at("out"):
                t.next()
                k = "inout"
            t.expect(")")
            attrs.add("intent_" + k)
        elif a == "dimension":
            t.expect("(")
            dims0 = p_args(t)
        elif a == "bind":
            t.expect("(")
            p_args_loose(t)
        else:
            if t.at("("):
                t.next()
                attrs.add(a + "(" + p_args_loose(t) + ")")
            else:
                attrs.add(a)
    t.accept("::")
    out = []
    while True:
        n = t.name()
        dims = dims0
        if t.at("("):
            t.next()
            dims = p_args(t)
        if t.at("*"):
            t.next()
            t.next()
        init = None
        pin = False
        if t.accept("="):
            init = expr(t)
        elif t.accept("=>"):
            init = expr(t)
            pin = True
        out.append(Decl(n, ts, dims, attrs, init, pin, line))
        if t.accept(","):
            continue
        if not t.done():
            raise ParseError("trailing tokens in declaration %r" % text)
        return out

# ----------------------------------------------------------------- program units
class Proc:
    def __init__(s, name, kind, args, result, prefix, rettype, line, file):
        s.name, s.kind, s.args, s.result, s.prefix, s.rettype = name, kind, args, result, prefix, rettype
        s.line, s.file = line, file
        s.decls, s.uses, s.body, s.internal, s.module = {}, [], [], {}, None
        s.host = None
        s.private = False
        s.interfaces = {}
        s.text = []
    @property
    def elemental(s):
        return "elemental" in s.prefix
    @property
    def impure(s):
        return "impure" in s.prefix or not ("pure" in s.prefix or "elemental" in s.prefix)
    @property
    def qual(s):
        return "%s::%s" % (s.module.name if s.module else "?", s.name)
    def __repr__(s):
        return "<proc %s>" % s.qual

class DType:
    def __init__(s, name, parent, abstract, line):
        s.name, s.parent, s.abstract, s.line = name, parent, abstract, line
        s.comps, s.order, s.bind, s.generics, s.finals = {}, [], {}, {}, []
        s.module = None

class Module:
    def __init__(s, name, file, line):
        s.name, s.file, s.line = name, file, line
        s.uses, s.decls, s.types, s.procs, s.generics, s.interfaces = [], {}, {}, {}, {}, {}
        s.default_private = False
        s.public, s.private = set(), set()
        s.syms = None
        s.errors = []

class St:
    """statement"""
    __slots__ = ("k", "line", "label", "a")
    def __init__(s, k, line, label=None, **a):
        s.k, s.line, s.label, s.a = k, line, label, a
    def __repr__(s):
        return "St(%s@%s)" % (s.k, s.line)
    def __getattr__(s, n):
        try:
            return s.a[n]
        except KeyError:
            raise AttributeError(n)

PROC_RE = re.compile(r"^((?:(?:pure|impure|elemental|recursive|module|non_recursive|integer|real|logical|double\s+precision|type|class|character)\s*(?:\([^()]*(?:\([^()]*\))?[^()]*\))?\s+|(?:integer|real|logical|type)\s*\([^()]*\)\s*)*)(function|subroutine)\s+(\w+)\s*(?:\(([^)]*)\))?\s*(.*)$", re.I)

class FileParser:
    def __init__(self, path, defs):
        self.path = path
        self.lines = logical_lines(preprocess(path, defs), path)
        self.i = 0
        self.modules = []
    def peek(self):
        return self.lines[self.i] if self.i < len(self.lines) else None
    def low(self):
        return self.lines[self.i][2].lower() if self.i < len(self.lines) else None
    def parse(self):
        while self.i < len(self.lines):
            ln, lb, s = self.lines[self.i]
            m = re.match(r"module\s+(\w+)\s*$", s, re.I)
            if m:
                self.i += 1
                self.modules.append(self.module(m.group(1).lower(), ln))
                continue
            m = re.match(r"program\s+(\w+)", s, re.I)
            self.i += 1
            if m:  # skip main programs
                depth = 1
                while self.i < len(self.lines):
                    l = self.low()
                    self.i += 1
                    if re.match(r"end\s*program", l):
                        break
        return self.modules

    def module(self, name, ln):
        m = Module(name, self.path, ln)
        while True:
            cur = self.peek()
            if cur is None:
                raise ParseError("unterminated module " + name)
            ln, lb, s = cur
            l = s.lower()
            if re.match(r"end\s*module|end$", l):
                self.i += 1
                return m
            if l == "contains":
                self.i += 1
                while True:
                    l = self.low()
                    if l is None:
                        raise ParseError("unterminated module " + name)
                    if re.match(r"end\s*module|end$", l):
                        break
                    p = self.proc()
                    p.module = m
                    m.procs[p.name] = p
                continue
            self.spec_stmt(m, ln, s, l)

    def spec_stmt(self, m, ln, s, l):
        """a specification statement of a module or procedure scope m"""
        if l.startswith("use"):
            mm = re.match(r"use\s*(?:,\s*(?:non_)?intrinsic)?\s*(?:::)?\s*(\w+)\s*(?:,\s*(.*))?$", l)
            if mm:
                only, ren = None, {}
                rest = mm.group(2)
                if rest is not None:
                    r = re.match(r"only\s*:\s*(.*)$", rest)
                    if r:
                        only = []
                        for it in split_top(r.group(1)):
                            it = it.strip()
                            if not it:
                                continue
                            if "=>" in it and "(" not in it.split("=>")[0]:
                                a, b = [x.strip() for x in it.split("=>")]
                                ren[a] = b
                                only.append(a)
                            else:
                                only.append(norm_generic(it))
                    else:
                        for it in split_top(rest):
                            a, b = [x.strip() for x in it.split("=>")]
                            ren[a] = b
                m.uses.append((mm.group(1), only, ren))
                self.i += 1
                return
        if l.startswith("implicit") or l.startswith("import") or l.startswith("intrinsic") or l.startswith("external") or l.startswith("save"):
            self.i += 1
            return
        if l == "private" or l == "public":
            if isinstance(m, Module):
                m.default_private = (l == "private")
            self.i += 1
            return
        mm = re.match(r"(private|public)\s*(?:::)?\s*(.+)$", l)
        if mm and isinstance(m, Module):
            tgt = m.private if mm.group(1) == "private" else m.public
            for it in split_top(mm.group(2)):
                tgt.add(norm_generic(it.strip()))
            self.i += 1
            return
        mm = re.match(r"(abstract\s+)?interface\s*(.*)$", l)
        if mm:
            self.interface(m, mm.group(2).strip())
            return
        mm = re.match(r"type\b(?!\s*\()\s*(.*?)(?:::)?\s*(\w+)\s*$", l)
        if mm and not l.startswith("type("):
            self.dtype(m, mm.group(1), mm.group(2), ln)
            return
        if DECL_START.match(l):
            for d in p_decl(s, ln):
                if isinstance(m, Module):
                    mark = d.attrs & {"private", "public"}
                    if "private" in mark:
                        m.private.add(d.name)
                    if "public" in mark:
                        m.public.add(d.name)
                if d.name in m.decls:  # e.g. "real x" after "dimension"
                    pass
                m.decls[d.name] = d
            self.i += 1
            return
        raise ParseError("unknown specification statement %r (%s:%d)" % (s, self.path, ln))

    def interface(self, m, name):
        self.i += 1
        gname = norm_generic(name) if name else None
        lst = []
        while True:
            ln, lb, s = self.peek()
            l = s.lower()
            if re.match(r"end\s*interface", l):
                self.i += 1
                break
            mm = re.match(r"(module\s+)?procedure\s*(::)?\s*(.+)$", l)
            if mm and not PROC_RE.match(s):
                lst += [x.strip() for x in mm.group(3).split(",")]
                self.i += 1
                continue
            p = self.proc(interface=True)
            p.module = m if isinstance(m, Module) else m.module
            m.interfaces[p.name] = p
            lst.append(p.name)
        if gname:
            m.generics.setdefault(gname, []).extend(lst) if hasattr(m, "generics") else None

    def dtype(self, m, attrs, name, ln):
        ex = re.search(r"extends\s*\(\s*(\w+)\s*\)", attrs)
        d = DType(name, ex.group(1) if ex else None, "abstract" in attrs, ln)
        d.module = m if isinstance(m, Module) else getattr(m, "module", None)
        self.i += 1
        contains = False
        while True:
            ln, lb, s = self.peek()
            l = s.lower()
            self.i += 1
            if re.match(r"end\s*type", l):
                break
            if l == "contains":
                contains = True
                continue
            if l in ("private", "sequence", "public"):
                continue
            if not contains:
                for c in p_decl(s, ln):
                    d.comps[c.name] = c
                    d.order.append(c.name)
                continue
            mm = re.match(r"generic\s*(?:,\s*(?:public|private))?\s*::\s*(.+?)\s*=>\s*(.+)$", l)
            if mm:
                d.generics.setdefault(norm_generic(mm.group(1)), []).extend(x.strip() for x in mm.group(2).split(","))
                continue
            mm = re.match(r"final\s*(::)?\s*(.+)$", l)
            if mm:
                d.finals += [x.strip() for x in mm.group(2).split(",")]
                continue
            mm = re.match(r"procedure\s*(\(\s*\w+\s*\))?\s*((?:,\s*\w+(?:\s*\([^)]*\))?\s*)*)(::)?\s*(.+)$", l)
            if mm:
                at = mm.group(2) or ""
                for it in mm.group(4).split(","):
                    it = it.strip()
                    if "=>" in it:
                        a, b = [x.strip() for x in it.split("=>")]
                    else:
                        a = b = it
                    pas = re.search(r"pass\s*\(\s*(\w+)\s*\)", at)
                    d.bind[a] = dict(target=b, nopass="nopass" in at, passarg=pas.group(1) if pas and "nopass" not in at else None,
                                     deferred="deferred" in at)
                continue
            raise ParseError("unknown type statement %r" % s)
        m.types[name] = d

    def proc(self, interface=False):
        ln, lb, s = self.peek()
        m = PROC_RE.match(s)
        if not m:
            raise ParseError("expected a procedure, got %r (%s:%d)" % (s, self.path, ln))
        prefix, kind, name, args, tail = m.groups()
        start = self.i
        self.i += 1
        prefix = prefix.lower()
        rettype = None
        pm = DECL_START.search(prefix)
        words = set(re.findall(r"[a-z_]+", re.sub(r"\([^()]*(\([^()]*\))?[^()]*\)", "", prefix)))
        if kind.lower() == "function" and pm:
            tt = Toks(prefix[pm.start():].strip())
            rettype = p_typespec(tt)
        args = [a.strip().lower() for a in args.split(",")] if args and args.strip() else []
        rm = re.search(r"result\s*\(\s*(\w+)\s*\)", tail or "", re.I)
        res = rm.group(1).lower() if rm else (name.lower() if kind.lower() == "function" else None)
        p = Proc(name.lower(), kind.lower(), args, res, words, rettype, ln, self.path)
        p.types, p.procs, p.generics = {}, {}, {}
        # specification part
        endre = re.compile(r"end\s*(%s)?\s*(\w+)?\s*$" % kind.lower())
        while True:
            cur = self.peek()
            if cur is None:
                raise ParseError("unterminated procedure " + name)
            ln, lb, s = cur
            l = s.lower()
            if lb is None and (l.startswith(("use ", "use,", "implicit", "import", "interface", "abstract", "private", "public", "external", "intrinsic ", "save"))
                    or (DECL_START.match(l) and not re.match(r"(real|integer|logical|character)\s*\(.*\)\s*(=|%)", l) and self.is_decl(l))
                    or (re.match(r"type\b(?!\s*\()", l) and not re.match(r"type\s*is", l))):
                self.spec_stmt(p, ln, s, l)
                continue
            break
        if interface:
            if not endre.match(self.low()):
                raise ParseError("bad interface body %r" % self.low())
            self.i += 1
            return p
        # execution part
        p.body = self.block(lambda l: bool(endre.match(l)) and not re.match(r"end\s*(if|do|select|associate|block|where|forall)", l) or l == "contains")
        if self.low() == "contains":
            self.i += 1
            while not endre.match(self.low()):
                q = self.proc()
                q.host = p
                p.internal[q.name] = q
        self.i += 1
        p.text = [x for x in self.lines[start:self.i]]
        return p

    def is_decl(self, l):
        # distinguish a declaration from an assignment to a variable whose name starts like a type
        m = re.match(r"(integer|real|logical|character|complex|double\s*precision)\b", l)
        if m:
            r = l[m.end():].lstrip()
            if r.startswith("(") or r.startswith("*"):
                d = 0
                for j, c in enumerate(r):
                    if c == "(":
                        d += 1
                    elif c == ")":
                        d -= 1
                        if d == 0:
                            r = r[j + 1:].lstrip()
                            break
            return not r.startswith("=") or r.startswith("=>")
        return True

    # ------------------------------------------------------------ executable statements
    def block(self, stop):
        out = []
        while True:
            cur = self.peek()
            if cur is None:
                raise ParseError("unterminated block in " + self.path)
            ln, lb, s = cur
            if stop(s.lower()):
                if lb is not None:
                    out.append(St("continue", ln, lb))
                return out
            out.append(self.stmt())

    def stmt(self):
        ln, lb, s = self.lines[self.i]
        l = s.lower()
        try:
            return self.stmt1(ln, lb, s, l)
        except ParseError as e:
            if self.lines[self.i][0] == ln:
                self.i += 1
            return St("unsupported", ln, lb, why=str(e), text=s)

    def stmt1(self, ln, lb, s, l):
        cname = None
        m = re.match(r"(\w+)\s*:\s*(do|if|select|associate|block)\b", l)
        if m and not re.match(r"\w+\s*::", l):
            cname = m.group(1)
            off = l.index(":") + 1
            s = s[off:].strip()
            l = s.lower()
        # if
        m = re.match(r"if\s*\(", l)
        if m:
            t = Toks(s)
            t.next()
            t.expect("(")
            c = expr(t)
            t.expect(")")
            if t.at("then"):
                return self.if_block(ln, lb, c, cname)
            if t.at("="):
                pass
            else:
                # logical if
                rest_idx = self.rest_text(s)
                self.lines[self.i] = (ln, None, rest_idx)
                st = self.stmt()
                return St("if", ln, lb, arms=[(c, [st])], name=None)
        m = re.match(r"do\s+while\s*\(", l)
        if m:
            t = Toks(s)
            t.next()
            t.next()
            t.expect("(")
            c = expr(t)
            t.expect(")")
            self.i += 1
            b = self.block(lambda x: bool(re.match(r"end\s*do\b", x)))
            self.i += 1
            return St("while", ln, lb, cond=c, body=b, name=cname)
        m = re.match(r"do\s+concurrent\s*\(", l)
        if m:
            t = Toks(s)
            t.next(); t.next(); t.expect("(")
            specs = []
            while True:
                v = t.name(); t.expect("=")
                lo = expr(t); t.expect(":"); hi = expr(t)
                st = None
                if t.accept(":"):
                    st = expr(t)
                specs.append((v, lo, hi, st))
                if t.accept(","):
                    continue
                break
            t.expect(")")
            if not t.done():
                raise ParseError("do concurrent locality unsupported")
            self.i += 1
            b = self.block(lambda x: bool(re.match(r"end\s*do\b", x)))
            self.i += 1
            for v, lo, hi, st in reversed(specs):
                b = [St("do", ln, lb, var=v, lo=lo, hi=hi, st=st, body=b, name=cname)]
            return b[0]
        m = re.match(r"do\s*$", l)
        if m:
            self.i += 1
            b = self.block(lambda x: bool(re.match(r"end\s*do\b", x)))
            self.i += 1
            return St("while", ln, lb, cond=("log", True), body=b, name=cname)
        m = re.match(r"do\s+(?:(\d+)\s*,?\s*)?(\w+)\s*=", l)
        if m:
            t = Toks(s)
            t.next()
            endlabel = None
            if t.peek()[0] == "int":
                endlabel = t.next()[1]
                t.accept(",")
            v = t.name()
            t.expect("=")
            lo = expr(t)
            t.expect(",")
            hi = expr(t)
            st = None
            if t.accept(","):
                st = expr(t)
            if not t.done():
                raise ParseError("trailing tokens in %r" % s)
            self.i += 1
            if endlabel:
                b = []
                while True:
                    cur = self.peek()
                    isend = cur[1] == endlabel
                    if re.match(r"end\s*do\b", cur[2].lower()) and isend:
                        self.i += 1
                        break
                    b.append(self.stmt())
                    if isend:
                        break
            else:
                b = self.block(lambda x: bool(re.match(r"end\s*do\b", x)))
                self.i += 1
            return St("do", ln, lb, var=v, lo=lo, hi=hi, st=st, body=b, name=cname)
        m = re.match(r"select\s*type\s*\(\s*(?:(\w+)\s*=>\s*)?(.*)\)\s*$", l)
        if m:
            sel = expr(Toks(m.group(2)))
            self.i += 1
            arms = []
            while True:
                ln2, lb2, s2 = self.peek()
                l2 = s2.lower()
                if re.match(r"end\s*select", l2):
                    self.i += 1
                    break
                a = re.match(r"(type\s*is|class\s*is)\s*\((.*)\)\s*$", l2)
                d = re.match(r"class\s*default", l2)
                if not (a or d):
                    raise ParseError("bad select type arm %r" % s2)
                self.i += 1
                b = self.block(lambda x: bool(re.match(r"(type\s*is\s*\(|class\s*is\s*\(|class\s*default|end\s*select)", x)))
                if d:
                    arms.append(("default", None, b))
                else:
                    tn = a.group(2).strip()
                    tt = Toks(tn)
                    arms.append((a.group(1)[:5].strip(), p_typespec(tt), b))
            return St("selecttype", ln, lb, sel=sel, assoc=m.group(1), arms=arms)
        m = re.match(r"select\s*case\s*\(", l)
        if m:
            t = Toks(s)
            t.next()
            if t.at("case"):
                t.next()
            t.expect("(")
            e = expr(t)
            t.expect(")")
            self.i += 1
            arms = []
            while True:
                ln2, lb2, s2 = self.peek()
                l2 = s2.lower()
                if re.match(r"end\s*select", l2):
                    self.i += 1
                    break
                if re.match(r"case\s*default", l2):
                    sel = None
                else:
                    tt = Toks(s2)
                    tt.next()
                    tt.expect("(")
                    sel = p_args(tt)
                self.i += 1
                b = self.block(lambda x: bool(re.match(r"(case\b|end\s*select)", x)))
                arms.append((sel, b))
            return St("selectcase", ln, lb, e=e, arms=arms)
        m = re.match(r"associate\s*\(", l)
        if m:
            t = Toks(s)
            t.next()
            t.expect("(")
            pairs = []
            while True:
                n = t.name()
                t.expect("=>")
                pairs.append((n, expr(t)))
                if t.accept(","):
                    continue
                t.expect(")")
                break
            self.i += 1
            b = self.block(lambda x: bool(re.match(r"end\s*associate", x)))
            self.i += 1
            return St("associate", ln, lb, pairs=pairs, body=b)
        if l == "block":
            self.i += 1
            decls = []
            while DECL_START.match(self.low()) and self.is_decl(self.low()):
                c = self.peek()
                decls += p_decl(c[2], c[0])
                self.i += 1
            b = self.block(lambda x: bool(re.match(r"end\s*block", x)))
            self.i += 1
            return St("block", ln, lb, decls=decls, body=b)
        m = re.match(r"where\s*\(", l)
        if m:
            raise ParseError("where is not supported")
        # simple statements
        self.i += 1
        return self.simple(ln, lb, s, l)

    def rest_text(self, s):
        d = 0
        q = None
        started = False
        for j, c in enumerate(s):
            if q:
                if c == q:
                    q = None
                continue
            if c in "'\"":
                q = c
            elif c == "(":
                d += 1
                started = True
            elif c == ")":
                d -= 1
                if started and d == 0:
                    return s[j + 1:].strip()
        raise ParseError("unbalanced if")

    def if_block(self, ln, lb, c, cname):
        self.i += 1
        arms = []
        stop = lambda x: bool(re.match(r"(else\s*if\s*\(.*then(\s+\w+)?$|else(\s+\w+)?$|end\s*if\b)", x))
        b = self.block(stop)
        arms.append((c, b))
        while True:
            ln2, lb2, s2 = self.peek()
            l2 = s2.lower()
            if re.match(r"end\s*if", l2):
                self.i += 1
                break
            if re.match(r"else\s*if", l2):
                t = Toks(s2)
                if t.next()[1] == "else":
                    t.next()
                t.expect("(")
                cc = expr(t)
                t.expect(")")
                self.i += 1
                arms.append((cc, self.block(stop)))
            else:
                self.i += 1
                arms.append((None, self.block(stop)))
        return St("if", ln, lb, arms=arms, name=cname)

    def simple(self, ln, lb, s, l):
        if l == "continue":
            return St("continue", ln, lb)
        if l == "return":
            return St("return", ln, lb)
        m = re.match(r"(exit|cycle)\s*(\w+)?\s*$", l)
        if m:
            return St(m.group(1), ln, lb, name=m.group(2))
        m = re.match(r"go\s*to\s*(\d+)\s*$", l)
        if m:
            return St("goto", ln, lb, target=m.group(1))
        if re.match(r"error\s*stop\b", l):
            return St("errorstop", ln, lb)
        if re.match(r"stop\b", l):
            return St("errorstop", ln, lb)
        if re.match(r"(print\b|write\s*\()", l) and not re.match(r"print\s*=|write\s*=", l):
            return St("io", ln, lb)
        m = re.match(r"call\s+", l)
        if m:
            t = Toks(s[m.end():])
            e = p_prim(t)
            if not t.done():
                raise ParseError("trailing tokens in call %r" % s)
            if e[0] != "ref":
                e = ("ref", e, [])
            return St("call", ln, lb, e=e)
        m = re.match(r"(allocate|deallocate|nullify)\s*\(", l)
        if m:
            t = Toks(s)
            t.next()
            t.expect("(")
            tspec = None
            if m.group(1) == "allocate":
                save = t.i
                try:
                    ts = p_typespec(t)
                    if t.accept("::"):
                        tspec = ts
                    else:
                        t.i = save
                except ParseError:
                    t.i = save
            args = p_args(t)
            return St(m.group(1), ln, lb, args=args, tspec=tspec)
        # assignment / pointer assignment
        t = Toks(s)
        lhs = p_prim(t)
        if t.accept("=>"):
            rhs = expr(t)
            if not t.done():
                raise ParseError("trailing tokens in %r" % s)
            return St("ptrassign", ln, lb, lhs=lhs, rhs=rhs)
        if t.accept("="):
            rhs = expr(t)
            if not t.done():
                raise ParseError("trailing tokens in %r" % s)
            return St("assign", ln, lb, lhs=lhs, rhs=rhs)
        raise ParseError("unknown statement %r" % s)

def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out

def norm_generic(s):
    s = re.sub(r"\s+", "", s.lower())
    m = re.match(r"operator\((.*)\)$", s)
    if m:
        return "operator(%s)" % DOTOPS.get(m.group(1), m.group(1))
    return s

# ----------------------------------------------------------------- whole program and name resolution
class Entity:
    """kind: var, param, proc, generic, type, iface"""
    __slots__ = ("kind", "obj", "module", "name")
    def __init__(s, kind, obj, module, name):
        s.kind, s.obj, s.module, s.name = kind, obj, module, name

INTRINSIC_MODULES = {"iso_fortran_env", "iso_c_binding", "ieee_arithmetic"}

class Program:
    def __init__(self, src="/repo/src", defs=("USE_SUNDIALS",), extra=()):
        self.modules = {}
        self.files = []
        self.parse_errors = []
        files = sorted(glob.glob(os.path.join(src, "*.F90")) + glob.glob(os.path.join(src, "*.f90")) + glob.glob(os.path.join(src, "prob", "*.F90")) +
                       glob.glob(os.path.join(src, "prob", "*.f90"))) + list(extra)
        from concurrent.futures import ThreadPoolExecutor
        def one(f):
            try:
                return f, FileParser(f, defs).parse(), None
            except ParseError as e:
                return f, [], str(e)
        with ThreadPoolExecutor(8) as ex:
            for f, mods, err in ex.map(one, files):
                self.files.append(f)
                if err:
                    self.parse_errors.append((f, err))
                for m in mods:
                    self.modules[m.name] = m
        self._exp = {}

    def own(self, m):
        out = {}
        def add(n, e):
            out.setdefault(n, []).append(e)
        for n, d in m.decls.items():
            add(n, Entity("param" if "parameter" in d.attrs else "var", d, m, n))
        for n, p in m.procs.items():
            add(n, Entity("proc", p, m, n))
        for n, t in m.types.items():
            add(n, Entity("type", t, m, n))
        for n, p in m.interfaces.items():
            add(n, Entity("iface", p, m, n))
        for n, lst in m.generics.items():
            add(n, Entity("generic", lst, m, n))
        return out

    def symbols(self, m):
        """all names visible inside module m: name -> list of entities"""
        if m.syms is not None:
            return m.syms
        m.syms = {}
        syms = {}
        for n, es in self.own(m).items():
            syms.setdefault(n, []).extend(es)
        for u in m.uses:
            self.import_use(syms, u)
        m.syms = syms
        return syms

    def import_use(self, syms, use):
        mod, only, ren = use
        if mod not in self.modules:
            return
        exp = self.exports(self.modules[mod])
        if only is None:
            inv = {b: a for a, b in ren.items()}
            items = [(inv.get(n, n), es) for n, es in exp.items()]
        else:
            items = [(n, exp.get(ren.get(n, n), [])) for n in only]
        for n, es in items:
            cur = syms.setdefault(n, [])
            for e in es:
                if not any(x.obj is e.obj for x in cur):
                    cur.append(e)

    def exports(self, m):
        if m.name in self._exp:
            return self._exp[m.name]
        self._exp[m.name] = {}
        syms = self.symbols(m)
        out = {}
        for n, es in syms.items():
            if n in m.private:
                continue
            if m.default_private and n not in m.public:
                continue
            out[n] = es
        self._exp[m.name] = out
        return out

    def find_proc(self, qual):
        mod, name = qual.split("::")
        return self.modules[mod].procs.get(name) if mod in self.modules else None
