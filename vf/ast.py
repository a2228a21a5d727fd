"""AST extraction: clang's own AST of the real sources, pruned to declarations of /repo and the TU."""
import json, os, re, subprocess, sys, tempfile, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CLANG = "clang++-18"
BASEFLAGS = ["-w", "-std=c++17", "-I" + VERIF + "/shim", "-I" + REPO + "/include", "-I" + REPO + "/include/utils", "-I" + REPO + "/src"]

class ExtractError(Exception):
    pass
class Unsupported(Exception):
    """A construct or situation outside the verifier's dialect: undecided, never a violation."""

def prune_bin():
    src = os.path.join(VERIF, "vf", "prune.cpp")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:10]
    out = os.path.join(VERIF, "build", "prune-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["g++", "-O2", "-o", tmp, src], check=True)
        os.rename(tmp, out)
    return out

def dump(tu_path, flags=()):
    cmd = [CLANG] + BASEFLAGS + list(flags) + ["-fsyntax-only", "-Xclang", "-ast-dump=json", tu_path]
    p1 = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p2 = subprocess.Popen([prune_bin(), REPO + "/", tu_path], stdin=p1.stdout, stdout=subprocess.PIPE)
    p1.stdout.close()
    import threading
    err = []
    t = threading.Thread(target=lambda: err.append(p1.stderr.read())); t.start()
    out = p2.stdout.read()
    p2.wait(); p1.wait(); t.join()
    if p1.returncode != 0:
        raise ExtractError("clang: " + err[0].decode(errors="replace")[-2000:])
    return json.loads(out), " ".join(cmd)

def dump_tu(tu, flags=()):
    """tu: name of a file of tus/, optionally followed by preprocessor flags"""
    xs = tu.split()
    return dump(os.path.join(VERIF, "tus", xs[0] + ".cpp"), list(flags) + xs[1:])

# ---------------------------------------------------------------- types
class Type:
    __slots__ = ("k", "a")
    def __init__(self, k, *a): self.k = k; self.a = a
    def __eq__(self, o): return isinstance(o, Type) and self.k == o.k and self.a == o.a
    def __hash__(self): return hash((self.k, self.a))
    def __repr__(self):
        if self.k == "int": return ("i" if self.a[1] else "u") + str(self.a[0])
        if self.k == "rec": return self.a[0] + ("<" + ",".join(map(repr, self.a[1])) + ">" if self.a[1] else "")
        return self.k + (repr(self.a) if self.a else "")
    @property
    def is_int(self): return self.k == "int"
    @property
    def bits(self): return self.a[0]
    @property
    def signed(self): return self.a[1]
    def rec_is(self, *names): return self.k == "rec" and self.a[0] in names

VOID = Type("void"); BOOL = Type("bool"); NULLT = Type("nullptr"); AUTO = Type("auto")
def IntT(b, s): return Type("int", b, s)
U64 = IntT(64, False); U32 = IntT(32, False); I32 = IntT(32, True); U8 = IntT(8, False); I64 = IntT(64, True)
DOUBLE = Type("float", 64); FLOAT = Type("float", 32); LDOUBLE = Type("float", 80)
BUILTIN = {
 "void": VOID, "bool": BOOL, "_Bool": BOOL, "char": IntT(8, True), "signed char": IntT(8, True), "unsigned char": U8,
 "short": IntT(16, True), "unsigned short": IntT(16, False), "int": I32, "unsigned int": U32, "unsigned": U32,
 "long": I64, "unsigned long": U64, "long long": I64, "unsigned long long": U64, "__int128": IntT(128, True),
 "unsigned __int128": IntT(128, False), "float": FLOAT, "double": DOUBLE, "long double": LDOUBLE,
 "std::size_t": U64, "size_t": U64, "uint": U32, "ulong": U64, "ushort": IntT(16, False), "uint8_t": U8, "uint16_t": IntT(16, False),
 "uint32_t": U32, "uint64_t": U64, "int8_t": IntT(8, True), "int16_t": IntT(16, True), "int32_t": I32, "int64_t": I64,
 "std::ptrdiff_t": I64, "ptrdiff_t": I64, "std::nullptr_t": NULLT, "nullptr_t": NULLT, "auto": AUTO, "std::uint32_t": U32, "std::uint64_t": U64,
 "short int": IntT(16, True), "long int": I64, "long unsigned int": U64,
}
ALIAS_REC = {"std::basic_string": "std::string", "std::__cxx11::basic_string": "std::string", "string": "std::string", "basic_string": "std::string"}

def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([{": d += 1
        elif c == ">" and not (i and s[i-1] == "-"): d -= 1
        elif c in ")]}": d -= 1
        if c == sep and d == 0: out.append(cur); cur = ""
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

class AST:
    def __init__(self, docs, cmd=""):
        self.cmd = cmd
        self.nodes = {}; self.parent = {}; self.files = {}
        self.classes = {}      # key -> list of class nodes
        self.typedefs = {}     # name -> type string
        self.funcs = []        # all function decl nodes
        self.defs = {}         # decl id -> definition node
        self.tops = []
        self._tc = {}
        self.qname = {}
        for d in docs:
            self.tops.append(d["decl"])
            self._walk(d["decl"], None, "", d["file"], {})
        # redeclaration chains
        prev = {}
        for f in self.funcs:
            if f.get("previousDecl"): prev[f["id"]] = f["previousDecl"]
        for f in self.funcs:
            if self.body(f) is not None or any(c.get("kind") == "CXXCtorInitializer" for c in f.get("inner", [])):
                i = f["id"]
                while i is not None and i not in self.defs or i == f["id"]:
                    self.defs[i] = f
                    i = prev.get(i)
                    if i is None or i in self.defs: 
                        if i is not None: self.defs[i] = f
                        break
    def _walk(self, n, par, scope, file, tparams):
        if not isinstance(n, dict) or "kind" not in n: return
        k = n["kind"]
        i = n.get("id")
        if i:
            if i not in self.nodes or "inner" in n: self.nodes[i] = n
            if par is not None: self.parent[i] = par
        name = n.get("name")
        sub = scope
        if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl", "EnumDecl") and name:
            sub = (scope + "::" if scope else "") + name
        if i and name:
            self.qname[i] = (scope + "::" if scope else "") + name
        if k in ("TypedefDecl", "TypeAliasDecl"):
            t = n.get("type", {})
            q = t.get("desugaredQualType") or t.get("qualType")
            self.typedefs.setdefault((scope + "::" if scope else "") + name, q)
            self.typedefs.setdefault(name, q)
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and name and n.get("completeDefinition"):
            self.classes.setdefault(name, []).append((sub, n))
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            n["_scope"] = scope; n["_file"] = file
            self.funcs.append(n)
        if k == "EnumDecl":
            n["_scope"] = scope
        for c in n.get("inner", []):
            self._walk(c, n, sub, file, tparams)
    @staticmethod
    def body(f):
        for c in f.get("inner", []):
            if isinstance(c, dict) and c.get("kind") in ("CompoundStmt", "CXXTryStmt"): return c
        return None
    @staticmethod
    def params(f):
        return [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]
    def definition(self, declid):
        return self.defs.get(declid)
    # ------------------------------------------------------------ types
    def type_of(self, node):
        t = node.get("type", {})
        return self.parse(t.get("desugaredQualType") or t.get("qualType") or "void", t.get("qualType"))
    def parse(self, s, alt=None, depth=0):
        key = s
        r = self._tc.get(key)
        if r is None:
            r = self._parse(s, depth)
            self._tc[key] = r
        return r
    def _parse(self, s, depth=0):
        s = s.strip()
        if depth > 40: raise Unsupported("type " + s)
        while True:
            o = s
            for q in ("const ", "volatile ", "class ", "struct ", "enum ", "typename ", "mutable "):
                if s.startswith(q): s = s[len(q):].strip()
            for q in (" const", " volatile", " noexcept", "__restrict"):
                if s.endswith(q): s = s[:-len(q)].strip()
            if s == o: break
        if s.startswith("::"): s = s[2:]
        if s in BUILTIN: return BUILTIN[s]
        if s.endswith("&&"): return Type("ref", self.parse(s[:-2], depth=depth+1))
        if s.endswith("&"): return Type("ref", self.parse(s[:-1], depth=depth+1))
        if s.endswith("*const"): s = s[:-5]
        if s.endswith("*"): return Type("ptr", self.parse(s[:-1], depth=depth+1))
        if s.startswith("(lambda"): return Type("lambda", s)
        m = re.match(r"^(.*?)\s*(\(\*\)|\(&\)|)\[(\d*)\]$", s)
        if m:
            el = self.parse(m.group(1), depth=depth+1)
            t = Type("carr", el, int(m.group(3)) if m.group(3) else None)
            if m.group(2) == "(&)": t = Type("ref", t)
            if m.group(2) == "(*)": t = Type("ptr", t)
            return t
        if s.endswith(")") and "(" in s and not s.startswith("("):
            return Type("func", s)
        if s.endswith(">"):
            # find matching '<' of last template-id
            d = 0
            for i in range(len(s) - 1, -1, -1):
                if s[i] == ">": d += 1
                elif s[i] == "<":
                    d -= 1
                    if d == 0: break
            base = s[:i].strip(); args = split_top(s[i+1:-1])
            if base.startswith("typename "): base = base[9:]
            base = ALIAS_REC.get(base, base)
            if base == "std::string": return Type("rec", "std::string", ())
            pa = tuple(self._targ(a, depth) for a in args)
            if base in ("dVector",) and len(pa) == 2:
                return Type("rec", "std::array", (pa[1], pa[0]))
            if base == "dIndex" and len(pa) in (1, 2): return Type("rec", "std::array", (pa[1] if len(pa) == 2 else I64, pa[0]))
            base = self._norm_base(base)
            return Type("rec", base, pa)
        if s in ALIAS_REC: return Type("rec", ALIAS_REC[s], ())
        m = re.match(r"^(.*)::(\w+)$", s)
        if m and (m.group(1).endswith(">") or m.group(1) in ("vector", "std::string", "string") or m.group(1) in self.typedefs and "<" in self.typedefs[m.group(1)]) and s not in self.typedefs:
            t = self._member_type(m.group(1), m.group(2), depth)
            if t is not None: return t
        if s in ("vector::size_type", "vector::difference_type"): return U64 if s.endswith("size_type") else I64
        if s in self.typedefs and self.typedefs[s] != s:
            return self.parse(self.typedefs[s], depth=depth+1)
        last = s.split("::")[-1]
        # enum?
        for i, n in self.nodes.items():
            break
        en = self._enum(s)
        if en is not None: return en
        if "<" not in s and last in self.typedefs and self.typedefs[last] != s and last not in self.classes and self.typedefs[last] != last and "type-parameter" not in self.typedefs[last]:
            return self.parse(self.typedefs[last], depth=depth+1)
        return Type("rec", self._norm_base(s), ())
    def _member_type(self, base, name, depth):
        if name in ("size_type",): return U64
        if name == "difference_type": return I64
        bt = self.parse(base, depth=depth+1)
        if bt.k != "rec": return None
        if bt.a[0] in ("std::vector", "std::array", "std::unique_ptr", "std::atomic", "tbb::concurrent_vector", "tbb::detail::d1::concurrent_vector"):
            if name in ("value_type", "element_type"): return bt.a[1][0]
            if name in ("reference", "const_reference"): return Type("ref", bt.a[1][0])
            if name in ("pointer", "iterator", "const_iterator", "const_pointer"): return Type("ptr", bt.a[1][0])
            return None
        c = self.find_class(bt)
        while c is not None:
            for d in c.get("inner", []):
                if d.get("kind") in ("TypedefDecl", "TypeAliasDecl") and d.get("name") == name:
                    t = d["type"]; q = t.get("desugaredQualType") or t["qualType"]
                    return self.parse(q, depth=depth+1)
            nb = None
            for b in c.get("bases", []):
                b2 = self.find_class(self.parse(b["type"].get("desugaredQualType") or b["type"]["qualType"]))
                if b2 is not None: nb = b2
            c = nb
        return None
    def _norm_base(self, b):
        if b.startswith("std::__cxx11::"): b = "std::" + b[len("std::__cxx11::"):]
        if b in ("vector", "array", "unique_ptr", "atomic", "pair", "tuple", "function") and b not in self.classes: b = "std::" + b
        return b
    def _enum(self, s):
        if not hasattr(self, "_enums"):
            self._enums = {}
            for i, n in self.nodes.items():
                if n.get("kind") == "EnumDecl" and n.get("name"):
                    fx = n.get("fixedUnderlyingType", {})
                    t = self.parse(fx.get("desugaredQualType") or fx.get("qualType")) if fx else U32
                    q = (n["_scope"] + "::" if n.get("_scope") else "") + n["name"]
                    self._enums[q] = t; self._enums.setdefault(n["name"], t)
        r = self._enums.get(s)
        return r
    def _targ(self, a, depth):
        a = a.strip()
        m = re.match(r"^-?\d+[UuLl]*$", a)
        if m: return int(a.rstrip("uUlL"))
        if a == "true": return 1
        if a == "false": return 0
        if re.match(r"^[\d\sUuLl+\-*()]+$", a):
            return int(eval(re.sub(r"[UuLl]", "", a)))
        m = re.match(r"^\(.*\)(-?\d+)$", a)
        if m: return int(m.group(1))
        if a.endswith("..."): return Type("pack")
        return self.parse(a, depth=depth+1)
    # ------------------------------------------------------------ classes
    def spec_args(self, n):
        out = []
        for c in n.get("inner", []):
            if c.get("kind") == "TemplateArgument":
                if "type" in c:
                    t = c["type"]; out.append(self.parse(t.get("desugaredQualType") or t["qualType"]))
                elif "value" in c:
                    v = c["value"]
                    v = int(v) if isinstance(v, (int, bool)) or re.match(r"^-?\d+$", str(v)) else v
                    out.append(1 if v == -1 else v)      # clang prints the template argument true as -1
                elif "isNullptr" in c: out.append(0)
                else: out.append(None)
        return tuple(out)
    def template_defaults(self, n):
        """literal default arguments of the template of a specialization (None: no literal default)"""
        p = self.parent.get(n["id"]); out = []
        if p is None or p.get("kind") != "ClassTemplateDecl": return out
        for x in p.get("inner", []):
            if x.get("kind") not in ("TemplateTypeParmDecl", "NonTypeTemplateParmDecl"): continue
            v = None; st = list(x.get("inner", []))
            while st:
                y = st.pop()
                if y.get("kind") == "CXXBoolLiteralExpr": v = int(bool(y.get("value")))
                elif y.get("kind") == "IntegerLiteral": v = int(y.get("value"))
                st += y.get("inner", [])
            out.append(v)
        return out
    def find_class(self, t):
        """class definition node for a record Type"""
        if not hasattr(self, "_cc"): self._cc = {}
        if t in self._cc: return self._cc[t]
        name, args = t.a
        last = name.split("::")[-1]
        best = None
        for q, n in self.classes.get(last, []):
            isspec = n["kind"] == "ClassTemplateSpecializationDecl"
            if args and not isspec: continue
            if not args and isspec: continue
            if isspec and self.spec_args(n) != args:
                sa = self.spec_args(n)
                if not (len(sa) >= len(args) and sa[:len(args)] == args): continue
                df = self.template_defaults(n)
                if any(x is not None and x != y for x, y in zip(df[len(args):], sa[len(args):])): continue
            if not isspec:
                # pattern of a class template? skip
                p = self.parent.get(n["id"])
                if p is not None and p.get("kind") == "ClassTemplateDecl": continue
            score = (2 if q == name else 1 if q.endswith("::" + name) or name.endswith("::" + q) else 0)
            nb = sum(1 for c in n.get("inner", []) if c.get("kind") == "CXXMethodDecl" and self.body(c))
            if best is None or (score, nb) > best[0]: best = ((score, nb), n)
        r = best[1] if best else None
        self._cc[t] = r
        return r
    def fields(self, cls):
        """[(name, Type, node)] including bases"""
        out = []
        for b in cls.get("bases", []):
            bt = b["type"]; t = self.parse(bt.get("desugaredQualType") or bt["qualType"])
            bc = self.find_class(t)
            if bc is not None: out += self.fields(bc)
            elif t.k == "rec" and t.a[0] == "std::vector": out.append(("__vec", t, {"name": "__vec"}))
            elif not (t.k == "rec" and (t.a[0].startswith("std::") or t.a[0].startswith("boost::"))):
                raise Unsupported("base class %r" % t)
        for c in cls.get("inner", []):
            if c.get("kind") == "FieldDecl" and c.get("name"):
                out.append((c["name"], self.type_of(c), c))
        return out
    def class_type(self, cls):
        return Type("rec", self.qname.get(cls["id"], cls["name"]), self.spec_args(cls) if cls["kind"] == "ClassTemplateSpecializationDecl" else ())
    def methods(self, cls, name):
        out = []
        for c in cls.get("inner", []):
            if c.get("kind") in ("CXXMethodDecl", "CXXConversionDecl", "CXXConstructorDecl") and c.get("name") == name: out.append(c)
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == name:
                pats = [x for x in c.get("inner", []) if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl")]
                out += [x for x in pats if any(y.get("kind") == "TemplateArgument" for y in x.get("inner", []))]
        for b in cls.get("bases", []):
            bt = b["type"]; bc = self.find_class(self.parse(bt.get("desugaredQualType") or bt["qualType"]))
            if bc is not None: out += self.methods(bc, name)
        return [self.defs.get(m["id"], m) for m in out]
    def ctors(self, cls):
        out = []
        for c in cls.get("inner", []):
            if c.get("kind") == "CXXConstructorDecl": out.append(c)
            if c.get("kind") == "FunctionTemplateDecl":
                out += [x for x in c.get("inner", []) if x.get("kind") == "CXXConstructorDecl" and any(y.get("kind") == "TemplateArgument" for y in x.get("inner", []))]
        return out
    def functions(self, name, scope=None, pred=None):
        """instantiated / plain function definitions with a body called `name`"""
        out = []
        for f in self.funcs:
            if f.get("name") != name or self.body(f) is None: continue
            if scope is not None and f["_scope"] != scope: continue
            if self.is_pattern(f): continue
            if pred and not pred(f): continue
            out.append(f)
        return out
    def is_pattern(self, f):
        p = self.parent.get(f["id"])
        if p is not None and p.get("kind") == "FunctionTemplateDecl":
            return not any(y.get("kind") == "TemplateArgument" for y in f.get("inner", []))
        q = p
        while q is not None:
            if q.get("kind") == "ClassTemplateDecl":
                c = p
                while c is not None and c.get("kind") not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"): c = self.parent.get(c["id"])
                return c is not None and c.get("kind") == "CXXRecordDecl"
            q = self.parent.get(q["id"]) if q.get("id") else None
        return False
    def targs(self, f):
        out = []
        for c in f.get("inner", []):
            if c.get("kind") == "TemplateArgument":
                if "type" in c: out.append(self.parse(c["type"].get("desugaredQualType") or c["type"]["qualType"]))
                elif "value" in c: out.append(1 if int(c["value"]) == -1 else int(c["value"]))
                else: out.append(None)
        return tuple(out)

def loc_of(n):
    r = n.get("range", {}).get("begin", {}) or {}
    if "expansionLoc" in r: r = r["expansionLoc"]
    l = r.get("line")
    return l
