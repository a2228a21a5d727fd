"""Helpers for writing contracts."""
import z3, itertools
from .ast import *
from .values import *
from .interp import *
from .runner import Contract, State

_n = itertools.count()
def z64(v):
    if v.size() == 64: return v
    return z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else z3.Extract(63, 0, v)
def s64(v):
    if v.size() == 64: return v
    return z3.SignExt(64 - v.size(), v)
def bv(v, n=64): return z3.BitVecVal(v, n)
def qv(name="k", sort=None): return z3.Const("%s?%d" % (name, next(_n)), sort if sort is not None else IDX)
def forall(n, f, names="ijklmn", sort=None, pats=None):
    vs = [qv(names[i], sort) for i in range(n)]
    b = f(*vs)
    if pats is not None:
        return z3.ForAll(vs, b, patterns=pats(*vs))
    return z3.ForAll(vs, b)
def exists(n, f, names="ijklmn", sort=None):
    vs = [qv(names[i], sort) for i in range(n)]
    return z3.Exists(vs, f(*vs))
def ULT(a, b): return z3.ULT(a, b)
def ULE(a, b): return z3.ULE(a, b)
def And(*a): return z3.And(*a)
def Or(*a): return z3.Or(*a)
def Not(a): return z3.Not(a)
def Implies(a, b): return z3.Implies(a, b)
def If(a, b, c): return z3.If(a, b, c)

def fn_named(name, scope=None, cls=None, targs=None, nparams=None, pred=None, cls_args=None, const=None):
    """finder of one function definition"""
    def find(ast):
        c = find_all(ast)
        if len(c) != 1: raise ExtractError("%d definitions of %s%s found" % (len(c), (cls + "::") if cls else "", name))
        return c[0]
    def find_all(ast):
        out = []
        for f in ast.funcs:
            if f.get("name") != name or (AST.body(f) is None and f["kind"] != "CXXConstructorDecl") or f["id"] not in ast.defs: continue
            if AST.body(f) is None: continue
            if ast.is_pattern(f): continue
            p = ast.parent.get(f["id"])
            if p is not None and p.get("kind") == "FunctionTemplateDecl": p = ast.parent.get(p["id"])
            if cls is not None:
                q = owner(ast, f)
                if q is None or q.get("name") != cls: continue
                if cls_args is not None and ast.spec_args(q)[:len(cls_args)] != tuple(cls_args): continue
            elif owner(ast, f) is not None: continue
            if scope is not None and f["_scope"] != scope: continue
            if targs is not None and ast.targs(f)[:len(targs)] != tuple(targs): continue
            if nparams is not None and len(AST.params(f)) != nparams: continue
            if const is not None and (f["type"]["qualType"].endswith("const") or "const noexcept" in f["type"]["qualType"]) != const: continue
            if pred is not None and not pred(ast, f): continue
            if any(x is f or x["id"] == f["id"] for x in out): continue
            out.append(f)
        return out
    find.all = find_all
    return find

def owner(ast, f):
    """class of a member function definition (also when defined out of line)"""
    p = ast.parent.get(f["id"])
    if p is not None and p.get("kind") == "FunctionTemplateDecl": p = ast.parent.get(p["id"])
    if p is not None and p.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"): return p
    d = f.get("parentDeclContextId")
    if d: return ast.nodes.get(d)
    pv = f.get("previousDecl")
    if pv and pv in ast.nodes: return owner(ast, ast.nodes[pv]) if pv != f["id"] else None
    return None

def arg(it, v, name): return LVal(Cell(v, name))
def fresh_args(it, fn, names=None, values=None):
    """one fresh argument per parameter, recorded as input"""
    out = []
    for p in AST.params(fn):
        t = it.ast.type_of(p)
        while t.k == "ref": t = t.a[0]
        nm = p.get("name", "p")
        v = values[nm] if values and nm in values else it.fresh_val(t, nm)
        out.append(LVal(Cell(v, nm, t)))
    return out

def same_loc(it, a, b):
    """condition under which two lvalues denote the same memory cell"""
    def norm(lv):
        p = []
        for s in lv.p: p.append(s)
        return lv.c, p
    (ca, pa), (cb, pb) = norm(a), norm(b)
    if ca is not cb: return z3.BoolVal(False)
    cs = []
    for x, y in zip(pa, pb):
        if x[0] != y[0]: raise Unsupported("location shapes differ")
        if x[0] == "f":
            if x[1] != y[1]: return z3.BoolVal(False)
        else: cs.append(x[1] == y[1])
    if len(pa) != len(pb): raise Unsupported("location depths differ")
    return And(*cs) if cs else z3.BoolVal(True)

def this_obj(it, cls, args=(), name="obj"):
    t = Type("rec", cls, tuple(args))
    v = it.fresh_val(t, name)
    if not isinstance(v, RecV): raise ExtractError("class %r not found" % t)
    return LVal(Cell(v, name, t))

def call_member(it, this, name, vals, const=None, nparams=None, pred=None):
    """execute a member function of the object's class (real body, or its contract when registered)"""
    t = it.read(this).t
    c = it.ast.find_class(t)
    ms = [m for m in it.ast.methods(c, name) if AST.body(m) is not None and len(AST.params(m)) == len(vals)]
    if const is not None: ms = [m for m in ms if m["type"]["qualType"].split("noexcept")[0].strip().endswith("const") == const]
    if pred is not None: ms = [m for m in ms if pred(it.ast, m)]
    if len(ms) != 1: raise ExtractError("%d candidates for %r::%s" % (len(ms), t, name))
    vals = [v if isinstance(v, LVal) else LVal(Cell(v, "arg%d" % i)) for i, v in enumerate(vals)]
    return it.call(ms[0], this, vals, ms[0])
