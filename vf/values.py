"""Value model of the verifier: z3 terms at the leaves, mutable aggregates above them."""
import z3
from fractions import Fraction
from .ast import Type, Unsupported, U64, BOOL

IDX = z3.BitVecSort(64)
def idx(v): return z3.BitVecVal(v, 64)

class RecV:
    __slots__ = ("t", "f", "ghost")
    def __init__(self, t, f): self.t = t; self.f = f; self.ghost = {}
    def __repr__(self): return "%r%r" % (self.t, self.f)
class FixArr:
    __slots__ = ("et", "e")
    def __init__(self, et, e): self.et = et; self.e = e
    def __repr__(self): return "Fix%r" % (self.e,)
def sel_const(a, i):
    """select, resolved through stores at other literal positions"""
    if z3.is_bv_value(i):
        b = a
        while z3.is_store(b) and z3.is_bv_value(b.arg(1)):
            if b.arg(1).eq(i): return b.arg(2)
            b = b.arg(0)
        return z3.Select(b, i)
    return z3.Select(a, i)
def put_const(a, i, l):
    """store; writing back what is there already is left out"""
    if z3.is_bv_value(i) and sel_const(a, i).eq(l): return a
    return z3.Store(a, i, l)
class DynArr:
    """growable / heap array: one SMT array per scalar leaf of the element"""
    __slots__ = ("et", "proto", "arrs", "size", "null", "kind")
    def __init__(self, et, proto, arrs, size, null, kind):
        self.et, self.proto, self.arrs, self.size, self.null, self.kind = et, proto, arrs, size, null, kind
    def __repr__(self): return "Dyn(%r,%r)" % (self.arrs, self.size)
    def get(self, i): return rebuild(self.proto, [sel_const(a, i) for a in self.arrs])
    def put(self, i, v):
        ls = leaves(v)
        if len(ls) != len(self.arrs): raise Unsupported("element shape mismatch %r for %r" % (v, self.proto))
        self.arrs = [put_const(a, i, coerce_leaf(l, a.sort().range())) for a, l in zip(self.arrs, ls)]
class PtrV:
    """pointer/iterator: lv = location of the pointee; its last path step may be an index"""
    __slots__ = ("lv", "null", "t")
    def __init__(self, lv, null, t=None): self.lv = lv; self.null = null; self.t = t
class FRatio:
    """floating value known to be the (correctly rounded) quotient of two unsigned words"""
    __slots__ = ("n", "d")
    def __init__(self, n, d): self.n = n; self.d = d
class Closure:
    __slots__ = ("node", "env", "this", "rec")
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this
class OpaqueV:
    __slots__ = ("t", "d")
    def __init__(self, t, d=None): self.t = t; self.d = d or {}
class RefV:
    __slots__ = ("lv",)
    def __init__(self, lv): self.lv = lv
class FuncV:
    __slots__ = ("decl",)
    def __init__(self, d): self.decl = d

class Cell:
    __slots__ = ("v", "name", "t")
    def __init__(self, v, name="", t=None): self.v = v; self.name = name; self.t = t
class LVal:
    __slots__ = ("c", "p")
    def __init__(self, c, p=()): self.c = c; self.p = p
    def sub(self, *steps): return LVal(self.c, self.p + steps)
    def __repr__(self): return "LV(%s%s)" % (self.c.name, self.p)

def is_const(t): return z3.is_bv_value(t) or z3.is_true(t) or z3.is_false(t) or z3.is_rational_value(t)
def simp(t): 
    return z3.simplify(t)
def cint(t):
    t = t if z3.is_bv_value(t) else z3.simplify(t)
    return t.as_long() if z3.is_bv_value(t) else None

def coerce_leaf(l, sort):
    if l.sort() == sort: return l
    raise Unsupported("leaf sort %s vs %s" % (l.sort(), sort))

def leaves(v):
    if isinstance(v, z3.ExprRef): return [v]
    if isinstance(v, RecV):
        out = []
        for k in v.f: out += leaves(v.f[k])
        return out
    if isinstance(v, FixArr):
        out = []
        for x in v.e: out += leaves(x)
        return out
    if isinstance(v, DynArr): return list(v.arrs) + [v.size, v.null]
    if isinstance(v, OpaqueV): return []
    if isinstance(v, PtrV):
        return [v.null]
    raise Unsupported("leaves of %r" % type(v))

def rebuild(proto, ls):
    ls = list(ls)
    def go(v):
        if isinstance(v, z3.ExprRef): return ls.pop(0)
        if isinstance(v, RecV):
            r = RecV(v.t, {k: go(x) for k, x in v.f.items()}); r.ghost = dict(v.ghost); return r
        if isinstance(v, FixArr): return FixArr(v.et, [go(x) for x in v.e])
        if isinstance(v, DynArr):
            n = len(v.arrs); a = [ls.pop(0) for _ in range(n)]
            return DynArr(v.et, v.proto, a, ls.pop(0), ls.pop(0), v.kind)
        if isinstance(v, OpaqueV): return v
        if isinstance(v, PtrV): return PtrV(v.lv, ls.pop(0), v.t)
        raise Unsupported("rebuild %r" % type(v))
    r = go(proto)
    assert not ls
    return r

def copy_val(v):
    if isinstance(v, RecV):
        r = RecV(v.t, {k: copy_val(x) for k, x in v.f.items()}); r.ghost = dict(v.ghost); return r
    if isinstance(v, FixArr): return FixArr(v.et, [copy_val(x) for x in v.e])
    if isinstance(v, DynArr): return DynArr(v.et, v.proto, list(v.arrs), v.size, v.null, v.kind)
    if isinstance(v, OpaqueV): return OpaqueV(v.t, dict(v.d))
    return v

def merge_val(c, a, b):
    if a is b: return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b): return a
        return z3.If(c, a, b)
    if isinstance(a, RecV) and isinstance(b, RecV):
        r = RecV(a.t, {k: merge_val(c, a.f[k], b.f[k]) for k in a.f})
        r.ghost = {k: merge_val(c, a.ghost[k], b.ghost[k]) for k in a.ghost if k in b.ghost}
        return r
    if isinstance(a, FixArr) and isinstance(b, FixArr) and len(a.e) == len(b.e):
        return FixArr(a.et, [merge_val(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, DynArr) and isinstance(b, DynArr) and len(a.arrs) == len(b.arrs):
        return DynArr(a.et, a.proto, [z3.If(c, x, y) for x, y in zip(a.arrs, b.arrs)], z3.If(c, a.size, b.size), z3.If(c, a.null, b.null), a.kind)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.lv is None: return PtrV(b.lv, z3.If(c, a.null, b.null), b.t)
        if b.lv is None: return PtrV(a.lv, z3.If(c, a.null, b.null), a.t)
    raise Unsupported("merge of %s / %s" % (type(a).__name__, type(b).__name__))

def eq_val(a, b):
    if isinstance(a, DynArr): raise Unsupported("DynArr equality")
    la, lb = leaves(a), leaves(b)
    if len(la) != len(lb): raise Unsupported("equality of different shapes")
    return z3.And([x == y for x, y in zip(la, lb)]) if la else z3.BoolVal(True)

def frac(x):
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
