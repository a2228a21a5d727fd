"""Model of std::map / tbb::concurrent_unordered_map (single-threaded): a set of keys, a value per key, some enumeration of the keys."""
import z3
from .ast import *
from .values import *
NAMES = ("std::map", "std::unordered_map", "tbb::concurrent_unordered_map", "tbb::detail::d1::concurrent_unordered_map", "tbb::detail::d2::concurrent_unordered_map", "tbb::interface5::concurrent_unordered_map")
IT = Type("rec", "$mapit", ())
def is_map(v): return isinstance(v, RecV) and "$has" in v.f
def is_it(v): return isinstance(v, RecV) and v.t == IT
def ksort(it, t): 
    return it.fresh_val(t, "k").sort()
def mk(it, t, has, name):
    kt, vt = t.a[1][0], t.a[1][1]
    K = ksort(it, kt); proto = it.fresh_val(vt, name + ".value")
    arrs = [z3.K(K, l) if is_const(l) else z3.Const(str(it.ctx.fresh(name + ".val", z3.BoolSort())), z3.ArraySort(K, l.sort())) for l in leaves(proto)]
    return RecV(t, {"$has": has if has is not None else z3.Const(str(it.ctx.fresh(name + ".has", z3.BoolSort())), z3.ArraySort(K, z3.BoolSort())), "$val": DynArr(vt, proto, arrs, idx(0), z3.BoolVal(False), "map")})
def fresh(it, t, name): return mk(it, t, None, name)
def empty(it, t): return mk(it, t, z3.K(ksort(it, t.a[1][0]), z3.BoolVal(False)), "empty")
ABSTRACT = {n: fresh for n in NAMES}
DEFAULT = {n: empty for n in NAMES}
def enum(it, v):
    """an enumeration of the keys: K[0..n), pos its inverse"""
    c = it.__dict__.setdefault("map_enums", {})
    h = v.f["$has"]; key = h.get_id()
    if key in c: return c[key][:3]
    S = h.sort().domain(); ctx = it.ctx
    it.models.note("maps enumerate each key once (std::map in key order, which no obligation uses); maps hold fewer than 2^48 keys; single-threaded")
    K = z3.Const(str(ctx.fresh("enum", IDX)), z3.ArraySort(IDX, S)); pos = z3.Const(str(ctx.fresh("enum.pos", IDX)), z3.ArraySort(S, IDX)); n = ctx.fresh("enum.n", IDX)
    i, k = z3.Const("i!en", IDX), z3.Const("k!en", S)
    ctx.assume(z3.ULT(n, idx(1 << 48)))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.And(h[K[i]], pos[K[i]] == i)), patterns=[K[i]]))
    ctx.assume(z3.ForAll([k], z3.Implies(h[k], z3.And(z3.ULT(pos[k], n), K[pos[k]] == k)), patterns=[pos[k]]))
    c[key] = (K, pos, n, h)
    return K, pos, n
def at(this, key): return this.sub(("f", "$val"), ("i", key))
def iter_(this, i): return RecV(IT, {"m": RefV(this), "i": i})
def pair(it, x):
    m = x.f["m"].lv; v = it.read(m); K, pos, n = enum(it, v)
    return LVal(Cell(RecV(Type("rec", "std::pair", ()), {"first": K[x.f["i"]], "second": RefV(at(m, K[x.f["i"]]))}), "entry"))
def key(it, a):
    v = it.rv(a)
    if isinstance(v, OpaqueV) and "s" in v.d: return z3.StringVal(v.d["s"])
    return v
def insert(it, this, v, k, val):
    """first value of a key wins"""
    K, pos, n = None, None, None
    had = z3.simplify(z3.Select(v.f["$has"], k))
    old = v.f["$val"].get(k); new = merge_val(had, old, val) if not z3.is_false(had) else val
    it.write(at(this, k), new); it.write(this.sub(("f", "$has")), z3.Store(v.f["$has"], k, z3.BoolVal(True)))
    return had
def method(it, this, name, args, n):
    from .interp import ThrowEx
    v = it.read(this); it.models.note("std::map / concurrent_unordered_map member functions behave as specified by the standard (single-threaded)")
    has = v.f["$has"]
    def conv(x, a):
        vt = v.f["$val"].et
        if isinstance(x, OpaqueV) and "s" in x.d: return z3.StringVal(x.d["s"])
        return it.models.conv_elem(it, x, it.ty(a), vt)
    if name in ("emplace", "try_emplace") and len(args) == 2:
        k = key(it, args[0]); x = conv(it.rv(args[1]), args[1]); had = insert(it, this, v, k, x)
        return RecV(Type("rec", "std::pair", ()), {"first": OpaqueV(IT), "second": z3.Not(had)})
    if name == "insert" and len(args) == 1:
        p = it.rv(args[0]); had = insert(it, this, v, p.f["first"], p.f["second"])
        return RecV(Type("rec", "std::pair", ()), {"first": OpaqueV(IT), "second": z3.Not(had)})
    if name == "insert_or_assign":
        k = key(it, args[0]); it.write(at(this, k), conv(it.rv(args[1]), args[1])); it.write(this.sub(("f", "$has")), z3.Store(has, k, z3.BoolVal(True)))
        return RecV(Type("rec", "std::pair", ()), {"first": OpaqueV(IT), "second": z3.Not(has[k])})
    if name == "operator[]":
        k = key(it, args[0]); et = v.f["$val"].et; insert(it, this, v, k, it.zero_val(et)); return at(this, k)
    if name == "at":
        k = key(it, args[0])
        if not it.ctx.branch(has[k]): raise ThrowEx(Type("rec", "std::out_of_range", ()), n)
        return at(this, k)
    if name == "count": return z3.If(has[key(it, args[0])], idx(1), idx(0))
    if name == "contains": return has[key(it, args[0])]
    if name in ("unsafe_erase", "erase"):
        k = key(it, args[0])
        if not isinstance(k, z3.ExprRef): raise Unsupported("erase by iterator")
        r = z3.If(has[k], idx(1), idx(0)); it.write(this.sub(("f", "$has")), z3.Store(has, k, z3.BoolVal(False))); return r
    if name == "clear": it.write(this.sub(("f", "$has")), z3.K(has.sort().domain(), z3.BoolVal(False))); return None
    K, pos, N = enum(it, v)
    if name == "size": return N
    if name == "empty": return N == idx(0)
    if name in ("begin", "cbegin"): return iter_(this, idx(0))
    if name in ("end", "cend"): return iter_(this, N)
    if name == "find":
        k = key(it, args[0]); return iter_(this, z3.If(has[k], pos[k], N))
    raise Unsupported("map method " + name)
def it_op(it, op, this, v, args, n):
    """member operators of a map iterator"""
    if op == "operator++":
        nv = RecV(IT, {"m": v.f["m"], "i": it.s(v.f["i"] + 1)}); it.write(this, nv); return v if args else this
    if op in ("operator*", "operator->"):
        K, pos, N = enum(it, it.read(v.f["m"].lv))
        it.ctx.oblige("dereferenced map iterator is valid", z3.ULT(v.f["i"], N), "safety", n); return pair(it, v)
    if op in ("operator==", "operator!="):
        e = v.f["i"] == it.rv(args[0]).f["i"]; return e if op == "operator==" else z3.Not(e)
    raise Unsupported("map iterator " + op)
