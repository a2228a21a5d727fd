"""Models of the C++ library functions the verified code calls.  Every use is recorded (note)
and reported as an unverified assumption."""
import z3, re
from .ast import *
from .values import *
from . import streams, maps
from .interp import ThrowEx, PathEnd, to_bool, Impure, FuncV, simp_not

VEC = ("std::vector", "tbb::concurrent_vector", "tbb::detail::d1::concurrent_vector", "std::deque")
CONST_METHODS = {"size", "at", "begin", "end", "cbegin", "cend", "empty", "front", "back", "data", "load", "get", "capacity", "max_size",
                 "length", "c_str", "find", "count", "substr", "str", "good", "eof", "operator bool", "find_first_of"}

STDOPS = {"std::plus": "+", "std::minus": "-", "std::multiplies": "*", "std::less": "<", "std::greater": ">", "std::equal_to": "==", "std::less_equal": "<=", "std::greater_equal": ">="}
def cont_et(it, p): return it.read(LVal(p.lv.c, p.lv.p[:-1])).et

class Models:
    STDOPS = STDOPS
    def __init__(self, runner): self.runner = runner
    def note(self, s): self.runner.note("library model: " + s)
    # ------------------------------------------------------------ misc hooks
    def global_var(self, it, d):
        h = self.runner.globals.get(d.get("name"))
        if h is not None: return LVal(Cell(h(it), d.get("name")))
        q = d.get("type", {}).get("qualType", "")
        if d.get("name") == "npos": return LVal(Cell(z3.BitVecVal(2**64 - 1, 64), "npos"))
        return None
    def float_to_int(self, it, v, t, n):
        """truncation toward zero; must fit the target type"""
        tr = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        lo, hi = (-(1 << (t.bits-1)), (1 << (t.bits-1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
        it.ctx.oblige("floating value fits the integer type", z3.And(tr >= lo, tr <= hi), "safety", n)
        return it.bv_of_int(tr, t.bits)
    def init_list(self, it, t, vals, n):
        if t.k == "rec" and t.a[0] == "std::pair": return RecV(t, {"first": vals[0], "second": vals[1]})
        if t.k == "rec" and t.a[0] in VEC: return self.vec_from(it, t, vals)
        if t.k == "rec" and t.a[0] == "std::initializer_list": return self.vec_from(it, Type("rec", "std::vector", (t.a[1][0],)), vals)
        raise Unsupported("initializer list of %r" % t)
    def vec_from(self, it, t, vals):
        d = it.empty_dyn(Type("rec", "std::vector", t.a[1]))
        for i, v in enumerate(vals): d.put(idx(i), it.val(v))
        d.size = idx(len(vals))
        return d
    def default_obj(self, it, t, name):
        h = self.runner.default_objs.get(t.a[0])
        if h: return h(it, t)
        n, a = t.a
        if n in streams.NAMES: return streams.new(it, t)
        if n == "std::pair": return RecV(t, {"first": it.default_val(a[0], "first"), "second": it.default_val(a[1], "second")})
        if n in ("std::atomic", "std::__atomic_base"): return it.fresh_val(a[0], name + ".uninit")
        return OpaqueV(t)
    # ------------------------------------------------------------ construction
    def construct(self, it, t, args, n):
        nm, a = t.a
        h = self.runner.constructors.get(nm)
        if h is not None: return h(it, t, args, n)
        args = [x for x in args if x["kind"] != "CXXDefaultArgExpr"]
        if nm in streams.NAMES:
            if not args: return streams.new(it, t)
            v = it.rv(args[0])
            if isinstance(v, OpaqueV) and "s" in v.d: v = z3.StringVal(v.d["s"])
            if len(args) == 1 and isinstance(v, z3.SeqRef) and "istringstream" in nm: return streams.new(it, t, v)
            raise Unsupported("stream construction %s %s %s" % (nm, [a["kind"] for a in args], type(v).__name__))
        if nm in VEC:
            self.note("std::vector construction / growth (allocation succeeds)")
            if not args: return it.empty_dyn(t)
            if len(args) == 1:
                at = it.ty(args[0])
                while at.k == "ref": at = at.a[0]
                if at.is_int:
                    size = it.conv_int(it.rv(args[0]), it.int_ty(args[0]), U64)
                    d = it.new_array(a[0], size, True, "vec"); d.kind = "vec"; d.null = z3.BoolVal(False)
                    if a[0].k == "rec" and it.ast.find_class(a[0]) is not None:
                        v = it.default_val(a[0], "el")
                        d.arrs = [z3.K(IDX, l) for l in leaves(v)]
                    return d
                v = it.rv(args[0])
                if isinstance(v, DynArr): return copy_val(v)
            if len(args) == 2:
                x = it.rv(args[0]); y = it.rv(args[1])
                if z3.is_bv(x) if isinstance(x, z3.ExprRef) else False:
                    size = it.conv_int(x, it.int_ty(args[0]), U64)
                    y = self.conv_elem(it, y, it.ty(args[1]), a[0])
                    d = it.new_array(a[0], size, False, "vec"); d.kind = "vec"
                    d.arrs = [z3.K(IDX, l) for l in leaves(y)]
                    return d
            raise Unsupported("vector construction")
        if nm == "std::unique_ptr":
            if not args: return it.empty_dyn(t)
            v = it.ev(args[0])
            if isinstance(v, LVal):
                o = it.read(v)
                if isinstance(o, DynArr):
                    val = copy_val(o); it.moved_from(v, t); return val
                v = it.val(v)
            if isinstance(v, PtrV): return self.own(it, v, t)
            if isinstance(v, DynArr): return v
            raise Unsupported("unique_ptr construction")
        if nm == "std::array":
            if not args: return it.default_val(t, "arr")
            v = it.rv(args[0])
            if isinstance(v, FixArr): return copy_val(v)
        if nm == "std::pair":
            if len(args) == 2:
                return RecV(t, {"first": self.conv_elem(it, it.rv(args[0]), it.ty(args[0]), a[0]), "second": self.conv_elem(it, it.rv(args[1]), it.ty(args[1]), a[1])})
            if not args: return it.zero_val(t)
            v = it.rv(args[0])
            if isinstance(v, RecV): return RecV(t, dict(copy_val(v).f))
        if nm in ("std::atomic", "std::__atomic_base"):
            self.note("std::atomic in a single-threaded history is its plain value")
            if not args: return it.fresh_val(a[0], "atomic.uninit")
            return it.rv(args[0])
        if nm == "std::string":
            self.note("std::string as a mathematical string over bytes 0..255")
            if not args: return z3.StringVal("")
            v = it.rv(args[0])
            if isinstance(v, OpaqueV) and "s" in v.d: return z3.StringVal(v.d["s"])
            if isinstance(v, z3.SeqRef): return v
            if isinstance(v, PtrV) and v.lv.p and v.lv.p[-1][0] == "i" and cint(v.lv.p[-1][1]) == 0:
                b = it.read(LVal(v.lv.c, v.lv.p[:-1]))
                if isinstance(b, z3.SeqRef): return b
        if nm in STDOPS and not args: return OpaqueV(t)
        if nm == "std::tuple":
            if len(args) == 1 and isinstance(it.rv(args[0]), RecV): return it.rv(args[0])
            if len(args) == len(a): return RecV(t, {"e%d" % i: copy_val(it.rv(x)) for i, x in enumerate(args)})
        if nm.startswith(("std::", "__gnu_cxx::")) and len(args) == 1:
            # iterator / exception wrappers
            v = it.rv(args[0])
            if isinstance(v, (PtrV, DynArr, FixArr, Closure)) : return v
        if nm.endswith(("_error", "exception", "out_of_range", "bad_alloc", "invalid_argument")): return OpaqueV(t)
        if nm in ("std::basic_regex", "std::__cxx11::basic_regex"):
            v = it.rv(args[0])
            if isinstance(v, OpaqueV) and "s" in v.d: return OpaqueV(t, {"re": v.d["s"]})
        raise Unsupported("construction of %r" % t)
    def conv_elem(self, it, v, ft, tt):
        while ft.k == "ref": ft = ft.a[0]
        if isinstance(v, z3.ExprRef) and z3.is_bv(v) and tt.is_int: return it.conv_int(v, ft if ft.is_int else IntT(8, False), tt)
        if isinstance(v, z3.ExprRef) and z3.is_bool(v) and tt.is_int: return it.conv_int(v, BOOL, tt)
        if isinstance(v, z3.ExprRef) and z3.is_bv(v) and tt.k == "float": return it.real(it.int_to_real(v, ft))
        if isinstance(v, FRatio): return it.real(v)
        return v
    def own(self, it, p, t):
        if p.lv is None: return it.empty_dyn(t)
        o = it.read(LVal(p.lv.c, p.lv.p[:-1]) if p.lv.p and p.lv.p[-1][0] == "i" else p.lv)
        if isinstance(o, DynArr) and p.lv.p and p.lv.p[-1][0] == "i":
            if cint(p.lv.p[-1][1]) != 0: raise Unsupported("owning a pointer into the middle")
            d = copy_val(o); d.kind = "uarr"; d.null = p.null
            return d
        # single object
        et = t.a[1][0]
        d = it.fresh_dyn(et, "box", "ubox"); d.size = idx(1); d.null = p.null
        d.put(idx(0), it.read(p.lv))
        return d
    def arrow(self, it, o, n):
        if isinstance(o, LVal):
            v = it.read(o)
            if isinstance(v, DynArr):
                it.ctx.oblige("dereferenced owning pointer is not null", z3.Not(v.null), "safety", n)
                return o.sub(("i", idx(0)))
            if isinstance(v, PtrV): return it.deref(v, n)
            if isinstance(v, RecV): return o      # an overloaded operator-> has been applied already
        raise Unsupported("operator-> on %s" % type(o).__name__)
    def is_const_method(self, name): return name in CONST_METHODS or name.startswith("operator ")
    # ------------------------------------------------------------ methods
    def argv(self, it, args, i, t=U64):
        v = it.rv(args[i])
        if t.is_int and isinstance(v, z3.ExprRef) and (z3.is_bv(v)): return it.conv_int(v, it.int_ty(args[i]), t)
        return v
    def method(self, it, ot, name, this, args, n):
        v = it.read(this)
        args = [x for x in args if x["kind"] != "CXXDefaultArgExpr"]
        h = self.runner.methods.get((ot.a[0] if ot.k == "rec" else ot.k, name))
        if h is not None: return h(it, this, args, n)
        if streams.is_stream(v): return streams.method(it, this, name, args, n)
        if maps.is_map(v): return maps.method(it, this, name, args, n)
        if isinstance(v, DynArr): return self.m_dyn(it, v, name, this, args, n)
        if isinstance(v, FixArr): return self.m_fix(it, v, name, this, args, n)
        if isinstance(v, z3.SeqRef): return self.m_str(it, v, name, this, args, n)
        if isinstance(v, z3.ExprRef):
            h = self.runner.methods.get(("atomic", "*"))
            if h is not None and isinstance(this, LVal) and not self.in_atomic:
                return self.atomic_step(h, it, name, this, lambda: self.m_atomic(it, it.read(this), name, this, args, n))
            return self.m_atomic(it, v, name, this, args, n)
        if isinstance(v, RecV) and name == "swap":
            o = it.lv(args[0]); b = copy_val(it.read(o)); a = copy_val(v)
            it.write(this, b); it.write(o, a); return None
        if isinstance(v, RecV) and name == "operator=" and len(args) == 1:
            o = it.ev(args[0])
            it.write(this, it.val(o)); return this
        if isinstance(v, PtrV) and name == "base": return v
        raise Unsupported("method %s of %r" % (name, ot))
    def m_dyn(self, it, v, name, this, args, n):
        if v.kind == "vec":
            self.note("std::vector / concurrent_vector member functions behave as specified by the standard (single-threaded)")
            if name in ("size",): return v.size
            if name == "empty": return v.size == idx(0)
            if name in ("begin", "cbegin", "data"): return PtrV(this.sub(("i", idx(0))), z3.BoolVal(False))
            if name in ("end", "cend"): return PtrV(this.sub(("i", v.size)), z3.BoolVal(False))
            if name == "at":
                i = self.argv(it, args, 0)
                if not it.ctx.branch(z3.ULT(i, v.size)): raise ThrowEx(Type("rec", "std::out_of_range", ()), n)
                return this.sub(("i", i))
            if name in ("operator[]",):
                i = self.argv(it, args, 0); lv = this.sub(("i", i)); it.bounds(lv, n, "vector index in bounds"); return lv
            if name in ("front", "back"):
                lv = this.sub(("i", idx(0) if name == "front" else v.size - 1)); it.bounds(lv, n, "vector is not empty"); return lv
            if name in ("push_back", "emplace_back"):
                el = self.make_elem(it, v, args, n)
                # element count bounded by the address space
                it.ctx.assume(z3.ULT(v.size, idx(1 << 48)))
                self.note("vectors hold fewer than 2^48 elements")
                v = it.read(this); i = v.size
                v.put(i, el); v.size = it.s(i + 1)
                it.write(this, v)
                if "terator" in n.get("type", {}).get("qualType", ""): return PtrV(this.sub(("i", i)), z3.BoolVal(False))   # concurrent_vector returns an iterator
                return this.sub(("i", i))
            if name == "pop_back":
                it.ctx.oblige("vector is not empty", v.size != idx(0), "safety", n)
                v.size = it.s(v.size - 1); it.write(this, v); return None
            if name in ("reserve", "shrink_to_fit"):
                for a in args: it.rv(a)
                return None
            if name == "capacity": return it.ctx.fresh("capacity", IDX)
            if name == "clear": v.size = idx(0); it.write(this, v); return None
            if name in ("resize", "grow_to_at_least", "grow_by", "assign"):
                if name == "assign":
                    if len(args) == 2:
                        k = self.argv(it, args, 0); el = it.rv(args[1])
                        if not (isinstance(k, z3.ExprRef) and z3.is_bv(k)): raise Unsupported("assign from range")
                        el = self.conv_elem(it, el, it.ty(args[1]), v.et)
                        v.arrs = [z3.K(IDX, l) for l in leaves(el)]; v.size = k; it.write(this, v); return None
                    raise Unsupported("vector assign")
                k = self.argv(it, args, 0)
                el = self.conv_elem(it, it.rv(args[1]), it.ty(args[1]), v.et) if len(args) > 1 else (it.default_val(v.et, "el") if (v.et.k == "rec" and it.ast.find_class(v.et) is not None) else it.zero_val(v.et))
                old = v.size
                nsz = it.s(old + k) if name == "grow_by" else (k if name == "resize" else it.s(z3.If(z3.ULT(old, k), k, old)))
                j = z3.Const("j!rs", IDX)
                na = []
                for a, l in zip(v.arrs, leaves(el)):
                    na.append(z3.Lambda([j], z3.If(z3.ULT(j, old), z3.Select(a, j), l)) if not (z3.is_const_array(a) and z3.eq(a.arg(0), l) or cint(old) == 0) else (z3.K(IDX, l)))
                v.arrs = na; v.size = nsz; it.write(this, v)
                return PtrV(this.sub(("i", old)), z3.BoolVal(False))
            if name == "swap":
                o = it.lv(args[0]); b = copy_val(it.read(o)); a = copy_val(v)
                it.write(this, b); it.write(o, a); return None
            if name == "operator=":
                o = it.ev(args[0]); it.write(this, it.val(o)); return this
        else:
            self.note("std::unique_ptr member functions behave as specified by the standard")
            if name in ("get", "release"):
                p = PtrV(this.sub(("i", idx(0))), v.null)
                if name == "release":
                    c = Cell(copy_val(v), "released"); it.write(this, it.empty_like(v)); p = PtrV(LVal(c).sub(("i", idx(0))), v.null)
                return p
            if name == "operator bool": return simp_not(v.null)
            if name == "reset":
                if not args or (isinstance(it.rv(args[0]), PtrV) and it.rv(args[0]).lv is None): 
                    nv = copy_val(v); nv.null = z3.BoolVal(True); it.write(this, nv); return None
                p = it.rv(args[0]); t = Type("rec", "std::unique_ptr", (Type("carr", v.et, None) if v.kind == "uarr" else v.et,))
                it.write(this, self.own(it, p, t)); return None
            if name == "swap":
                o = it.lv(args[0]); b = copy_val(it.read(o)); a = copy_val(v)
                it.write(this, b); it.write(o, a); return None
            if name == "operator[]":
                i = self.argv(it, args, 0); lv = this.sub(("i", i)); it.bounds(lv, n, "array index in bounds"); return lv
        raise Unsupported("method %s of container" % name)
    in_atomic = False
    def atomic_step(self, h, it, op, this, do):
        """an atomic operation as one step: h sees it with the effect still to be performed"""
        self.in_atomic = True
        try: return h(it, this, op, do)
        finally: self.in_atomic = False
    def make_elem(self, it, v, args, n):
        et = v.et
        if len(args) == 1:
            x = it.ev(args[0]); src = x
            x = it.val(x) if isinstance(x, (LVal, RefV)) else x
            if et.k == "rec" and et.a[0] == "std::unique_ptr":
                if isinstance(x, PtrV): return self.own(it, x, et)
                if isinstance(src, LVal) and isinstance(x, DynArr): it.moved_from(src, et)
                return x
            if et.k == "rec" and it.ast.find_class(et) is not None and not (isinstance(x, RecV) and x.t == et):
                return it.construct_from_vals(et, [x], n)
            return self.conv_elem(it, x, it.ty(args[0]), et)
        if et.k == "rec" and et.a[0] == "std::pair" and len(args) == 2:
            return RecV(et, {"first": self.conv_elem(it, it.rv(args[0]), it.ty(args[0]), et.a[1][0]), "second": self.conv_elem(it, it.rv(args[1]), it.ty(args[1]), et.a[1][1])})
        if not args: return it.default_val(et, "el")
        if et.k == "rec" and it.ast.find_class(et) is not None:
            return it.construct_from_vals(et, [it.rv(a) for a in args], n)
        raise Unsupported("emplace_back with %d arguments" % len(args))
    def m_fix(self, it, v, name, this, args, n):
        self.note("std::array member functions behave as specified by the standard")
        N = len(v.e)
        if name in ("size", "max_size"): return idx(N)
        if name == "operator=":
            x = it.rv(args[0]) if isinstance(args[0], dict) else args[0]; it.write(this, copy_val(it.val(x) if isinstance(x, (LVal, RefV)) else x)); return this
        if name == "empty": return z3.BoolVal(N == 0)
        if name in ("begin", "cbegin", "data"): return PtrV(this.sub(("i", idx(0))), z3.BoolVal(False))
        if name in ("end", "cend"): return PtrV(this.sub(("i", idx(N))), z3.BoolVal(False))
        if name in ("front", "back"): return this.sub(("i", idx(0 if name == "front" else N - 1)))
        if name == "at":
            i = self.argv(it, args, 0)
            if not it.ctx.branch(z3.ULT(i, idx(N))): raise ThrowEx(Type("rec", "std::out_of_range", ()), n)
            return this.sub(("i", i))
        if name == "operator[]":
            i = self.argv(it, args, 0); lv = this.sub(("i", i)); it.bounds(lv, n, "array index in bounds"); return lv
        if name == "fill":
            x = self.conv_elem(it, it.rv(args[0]), it.ty(args[0]), v.et)
            it.write(this, FixArr(v.et, [copy_val(x) for _ in range(N)])); return None
        if name == "swap":
            o = it.lv(args[0]); b = copy_val(it.read(o)); a = copy_val(v)
            it.write(this, b); it.write(o, a); return None
        raise Unsupported("method %s of std::array" % name)
    def m_atomic(self, it, v, name, this, args, n):
        self.note("std::atomic in a single-threaded history is its plain value")
        if name == "load" or name.startswith("operator ") and not args: return v
        t = it.ast.type_of(n)
        def arg(i):
            x = it.rv(args[i])
            if z3.is_bv(x) and z3.is_bv(v) and x.size() != v.size(): x = it.conv_int(x, it.int_ty(args[i]), IntT(v.size(), False))
            return x
        if name in ("store", "operator="):
            x = arg(0); it.write(this, x); return x
        if name in ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "exchange"):
            x = arg(0)
            nv = {"fetch_add": lambda: v + x, "fetch_sub": lambda: v - x, "fetch_or": lambda: v | x, "fetch_and": lambda: v & x, "exchange": lambda: x}[name]()
            it.write(this, it.s(nv)); return v
        if name in ("operator++", "operator--", "operator+=", "operator-=", "operator|=", "operator&="):
            return self.op_method(it, name, this, args, n)
        if name in ("compare_exchange_weak", "compare_exchange_strong"):
            e = it.lv(args[0]); ev = it.read(e); d = arg(1)
            if it.ctx.branch(v == ev): it.write(this, d); return z3.BoolVal(True)
            it.write(e, v); return z3.BoolVal(False)
        raise Unsupported("method %s of atomic" % name)
    def m_str(self, it, v, name, this, args, n):
        if name in ("size", "length"):
            return it.bv_of_int(z3.Length(v), 64)
        if name == "empty": return z3.Length(v) == 0
        if name == "operator[]":
            i = self.argv(it, args, 0); I = it.int_of_bv(i)
            it.ctx.oblige("string index in bounds", z3.And(I >= 0, I <= z3.Length(v)), "safety", n)
            return it.bv_of_int(z3.If(I < z3.Length(v), z3.StrToCode(z3.SubString(v, I, 1)), z3.IntVal(0)), 8)
        if name == "substr":
            xs = [it.int_of_bv(self.argv(it, [a], 0)) for a in args]
            p = xs[0] if xs else z3.IntVal(0)
            if not it.ctx.branch(p <= z3.Length(v)): raise ThrowEx(Type("rec", "std::out_of_range", ()), n)
            k = xs[1] if len(xs) > 1 else None
            # the count is an unsigned word: a negative view means a huge count
            if k is None: return z3.SubString(v, p, z3.Length(v) - p)
            return z3.If(k < 0, z3.SubString(v, p, z3.Length(v) - p), z3.SubString(v, p, k))
        if name == "find":
            x = it.rv(args[0])
            if isinstance(x, OpaqueV) and "s" in x.d: x = z3.StringVal(x.d["s"])
            if not isinstance(x, z3.SeqRef): x = streams.text(it, x, it.ty(args[0]))
            p = it.uview(self.argv(it, args, 1)) if len(args) > 1 else z3.IntVal(0)
            i = z3.IndexOf(v, x, p)
            return it.bv_of_int(z3.If(i >= 0, i, z3.IntVal(2**64 - 1)), 64)
        if name in ("c_str",): return v
        if name == "clear": it.write(this, z3.StringVal("")); return None
        if name in ("append", "push_back"):
            it.write(this, z3.Concat(v, streams.text(it, it.rv(args[0]), it.ty(args[0])))); return this
        if name == "operator+=":
            return self.op_method(it, name, this, args, n)
        raise Unsupported("string method " + name)
    # ------------------------------------------------------------ operators
    def op_method(self, it, op, this, args, n):
        v = it.read(this)
        h = self.runner.methods.get(("atomic", "*"))
        if h is not None and isinstance(v, z3.ExprRef) and z3.is_bv(v) and isinstance(this, LVal) and not self.in_atomic:
            return self.atomic_step(h, it, op, this, lambda: self.op_method(it, op, this, args, n))
        if op == "operator<<" and streams.is_stream(v): return streams.out(it, this, args[0], n)
        if maps.is_it(v): return maps.it_op(it, op, this, v, args, n)
        if maps.is_map(v) and op == "operator[]": return maps.method(it, this, op, args, n)
        if op == "operator=":
            src = it.ev(args[0])
            x = it.val(src) if isinstance(src, (LVal, RefV)) else src
            if isinstance(v, DynArr) and v.kind != "vec":
                if isinstance(x, PtrV) and x.lv is None or x is None:
                    nv = copy_val(v); nv.null = z3.BoolVal(True); it.write(this, nv); return this
                it.write(this, x)
                if isinstance(src, LVal): it.moved_from(src, None)
                return this
            if isinstance(v, DynArr):
                if isinstance(x, DynArr):
                    x = copy_val(x); x.kind = "vec"; it.write(this, x)
                    f = args[0]
                    if isinstance(src, LVal) and args[0].get("valueCategory") == "xvalue" and src.c.name != "tmp": it.moved_from(src, None)
                    return this
            if isinstance(v, z3.ExprRef) and z3.is_bv(v) and z3.is_bv(x):
                x = it.conv_int(x, it.int_ty(args[0]), IntT(v.size(), False))
            it.write(this, x); return this
        if isinstance(v, z3.ExprRef) and z3.is_bv(v) and op in ("operator++", "operator--"):
            self.note("std::atomic in a single-threaded history is its plain value")
            nv = it.s(v + 1 if op == "operator++" else v - 1); it.write(this, nv)
            return v if args else nv
        if isinstance(v, z3.ExprRef) and z3.is_bv(v) and op in ("operator+=", "operator-=", "operator|=", "operator&="):
            x = it.conv_int(it.rv(args[0]), it.int_ty(args[0]), IntT(v.size(), False))
            nv = it.s({"+": v + x, "-": v - x, "|": v | x, "&": v & x}[op[-2]]); it.write(this, nv); return nv
        if isinstance(v, z3.SeqRef) and op == "operator+=":
            it.write(this, z3.Concat(v, streams.text(it, it.rv(args[0]), it.ty(args[0])))); return this
        if isinstance(v, PtrV):
            if op in ("operator++", "operator--"):
                nv = it.ptr_add(v, idx(1 if op == "operator++" else -1)); it.write(this, nv)
                return v if args else this
            if op == "operator*": return it.deref(v, n, "dereferenced iterator is valid")
            if op == "operator->": return it.deref(v, n, "dereferenced iterator is valid")
            if op in ("operator+", "operator-", "operator+=", "operator-="):
                y = it.rv(args[0])
                if isinstance(y, PtrV): return it.ptr_binop("-", v, y, n)
                y = it.conv_int(y, it.int_ty(args[0]), I64)
                r = it.ptr_add(v, it.s(-y) if "-" in op else y)
                if op.endswith("="): it.write(this, r); return this
                return r
            if op == "operator[]":
                i = self.argv(it, args, 0, I64); return it.deref(it.ptr_add(v, i), n)
            if op in ("operator==", "operator!=", "operator<"): return it.ptr_binop(op[8:], v, it.rv(args[0]), n)
        if isinstance(v, DynArr) and op in ("operator*", "operator->"):
            it.ctx.oblige("dereferenced owning pointer is not null", z3.Not(v.null), "safety", n)
            r = this.sub(("i", idx(0))); return PtrV(r, z3.BoolVal(False)) if op == "operator->" else r
        if op == "operator[]": return self.method(it, Type("rec", "?", ()), "operator[]", this, args, n)
        h = self.runner.methods.get(("op", op))
        if h is not None:
            return h(it, this, args, n)
        raise Unsupported("%s on %s line %s" % (op, type(v).__name__, loc_of(n)))
    def op_free(self, it, op, args, n):
        a = it.ev(args[0]); va = it.val(a) if isinstance(a, (LVal, RefV)) else a
        o = op[8:]
        h = self.runner.methods.get(("opfree", op))
        if h is not None:
            r = h(it, a, args, n)
            if r is not NotImplemented: return r
        if o == "<<" and len(args) == 2 and streams.is_stream(va) and isinstance(a, (LVal, RefV)): return streams.out(it, a if isinstance(a, LVal) else a.lv, args[1], n)
        if len(args) == 2:
            b = it.ev(args[1]); vb = it.val(b) if isinstance(b, (LVal, RefV)) else b
            if isinstance(va, DynArr) and va.kind != "vec":   # unique_ptr == nullptr
                if o == "==": return va.null
                if o == "!=": return simp_not(va.null)
            if isinstance(vb, DynArr) and vb.kind != "vec":
                if o == "==": return vb.null
                if o == "!=": return simp_not(vb.null)
            if isinstance(va, PtrV) or isinstance(vb, PtrV): return it.ptr_binop(o, va, vb, n)
            if maps.is_it(va) and o in ("==", "!="): e = va.f["i"] == vb.f["i"]; return e if o == "==" else simp_not(e)
            if o in ("==", "!=") and isinstance(va, (RecV, FixArr)) :
                e = self.elem_eq(it, va, vb); return e if o == "==" else simp_not(e)
            if isinstance(va, FixArr) and o == "<":
                r = z3.BoolVal(False)
                for x, y in reversed(list(zip(va.e, vb.e))):
                    lt = self.lt(it, x, y, va.et); gt = self.lt(it, y, x, va.et)
                    r = z3.Or(lt, z3.And(z3.Not(gt), r))
                return r
            if o == "+" and (isinstance(va, z3.SeqRef) or isinstance(vb, z3.SeqRef)): return z3.Concat(streams.text(it, va, it.ty(args[0])), streams.text(it, vb, it.ty(args[1])))
            if isinstance(va, z3.SeqRef):
                if o in ("==", "!="):
                    if isinstance(vb, OpaqueV): vb = z3.StringVal(vb.d["s"])
                    return va == vb if o == "==" else va != vb
            if isinstance(va, z3.ExprRef) and isinstance(vb, z3.ExprRef):
                return it.binop(o, va, vb, it.ty(args[0]), it.ty(args[1]), n)
        raise Unsupported("free %s on %s line %s" % (op, type(va).__name__, loc_of(n)))
    def elem_eq(self, it, a, b): return eq_val(a, b)
    def lt(self, it, x, y, t):
        if z3.is_bv(x): return x < y if (t.is_int and t.signed) else z3.ULT(x, y)
        return x < y
    # ------------------------------------------------------------ free functions
    def free(self, it, name, args, n, did):
        args = [x for x in args if x["kind"] != "CXXDefaultArgExpr"]
        h = self.runner.free.get(name)
        if h is not None: return h(it, args, n)
        if name in ("move", "forward", "as_const", "addressof") and len(args) == 1:
            v = it.ev(args[0])
            if name == "addressof": return PtrV(v, z3.BoolVal(False))
            return v
        if name == "getline":
            a = it.lv(args[0]); f = it.lv(args[1])
            d = streams.chr_text(it.rv(args[2])) if len(args) > 2 else z3.StringVal("\n")
            return streams.getline(it, a, f, d)
        if name in ("min", "max") and len(args) == 2:
            a = it.ev(args[0]); b = it.ev(args[1]); x = it.val(a); y = it.val(b)
            t = it.ty(args[0])
            while t.k == "ref": t = t.a[0]
            self.note("std::min / std::max")
            if isinstance(x, FRatio): x = it.real(x)
            if isinstance(y, FRatio): y = it.real(y)
            if z3.is_bv(x): lt = (lambda p, q: p < q) if t.signed else z3.ULT
            else: lt = lambda p, q: p < q
            # min: b < a ? b : a ; max: a < b ? b : a
            c = lt(y, x) if name == "min" else lt(x, y)
            return it.s(z3.If(c, y, x))
        if name == "swap" and len(args) == 2:
            a = it.lv(args[0]); b = it.lv(args[1]); x = copy_val(it.read(a)); y = copy_val(it.read(b))
            it.write(a, y); it.write(b, x); return None
        if name in ("get",) and len(args) == 1:
            a = it.lv(args[0]); v = it.read(a)
            q = it.callee_decl(n)
            if isinstance(v, RecV) and "first" in v.f:
                d = it.ast.nodes.get(did, {})
                raise Unsupported("std::get")
        if name in ("sqrt", "sqrtl", "sqrtf"):
            x = it.real(it.rv(args[0]))
            self.note("sqrt returns the exact non-negative square root")
            from . import ring
            if not ring.sum_of_squares(x): it.ctx.oblige("argument of sqrt is not negative", x >= 0, "safety", n)
            elif it.ctx.live: it.ctx.runner.trivial += 1
            r = it.ctx.fresh("sqrt", z3.RealSort())
            it.ctx.assume(r >= 0); it.ctx.assume(r * r == x); it.sqrts = getattr(it, "sqrts", []) + [(r, x)]
            return r
        if name in ("abs", "fabs"):
            x = it.rv(args[0])
            if isinstance(x, FRatio): return x
            if z3.is_bv(x): return z3.If(x < 0, -x, x)
            return z3.If(x >= 0, x, -x)
        if name == "pow":
            x = it.real(it.rv(args[0])); y = it.rv(args[1])
            y = it.real(y) if isinstance(y, FRatio) else y
            if isinstance(y, z3.ExprRef) and z3.is_bv_value(y): e = y.as_signed_long()
            else:
                y = z3.simplify(y)
                if not (z3.is_rational_value(y) and y.denominator_as_long() == 1): raise Unsupported("pow with symbolic exponent")
                e = y.numerator_as_long()
            self.note("pow with a small constant exponent is the exact power")
            if not 0 <= e <= 64: raise Unsupported("pow exponent")
            x = z3.simplify(x) if z3.is_rational_value(z3.simplify(x)) else x
            r = z3.RealVal(1)
            for _ in range(e): r = r * x
            return z3.simplify(r) if z3.is_rational_value(x) else r
        if name in ("floor", "ceil", "round", "trunc"):
            x = it.real(it.rv(args[0]))
            if name == "floor": return z3.ToReal(z3.ToInt(x))
            if name == "ceil": return -z3.ToReal(z3.ToInt(-x))
            if name == "trunc": return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
        if name in ("begin", "cbegin", "end", "cend") and len(args) == 1:
            a = it.lv(args[0]); return self.method(it, Type("rec", "?", ()), name, a, [], n)
        if name == "distance" and len(args) == 2:
            return it.ptr_binop("-", it.rv(args[1]), it.rv(args[0]), n)
        if name in ("next", "prev"):
            p = it.rv(args[0]); k = it.conv_int(it.rv(args[1]), it.int_ty(args[1]), I64) if len(args) > 1 else idx(1)
            return it.ptr_add(p, k if name == "next" else it.s(-k))
        if name == "advance":
            a = it.lv(args[0]); k = it.conv_int(it.rv(args[1]), it.int_ty(args[1]), I64)
            it.write(a, it.ptr_add(it.read(a), k)); return None
        if name in ("isdigit",):
            I = it.int_of_bv(it.rv(args[0]))
            return it.conv_int(z3.And(I >= 48, I <= 57), BOOL, I32)
        if name == "make_tuple": return RecV(it.ty(n), {"e%d" % i: copy_val(it.rv(x)) for i, x in enumerate(args)})
        if name == "make_pair":
            t = it.ty(n)
            return RecV(t, {"first": it.rv(args[0]), "second": it.rv(args[1])})
        if name in ("lowest", "min", "max", "infinity", "quiet_NaN", "epsilon") and not args:
            return self.limits(it, name, n, did)
        if name in ("fill", "fill_n", "copy", "copy_n", "for_each", "transform", "generate", "any_of", "all_of", "none_of", "find", "find_if", "accumulate", "iota", "count_if", "sort", "reverse", "max_element", "min_element", "inner_product"):
            return self.algorithm(it, name, args, n)
        if name == "make_unique":
            t = it.ty(n); a0 = t.a[1][0]
            if a0.k == "carr":
                size = it.conv_int(it.rv(args[0]), it.int_ty(args[0]), U64)
                d = it.new_array(a0.a[0], size, True); return d
            if not args:
                v = streams.new(it, a0) if a0.k == "rec" and a0.a[0] in streams.NAMES else it.zero_val(a0)
            else:
                v = it.construct_from_vals(a0, [it.ev(a) for a in args], n) if it.ast.find_class(a0) is not None else it.rv(args[0])
            d = it.fresh_dyn(a0, "box", "ubox"); d.size = idx(1); d.null = z3.BoolVal(False); d.put(idx(0), v)
            return d
        if name == "to_string":
            it.rv(args[0]); return it.ctx.fresh("to_string", z3.StringSort())
        if name in ("__builtin_popcount", "__builtin_popcountl", "__builtin_popcountll"):
            x = it.rv(args[0]); r = z3.BitVecVal(0, 32)
            for k in range(x.size()): r = r + z3.ZeroExt(31, z3.Extract(k, k, x))
            return r
        if name == "__builtin_expect": return it.rv(args[0])
        if name == "regex_match" and len(args) >= 2:
            s = it.rv(args[0]); r = it.rv(args[1])
            if isinstance(r, OpaqueV) and "re" in r.d:
                self.note("std::regex_match decides membership in the language of its ECMAScript pattern")
                from .regex import to_z3
                return z3.InRe(s, to_z3(r.d["re"]))
        raise Unsupported("call of %s line %s" % (name, loc_of(n)))
    def predicate(self, it, f, lvs, n):
        """call of a comparator / predicate object on given locations"""
        if isinstance(f, PtrV) and isinstance(f.lv, LVal): f = it.read(f.lv)
        if isinstance(f, FuncV):
            d = it.ast.defs.get(f.decl["id"], f.decl)
            return to_bool(it.val(it.call(d, None, list(lvs), n)))
        return to_bool(it.val(it.call_closure(f, list(lvs), n)))
    def sort(self, it, args, n):
        """std::sort of a whole vector: the result is a permutation of the elements, ordered by the comparator, which has to be
        a strict weak order on them"""
        self.note("std::sort permutes the elements and orders them by the comparator")
        p, q = it.rv(args[0]), it.rv(args[1])
        base = LVal(p.lv.c, p.lv.p[:-1]); v = copy_val(it.read(base))
        if not isinstance(v, DynArr) or v.kind != "vec" or cint(it.ptr_idx(p)) != 0 or not z3.eq(simp(it.ptr_idx(q)), simp(v.size)): raise Unsupported("sort of a sub-range")
        f = it.ev(args[2]) if len(args) > 2 else None
        if isinstance(f, LVal): f = it.val(f)
        ctx = it.ctx
        def less(a, b, arrs, hyp):
            """comparator on two elements, as a term"""
            d = DynArr(v.et, v.proto, arrs, v.size, v.null, v.kind)
            npc, pos = len(ctx.pc), ctx.pos
            for h in hyp: ctx.pc.append(h)
            x, y = LVal(Cell(d.get(a), "a")), LVal(Cell(d.get(b), "b"))
            ctx.pure += 1
            try: r = self.predicate(it, f, [x, y], n) if f is not None else self.lt(it, it.read(x), it.read(y), v.et)
            except Impure: raise Unsupported("comparator with control flow")
            finally: ctx.pure -= 1
            del ctx.pc[npc:]
            return r
        i, j, k = [ctx.fresh("srt." + x, IDX) for x in "ijk"]; N = v.size
        inr = lambda *xs: [z3.ULT(x, N) for x in xs]
        old = list(v.arrs)
        A = lambda a, b: less(a, b, old, inr(a, b))
        ij, ji, jk, ik, kj, ki = A(i, j), A(j, i), A(j, k), A(i, k), A(k, j), A(k, i)
        H = z3.And(inr(i, j, k))
        ctx.oblige("the comparator given to std::sort is a strict weak order", z3.Implies(H, z3.And(z3.Not(z3.And(ij, ji)), z3.Implies(z3.And(ij, jk), ik), z3.Implies(z3.And(z3.Not(ij), z3.Not(ji), z3.Not(jk), z3.Not(kj)), z3.And(z3.Not(ik), z3.Not(ki))))), "safety", n, assume=False)
        P = z3.Const(str(ctx.fresh("perm", IDX)), z3.ArraySort(IDX, IDX)); Q = z3.Const(str(ctx.fresh("perm.inv", IDX)), z3.ArraySort(IDX, IDX))
        new = [z3.Const(str(ctx.fresh("sorted", IDX)), a.sort()) for a in old]
        w = z3.Const("w!sort", IDX); u = z3.Const("u!sort", IDX)
        ctx.assume(z3.ForAll([w], z3.Implies(z3.ULT(w, N), z3.And(z3.ULT(P[w], N), Q[P[w]] == w)), patterns=[P[w]]))
        ctx.assume(z3.ForAll([w], z3.Implies(z3.ULT(w, N), z3.And(z3.ULT(Q[w], N), P[Q[w]] == w)), patterns=[Q[w]]))
        for a, b in zip(new, old): ctx.assume(z3.ForAll([w], z3.Implies(z3.ULT(w, N), a[w] == b[P[w]]), patterns=[a[w]]))
        sj = z3.substitute(less(j, i, new, inr(i, j)), (i, w), (j, u))
        ctx.assume(z3.ForAll([w, u], z3.Implies(z3.And(z3.ULT(w, u), z3.ULT(u, N)), z3.Not(sj))))
        v.arrs = new; it.write(base, v)
        it.last_sort = (P, Q, N)
        return None
    def limits(self, it, name, n, did):
        t = it.ty(n)
        if t.is_int:
            if name in ("min", "lowest"): return z3.BitVecVal(-(1 << (t.bits-1)) if t.signed else 0, t.bits)
            if name == "max": return z3.BitVecVal((1 << (t.bits-1)) - 1 if t.signed else (1 << t.bits) - 1, t.bits)
        if t.k == "float":
            mx = z3.RealVal(2**1024 - 2**971); mn = z3.RealVal("1/%d" % 2**1022)
            if name == "max": return it.fmax()
            if name == "lowest": return -it.fmax()
            if name == "min": return it.fmin()
            if name == "infinity": return it.finf()
        raise Unsupported("numeric_limits::" + name)
    def algorithm(self, it, name, args, n):
        """iterator algorithms over ranges of statically known length, executed element by element"""
        def rng(a, b):
            p = it.rv(a); q = it.rv(b)
            if not (isinstance(p, PtrV) and isinstance(q, PtrV)): raise Unsupported("range of " + name)
            return p, q, cint(it.ptr_binop("-", q, p, n))
        if name in ("fill", "fill_n"):
            if name == "fill": p, q, k = rng(args[0], args[1])
            else:
                p = it.rv(args[0]); kk = it.conv_int(it.rv(args[1]), it.int_ty(args[1]), U64); k = cint(kk); q = it.ptr_add(p, kk)
            x = it.rv(args[2])
            base = LVal(p.lv.c, p.lv.p[:-1]); cont = it.read(base)
            et = cont.et
            x = self.conv_elem(it, x, it.ty(args[2]), et)
            if isinstance(cont, DynArr):
                a, b = it.ptr_idx(p), it.ptr_idx(q)
                it.ctx.oblige("filled range inside the array", z3.And(z3.ULE(a, b), z3.ULE(b, cont.size)), "safety", n)
                j = z3.Const("j!fill", IDX)
                cont.arrs = [z3.Lambda([j], z3.If(z3.And(z3.ULE(a, j), z3.ULT(j, b)), l, z3.Select(o, j))) for o, l in zip(cont.arrs, leaves(x))]
                it.write(base, cont); return q
            if k is None: raise Unsupported("fill of symbolic length")
            for i in range(k): 
                lv = it.ptr_add(p, idx(i)).lv; it.bounds(lv, n); it.write(lv, x)
            return q
        if name == "copy":
            p, q, k = rng(args[0], args[1]); d = it.rv(args[2])
            if k is None: raise Unsupported("copy of symbolic length")
            for i in range(k):
                s = it.ptr_add(p, idx(i)).lv; t = it.ptr_add(d, idx(i)).lv
                it.bounds(s, n); it.bounds(t, n); it.write(t, it.val(s))
            return it.ptr_add(d, idx(k))
        if name == "for_each":
            p, q, k = rng(args[0], args[1]); f = it.rv(args[2])
            if k is None: raise Unsupported("for_each of symbolic length")
            for i in range(k): it.call_closure(f, [it.ptr_add(p, idx(i)).lv], n)
            return f
        if name == "transform":
            p, q, k = rng(args[0], args[1])
            if k is None: raise Unsupported("transform of symbolic length")
            if len(args) == 4:
                d = it.rv(args[2]); f = it.rv(args[3])
                for i in range(k):
                    v = it.call_closure(f, [it.ptr_add(p, idx(i)).lv], n)
                    t = it.ptr_add(d, idx(i)).lv; it.bounds(t, n); it.write(t, it.val(v))
            else:
                p2 = it.rv(args[2]); d = it.rv(args[3]); f = it.rv(args[4])
                for i in range(k):
                    v = it.call_closure(f, [it.ptr_add(p, idx(i)).lv, it.ptr_add(p2, idx(i)).lv], n)
                    t = it.ptr_add(d, idx(i)).lv; it.bounds(t, n); it.write(t, it.val(v))
            return it.ptr_add(d, idx(k))
        if name == "generate":
            p, q, k = rng(args[0], args[1]); f = it.rv(args[2])
            if k is None: raise Unsupported("generate of symbolic length")
            for i in range(k):
                v = it.call_closure(f, [], n); it.write(it.ptr_add(p, idx(i)).lv, it.val(v))
            return None
        if name in ("sort", "stable_sort"): return self.sort(it, args, n)
        if name in ("max_element", "min_element"):
            p, q, k = rng(args[0], args[1])
            if k is None or len(args) > 2: raise Unsupported("%s of symbolic length" % name)
            if k == 0: return p
            best = it.val(p.lv); i0 = it.ptr_idx(p); at = i0
            for i in range(1, k):
                x = it.val(it.ptr_add(p, idx(i)).lv); c = it.binop("<", best, x, cont_et(it, p), cont_et(it, p), n) if name == "max_element" else it.binop("<", x, best, cont_et(it, p), cont_et(it, p), n)
                best = it.s(z3.If(c, x, best)); at = it.s(z3.If(c, i0 + i, at))
            return PtrV(LVal(p.lv.c, p.lv.p[:-1] + (("i", at),)), z3.BoolVal(False), p.t)
        if name == "inner_product":
            p, q, k = rng(args[0], args[1]); p2 = it.rv(args[2]); s = it.rv(args[3]); T = it.ty(args[3])
            if k is None or len(args) > 4: raise Unsupported("inner_product")
            et = cont_et(it, p)
            for i in range(k): s = it.binop("+", s, it.binop("*", it.val(it.ptr_add(p, idx(i)).lv), it.val(it.ptr_add(p2, idx(i)).lv), et, et, n), T, et, n)
            return s
        if name in ("find", "count"):
            p, q, k = rng(args[0], args[1]); x = it.ev(args[2]); x = it.val(x)
            if k is None: raise Unsupported("%s of symbolic length" % name)
            es = [eq_val(it.val(it.ptr_add(p, idx(i)).lv), x) for i in range(k)]
            if name == "count": return it.s(sum([z3.If(e, idx(1), idx(0)) for e in es], idx(0)))
            i0 = it.ptr_idx(p); r = i0 + k
            for i in range(k - 1, -1, -1): r = z3.If(es[i], i0 + i, r)
            return PtrV(LVal(p.lv.c, p.lv.p[:-1] + (("i", it.s(r)),)), z3.BoolVal(False), p.t)
        if name in ("any_of", "all_of", "none_of"):
            p, q, k = rng(args[0], args[1]); f = it.rv(args[2])
            if k is None: raise Unsupported("%s of symbolic length" % name)
            rs = [to_bool(it.val(it.call_closure(f, [it.ptr_add(p, idx(i)).lv], n))) for i in range(k)]
            o = z3.Or(rs) if rs else z3.BoolVal(False); a = z3.And(rs) if rs else z3.BoolVal(True)
            return {"any_of": o, "all_of": a, "none_of": z3.Not(o)}[name]
        raise Unsupported("algorithm %s line %s" % (name, loc_of(n)))
