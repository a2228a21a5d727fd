"""Symbolic execution of clang AST function bodies, one path per run (decision replay).

Every call either goes through a contract (contract registered for the callee), or through a
model of a library function (listed as an assumption), or the callee's body is executed in
place.  Loops are cut at invariants supplied by the contract, or unrolled completely when
every further iteration is infeasible after a fixed number (checked by the solver)."""
import z3, re, struct
from .ast import *
from .values import *

class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ThrowEx(Exception):
    def __init__(self, t, node=None, val=None): self.t = t; self.node = node; self.val = val
class PathEnd(Exception):
    """path ended at a loop cut point or is infeasible"""
class Impure(Exception): pass
class VarMissing(Unsupported):
    def __init__(self, n): Unsupported.__init__(self, "no local variable %s" % n); self.n = n

class Obl:
    __slots__ = ("fn", "name", "hyps", "goal", "kind", "line", "inputs", "path", "hints", "done")
    def __init__(self, **k):
        self.hints = []; self.done = None
        for a, b in k.items(): setattr(self, a, b)

class Ctx:
    def __init__(self, decisions, runner):
        self.dec = decisions; self.pos = 0; self.runner = runner
        self.pc = []; self.counter = {}
        self.pure = 0; self.writes = 0
        self.inputs = []
        self.qf = None; self.nq = 0
        self.insts = []      # library / trusted facts used on this path
        self.trace = []
    @property
    def live(self): return self.pos >= len(self.dec)
    def fresh(self, name, sort):
        name = re.sub(r"[^A-Za-z0-9_.!~]", "_", name.replace("'", "~"))
        n = self.counter.get(name, 0); self.counter[name] = n + 1
        return z3.Const(name if n == 0 else "%s!%d" % (name, n), sort)
    def assume(self, c):
        if isinstance(c, bool): c = z3.BoolVal(c)
        if z3.is_true(c): return
        self.pc.append(c)
    def feasible(self, c):
        s = z3.Solver(); s.set("timeout", self.runner.feas_ms)
        for h in self.pc:
            if not has_quant(h): s.add(h)
        s.add(c)
        self.runner.feas_calls += 1
        return s.check() != z3.unsat
    def branch(self, c):
        c = c if (z3.is_true(c) or z3.is_false(c)) else simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pure: raise Impure()
        if self.pos < len(self.dec):
            r = self.dec[self.pos]; self.pos += 1
        else:
            ft = self.feasible(c); ff = self.feasible(z3.Not(c))
            if not ft and not ff: raise PathEnd()
            if ft and ff: self.runner.schedule(self.dec[:self.pos] + [False])
            r = ft
            self.dec = self.dec[:self.pos] + [r]; self.pos += 1
        self.assume(c if r else z3.Not(c))
        return r
    def choose(self, label):
        """nondeterministic binary choice (loop: iterate / exit)"""
        if self.pure: raise Impure()
        if self.pos < len(self.dec):
            r = self.dec[self.pos]; self.pos += 1
            return r
        self.runner.schedule(self.dec[:self.pos] + [False])
        self.dec = self.dec[:self.pos] + [True]; self.pos += 1
        return True
    def ring(self, name, a, b, known=(), kind="lemma", node=None, assume=False):
        """obligation a == b, an identity of rational functions wherever the terms in known do not vanish"""
        from . import ring
        if self.live:
            ok = ring.identical(a, b, known)
            self.runner.add_obl(Obl(fn=self.runner.cname, name=name, hyps=list(self.pc) + [k != 0 for k in known], goal=a == b, kind=kind, line=loc_of(node) if node else None, inputs=list(self.inputs), path=list(self.dec), hints=[], done="ring" if ok else None))
        if assume: self.assume(a == b)
    def oblige_over(self, name, goal, names, known=(), facts=(), kind="post", node=None):
        """goal under the path condition, with the comparisons of the given terms abstracted by fresh reals (facts: true statements about those)"""
        from . import ring
        if not self.live: return
        hs = [h for h in self.pc if not has_quant(h)]
        ab = ring.abstraction(hs + [goal], names, known)
        sub = lambda t: z3.substitute(t, *ab) if ab else t
        self.runner.add_obl(Obl(fn=self.runner.cname, name=name, hyps=[sub(h) for h in hs] + list(facts), goal=sub(goal), kind=kind, line=loc_of(node) if node else None, inputs=list(self.inputs), path=list(self.dec), hints=[]))
    nonzero = None
    def oblige(self, name, goal, kind="safety", node=None, assume=True, hints=()):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        g = goal if has_quant(goal) else simp(goal)
        if z3.is_quantifier(goal) and any(alpha_eq(goal, h) for h in self.pc):     # literally one of the hypotheses
            if self.live: self.runner.trivial += 1
            return
        if z3.is_true(g):
            if self.live: self.runner.trivial += 1
            return
        if self.live and kind == "safety" and self.nonzero is not None and not has_quant(goal):
            from . import ring
            if goal.decl().kind() == z3.Z3_OP_DISTINCT or z3.is_not(goal) and z3.is_eq(goal.children()[0]):
                e = goal if goal.decl().kind() == z3.Z3_OP_DISTINCT else goal.children()[0]
                x, y = e.children()
                if x.sort().kind() == z3.Z3_REAL_SORT and ring.vanishes_never(x - y, self.nonzero):
                    self.runner.add_obl(Obl(fn=self.runner.cname, name=name, hyps=list(self.pc), goal=goal, kind=kind, line=loc_of(node) if node else None, inputs=[], path=list(self.dec), hints=[], done="ring"))
                    if assume: self.assume(goal)
                    return
        if self.live:
            o = Obl(fn=self.runner.cname, name=name, hyps=list(self.pc), goal=goal, kind=kind,
                    line=loc_of(node) if node else None, inputs=list(self.inputs), path=list(self.dec), hints=list(hints))
            self.runner.add_obl(o)
        if assume: self.assume(goal)

def alpha_eq(a, b):
    return (z3.is_quantifier(b) and a.is_forall() == b.is_forall() and not a.is_lambda() and not b.is_lambda() and a.num_vars() == b.num_vars()
            and all(a.var_sort(i) == b.var_sort(i) for i in range(a.num_vars())) and a.body().eq(b.body()))
_qc = {}
def has_quant(t):
    k = t.get_id()
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x): return True
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        st.extend(x.children())
    return False

def to_bool(v):
    if z3.is_bool(v): return v
    if z3.is_bv(v): return v != 0
    if z3.is_arith(v): return v != 0
    if isinstance(v, PtrV): return z3.Not(v.null)
    if isinstance(v, DynArr): return z3.Not(v.null)
    raise Unsupported("to_bool %r" % type(v))

class Interp:
    def __init__(self, ast, ctx, env_models, contracts, floatmode="real"):
        self.ast = ast; self.ctx = ctx; self.contracts = contracts
        self.models = env_models; self.fm = floatmode
        self.frames = []
        self.depth = 0
        self.loopspec = None       # callable(loopnode, frame) -> LoopSpec or None
        self.entry_fn = None
        self.symN = {}             # template non-type parameter name -> term
        self.check_overflow = True
        self.globals = {}
        self.hook = None
        self.ghost = {}           # ghost variables of the current path
        self.intview = {}; self._keep = []; self.fconst = {}
    def empty_like(self, v):
        d = copy_val(v); d.size = idx(0) if v.kind == "vec" else v.size; d.null = z3.BoolVal(v.kind != "vec"); return d
    def construct_from_vals(self, et, vals, n):
        c = self.ast.find_class(et)
        vs = [self.val(v) if isinstance(v, (LVal, RefV)) else v for v in vals]
        if len(vs) == 1 and isinstance(vs[0], RecV) and vs[0].t == et: return copy_val(vs[0])
        cand = []
        for m in self.ast.ctors(c):
            d = self.ast.defs.get(m["id"])
            if d is None: continue
            ps = self.ast.params(d)
            if len(ps) < len(vs): continue
            if any(not p.get("init") and not p.get("inner") for p in ps[len(vs):]): continue
            ok = True
            for p, v in zip(ps, vs):
                t = self.ast.type_of(p)
                while t.k == "ref": t = t.a[0]
                if isinstance(v, RecV): ok &= (t == v.t or (t.k == "rec" and self.ast.find_class(t) is not None and self.ast.find_class(t) is self.ast.find_class(v.t)))
                elif isinstance(v, FixArr): ok &= t.rec_is("std::array")
                elif isinstance(v, DynArr): ok &= t.k == "rec" and t.a[0].startswith(("std::vector", "std::unique_ptr", "tbb::"))
                elif isinstance(v, z3.ExprRef) and z3.is_bv(v): ok &= t.is_int and t.bits == v.size() or t.is_int
                elif isinstance(v, z3.ExprRef) and z3.is_arith(v): ok &= t.k == "float" or t.is_int
                elif isinstance(v, Closure): ok &= True
            if ok: cand.append(d)
        cand = [d for d in cand if not self.is_copy_ctor(d["type"]["qualType"], et)] or cand
        if not cand and len(vs) == 1 and isinstance(vs[0], RecV):
            # one user-defined conversion
            vc = self.ast.find_class(vs[0].t); alt = []
            def pcls(x):
                x = self.ast.type_of(x)
                while x.k == "ref": x = x.a[0]
                return (x, self.ast.find_class(x)) if x.k == "rec" else (x, None)
            for m in self.ast.ctors(c):
                d = self.ast.defs.get(m["id"])
                if d is None or len(self.ast.params(d)) != 1: continue
                pt, pc = pcls(self.ast.params(d)[0])
                if pc is None or pc is c or pc is vc: continue
                ks = [k for k in self.ast.ctors(pc) if self.ast.defs.get(k["id"]) is not None and len(self.ast.params(k)) == 1 and pcls(self.ast.params(k)[0])[1] is vc]
                if len(ks) == 1: alt.append((d, pt))
            if len(alt) == 1:
                cand = [alt[0][0]]; vals = [self.construct_from_vals(alt[0][1], vals, n)]
        if len(cand) != 1: raise Unsupported("constructor choice for %r (%d of %d candidates)" % (et, len(cand), len(self.ast.ctors(c))))
        d = cand[0]
        out = []
        for p, v in zip(self.ast.params(d), vals):
            pt = self.ast.type_of(p)
            if pt.k == "ref" and isinstance(v, LVal): out.append(v)
            else:
                v = self.val(v) if isinstance(v, (LVal, RefV)) else v
                while pt.k == "ref": pt = pt.a[0]
                if isinstance(v, z3.ExprRef) and z3.is_arith(v) and pt.is_int: v = self.models.float_to_int(self, v, pt, n)
                if isinstance(v, z3.ExprRef) and z3.is_bv(v) and pt.is_int: v = self.conv_int(v, IntT(v.size(), False), pt)
                out.append(LVal(Cell(v, p.get("name", "p"))))
        for p in self.ast.params(d)[len(vals):]: out.append(self.default_arg(d, p, self.ast.type_of(p)))
        cell = Cell(RecV(et, {}), "obj"); this = LVal(cell)
        self.run_ctor(d, c, this, out)
        return cell.v
    # integers that come from string lengths / characters keep an integer view
    def bv_of_int(self, I, bits):
        b = z3.Int2BV(I, bits)
        self.intview[b.get_id()] = I; self._keep.append(b)
        return b
    def _iv(self, b): return b.num_args() == 1 and b.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT) and b.arg(0).get_id() in self.intview
    def int_of_bv(self, b, signed=False):
        if z3.is_bv_value(b): return z3.IntVal(b.as_signed_long())
        r = self.intview.get(b.get_id())
        if r is None:
            if b.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT): return self.int_of_bv(b.arg(0), b.decl().kind() == z3.Z3_OP_SIGN_EXT)
            return z3.BV2Int(b, signed)
        return r
    def merged_view(self, c, r, a, b):
        k = self.intview
        if k and isinstance(r, z3.ExprRef) and z3.is_bv(r) and r.size() == 64 and (a.get_id() in k or b.get_id() in k) and all(x.get_id() in k or z3.is_bv_value(x) for x in (a, b)):
            k[r.get_id()] = z3.If(c, self.uview(a), self.uview(b)); self._keep.append(r)
    def uview(self, b):
        """integer value of an unsigned word (a fresh integer of its range for a word without a known view)"""
        if z3.is_bv_value(b): return z3.IntVal(b.as_long())
        r = self.intview.get(b.get_id())
        if r is None:
            r = self.ctx.fresh("uview", z3.IntSort()); self.ctx.assume(z3.And(r >= 0, r < 2 ** b.size()))
            self.intview[b.get_id()] = r; self._keep.append(b)
        return r
    def fmax(self):
        if "fmax" not in self.fconst:
            c = z3.RealVal(2**1024 - 2**971); self.fconst["fmax"] = c
        return self.fconst["fmax"]
    def fmin(self): return z3.RealVal(1) / z3.RealVal(2**1022)
    def finf(self): raise Unsupported("infinity")
    # ------------------------------------------------------------------ fresh values
    def fsort(self): return z3.RealSort()
    def fresh_val(self, t, name, depth=0):
        ctx = self.ctx
        if depth > 8: raise Unsupported("deep type")
        if t.k == "int": return ctx.fresh(name, z3.BitVecSort(t.bits))
        if t.k == "bool": return ctx.fresh(name, z3.BoolSort())
        if t.k == "float": return ctx.fresh(name, self.fsort())
        if t.k == "carr": return FixArr(t.a[0], [self.fresh_val(t.a[0], "%s[%d]" % (name, i), depth+1) for i in range(t.a[1])])
        if t.k == "rec":
            n, a = t.a
            if n == "std::array":
                if not isinstance(a[1], int): raise Unsupported("symbolic std::array")
                return FixArr(a[0], [self.fresh_val(a[0], "%s[%d]" % (name, i), depth+1) for i in range(a[1])])
            if n in ("std::vector", "tbb::concurrent_vector", "tbb::detail::d1::concurrent_vector"):
                return self.fresh_dyn(a[0], name, "vec", depth)
            if n == "std::unique_ptr":
                if a[0].k == "carr": return self.fresh_dyn(a[0].a[0], name, "uarr", depth)
                d = self.fresh_dyn(a[0], name, "ubox", depth); d.size = idx(1); return d
            if n in ("std::atomic", "std::__atomic_base"): return self.fresh_val(a[0], name, depth+1)
            if n == "std::string": return ctx.fresh(name, z3.StringSort())
            if n == "std::pair": return RecV(t, {"first": self.fresh_val(a[0], name + ".first", depth+1), "second": self.fresh_val(a[1], name + ".second", depth+1)})
            h = self.ctx.runner.con.abstract.get(n)
            if h is not None: return h(self, t, name)
            c = self.ast.find_class(t)
            if c is not None:
                r = RecV(t, {})
                for fn, ft, _ in self.ast.fields(c):
                    r.f[fn] = self.fresh_val(ft, name + "." + fn, depth+1)
                return r
            return OpaqueV(t)
        if t.k in ("ref", "ptr"): return OpaqueV(t)
        return OpaqueV(t)
    def fresh_dyn(self, et, name, kind, depth=0):
        ctx = self.ctx
        # element prototype with throw-away constants
        proto = self.fresh_val(et, name + ".elem", depth+1)
        arrs = [ctx.fresh(name + ".data" + (str(i) if i else ""), z3.ArraySort(IDX, l.sort())) for i, l in enumerate(leaves(proto))]
        size = ctx.fresh(name + ".size", IDX); null = ctx.fresh(name + ".null", z3.BoolSort())
        if kind == "vec": null = z3.BoolVal(False)
        return DynArr(et, proto, arrs, size, null, kind)
    def zero_val(self, t, name="zero"):
        if t.k == "int": return z3.BitVecVal(0, t.bits)
        if t.k == "bool": return z3.BoolVal(False)
        if t.k == "float": return z3.RealVal(0)
        if t.k == "carr": return FixArr(t.a[0], [self.zero_val(t.a[0]) for _ in range(t.a[1])])
        if t.k == "ptr": return PtrV(None, z3.BoolVal(True), t)
        if t.k == "rec":
            n, a = t.a
            if n == "std::array": return FixArr(a[0], [self.zero_val(a[0]) for _ in range(a[1])])
            if n in ("std::vector", "tbb::concurrent_vector", "tbb::detail::d1::concurrent_vector", "std::unique_ptr"):
                return self.empty_dyn(t)
            if n in ("std::atomic", "std::__atomic_base"): return self.zero_val(a[0])
            if n == "std::string": return z3.StringVal("")
            if n == "std::pair": return RecV(t, {"first": self.zero_val(a[0]), "second": self.zero_val(a[1])})
            c = self.ast.find_class(t)
            if c is not None:
                r = RecV(t, {})
                for fn, ft, nd in self.ast.fields(c): r.f[fn] = self.zero_val(ft)
                return r
        return OpaqueV(t)
    def empty_dyn(self, t):
        n, a = t.a
        et = a[0].a[0] if (n == "std::unique_ptr" and a[0].k == "carr") else a[0]
        kind = "vec" if n != "std::unique_ptr" else ("uarr" if a[0].k == "carr" else "ubox")
        d = self.fresh_dyn(et, "empty", kind)
        d.size = idx(0); d.null = z3.BoolVal(kind != "vec")
        return d
    def new_array(self, et, size, zero, name="heap"):
        d = self.fresh_dyn(et, name, "uarr")
        d.size = size; d.null = z3.BoolVal(False)
        if zero:
            ls = leaves(self.zero_val(et))
            d.arrs = [z3.K(IDX, l) for l in ls]
        return d
    # ------------------------------------------------------------------ locations
    def step_get(self, v, s):
        k = s[0]
        if k == "f":
            if isinstance(v, RecV):
                if s[1] not in v.f: raise Unsupported("field %s of %r" % (s[1], v.t))
                return v.f[s[1]]
            if isinstance(v, OpaqueV):
                if s[1] in v.d: return v.d[s[1]]
            if isinstance(v, RefV): return self.step_get(self.read(v.lv), s)
            raise Unsupported("field %s of %s" % (s[1], type(v).__name__))
        i = s[1]
        if isinstance(v, FixArr):
            c = cint(i)
            if c is not None:
                if not (0 <= c < len(v.e)): raise PathEnd()
                return v.e[c]
            r = v.e[-1]
            for j in range(len(v.e) - 2, -1, -1): r = merge_val(i == idx(j), v.e[j], r)
            return r
        if isinstance(v, DynArr): return v.get(i)
        if isinstance(v, z3.SeqRef): return z3.StrToCode(z3.SubString(v, z3.BV2Int(i), 1))
        c = cint(i)
        if c == 0: return v      # pointer to a single object
        raise Unsupported("index into %s" % type(v).__name__)
    def read(self, lv):
        v = lv.c.v
        for s in lv.p:
            v = self.step_get(v, s)
            if isinstance(v, RefV) : v = self.read(v.lv)
        if isinstance(v, RefV): v = self.read(v.lv)
        return v
    def write(self, lv, val):
        ctx = self.ctx
        if ctx.pure: raise Impure()
        ctx.writes += 1
        def setp(v, path):
            if isinstance(v, RefV): 
                self.write(LVal(v.lv.c, v.lv.p + tuple(path)), val); return v
            if not path: return val
            s = path[0]
            if s[0] == "f":
                if isinstance(v, RecV):
                    v.f[s[1]] = setp(v.f.get(s[1]), path[1:]); return v
                if isinstance(v, OpaqueV):
                    v.d[s[1]] = setp(v.d.get(s[1]), path[1:]); return v
                raise Unsupported("write field of %s" % type(v).__name__)
            i = s[1]
            if isinstance(v, FixArr):
                c = cint(i)
                if c is not None:
                    if not (0 <= c < len(v.e)): raise PathEnd()
                    v.e[c] = setp(v.e[c], path[1:])
                else:
                    for j in range(len(v.e)):
                        new = setp(copy_val(v.e[j]), path[1:])
                        v.e[j] = merge_val(i == idx(j), new, v.e[j])
                return v
            if isinstance(v, DynArr):
                el = setp(v.get(i), path[1:])
                v.put(i, el)
                return v
            if cint(i) == 0: return setp(v, path[1:])
            raise Unsupported("write index of %s" % type(v).__name__)
        lv.c.v = setp(lv.c.v, list(lv.p))
    def bounds(self, lv, node, what="array access in bounds"):
        """obligation for the last index step of lv"""
        if not lv.p or lv.p[-1][0] != "i": return
        cont = lv.c.v
        for s in lv.p[:-1]:
            cont = self.step_get(cont, s)
            if isinstance(cont, RefV): cont = self.read(cont.lv)
        i = lv.p[-1][1]
        if isinstance(cont, FixArr): self.ctx.oblige(what, z3.ULT(i, idx(len(cont.e))), "safety", node)
        elif isinstance(cont, DynArr):
            if cont.kind != "map": self.ctx.oblige(what, z3.And(z3.Not(cont.null), z3.ULT(i, cont.size)), "safety", node)
        elif isinstance(cont, z3.SeqRef): pass
        else: self.ctx.oblige(what, i == idx(0), "safety", node)
    # ------------------------------------------------------------------ frames
    @property
    def fr(self): return self.frames[-1]
    def lookup(self, did, node):
        f = self.fr
        if did in f["env"]: return f["env"][did]
        if did in self.globals: return self.globals[did]
        d = self.ast.nodes.get(did)
        if d is None: d = node.get("referencedDecl", {})
        k = d.get("kind")
        if k == "EnumConstantDecl": return self.enum_const(d)
        if k == "VarDecl":
            # constexpr / const static with initialiser
            ini = [c for c in d.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
            q = d.get("type", {}).get("qualType", "")
            if ini and ("const" in q or d.get("constexpr")):
                self.frames.append({"env": {}, "this": None, "fn": None})
                try: v = self.rv(ini[0])
                finally: self.frames.pop()
                c = Cell(v, d.get("name", "g")); self.globals[did] = LVal(c); return self.globals[did]
            # redeclared elsewhere
            for n in self.ast.nodes.values():
                if n.get("kind") == "VarDecl" and n.get("previousDecl") == did and n.get("inner"):
                    return self.lookup(n["id"], n)
            m = self.models.global_var(self, d)
            if m is not None: self.globals[did] = m; return m
        raise Unsupported("variable %s" % d.get("name"))
    def enum_const(self, d):
        # value: either explicit ConstantExpr or position
        p = self.ast.parent.get(d["id"])
        n = self.ast.nodes.get(d["id"], d)
        if p is None: p = self.ast.parent.get(n["id"])
        if p is None: raise Unsupported("enum constant " + str(d.get("name")))
        fx = p.get("fixedUnderlyingType", {})
        t = self.ast.parse(fx.get("desugaredQualType") or fx.get("qualType")) if fx else U32
        cur = -1
        for c in p["inner"]:
            if c.get("kind") != "EnumConstantDecl": continue
            cur += 1
            for e in c.get("inner", []):
                v = self.const_value(e)
                if v is not None: cur = v
            if c["id"] == d["id"]: return z3.BitVecVal(cur, t.bits)
        raise Unsupported("enum constant")
    def const_value(self, e):
        if "value" in e and e["kind"] in ("ConstantExpr", "IntegerLiteral"):
            return int(e["value"])
        for c in e.get("inner", []):
            v = self.const_value(c)
            if v is not None: return v if e.get("opcode") != "-" else -v
        return None
    # ------------------------------------------------------------------ expressions
    def ty(self, n): return self.ast.type_of(n)
    def rv(self, n):
        """value of expression (reads lvalues)"""
        v = self.ev(n)
        return self.val(v)
    def val(self, v):
        if isinstance(v, LVal): return copy_val(self.read(v))
        if isinstance(v, RefV): return copy_val(self.read(v.lv))
        return v
    def lv(self, n):
        v = self.ev(n)
        if isinstance(v, LVal): return v
        if isinstance(v, RefV): return v.lv
        return LVal(Cell(v, "tmp"))
    def ev(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported("expression %s line %s" % (k, loc_of(n)))
        return m(n)
    def inner(self, n): return [c for c in n.get("inner", []) if c]
    def e_ParenExpr(self, n): return self.ev(n["inner"][0])
    e_ExprWithCleanups = e_ParenExpr
    e_CXXBindTemporaryExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr_plain = e_ParenExpr
    e_ConstantExpr = e_ParenExpr
    def e_FullExpr(self, n): return self.ev(n["inner"][0])
    def e_SubstNonTypeTemplateParmExpr(self, n):
        nm = None
        for c in n.get("inner", []):
            if c.get("kind") == "NonTypeTemplateParmDecl": nm = c.get("name")
        if nm in self.symN:
            t = self.ty(n); v = self.symN[nm]
            return self.conv_int(v, IntT(v.size(), False), t)
        for c in n["inner"]:
            if c.get("kind") != "NonTypeTemplateParmDecl": return self.ev(c)
        raise Unsupported("subst parm")
    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n["inner"][0])
        if isinstance(v, (LVal, RefV)): v = self.val(v)
        return LVal(Cell(v, "tmp"))
    def e_IntegerLiteral(self, n):
        t = self.ty(n); return z3.BitVecVal(int(n["value"]), t.bits)
    def e_CharacterLiteral(self, n):
        t = self.ty(n); return z3.BitVecVal(int(n["value"]), t.bits)
    def e_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n["value"]))
    def e_CXXNullPtrLiteralExpr(self, n): return PtrV(None, z3.BoolVal(True))
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_FloatingLiteral(self, n): return frac(self.float_lit(n["value"], self.ty(n)))
    def float_lit(self, s, t):
        f = float(s)
        return f
    def e_StringLiteral(self, n):
        import ast as pyast
        s = n["value"]
        try: s = pyast.literal_eval(s)
        except Exception: s = s.strip('"')
        return OpaqueV(Type("strlit"), {"s": s})
    def e_CXXThisExpr(self, n):
        th = self.fr["this"]
        if th is None: raise Unsupported("no this")
        return PtrV(th, z3.BoolVal(False))
    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        k = d["kind"]
        if k in ("FunctionDecl", "CXXMethodDecl"): return FuncV(d)
        if k == "NonTypeTemplateParmDecl":
            raise Unsupported("unsubstituted template parameter")
        if k == "BindingDecl": raise Unsupported("structured binding")
        v = self.lookup(d["id"], n)
        return v
    def e_CXXDefaultArgExpr(self, n): raise Unsupported("default arg")
    def e_CXXDefaultInitExpr(self, n): raise Unsupported("default init")
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") == "sizeof":
            at = n.get("argType")
            t = self.ast.parse(at.get("desugaredQualType") or at["qualType"]) if at else self.ty(n["inner"][0])
            return z3.BitVecVal(self.sizeof(t), 64)
        raise Unsupported("trait")
    def sizeof(self, t):
        if t.k == "int": return t.bits // 8
        if t.k == "bool": return 1
        if t.k == "float": return {32: 4, 64: 8, 80: 16}[t.a[0]]
        if t.k == "ptr": return 8
        if t.k == "carr": return self.sizeof(t.a[0]) * t.a[1]
        if t.k == "rec" and t.a[0] == "std::array": return self.sizeof(t.a[1][0]) * t.a[1][1]
        if t.k == "rec" and t.a[0] == "std::atomic": return self.sizeof(t.a[1][0])
        raise Unsupported("sizeof %r" % t)
    # casts
    def conv_int(self, v, ft, tt):
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, tt.bits), z3.BitVecVal(0, tt.bits)) if not is_const(v) else z3.BitVecVal(1 if z3.is_true(v) else 0, tt.bits)
        if not z3.is_bv(v): raise Unsupported("integral cast of %s" % type(v).__name__)
        b = v.size()
        if b == tt.bits: return v
        if b > tt.bits: r = z3.Extract(tt.bits - 1, 0, v)
        else: r = z3.SignExt(tt.bits - b, v) if ft.signed else z3.ZeroExt(tt.bits - b, v)
        return simp(r) if is_const(v) else r
    def int_to_real(self, v, ft):
        if z3.is_bool(v): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if z3.is_bv_value(v):
            return z3.RealVal(v.as_signed_long() if ft.signed else v.as_long())
        if v.get_id() in self.intview: return z3.ToReal(self.intview[v.get_id()])
        if not ft.signed or True:
            n = z3.ZeroExt(128 - v.size(), v) if not ft.signed else None
            if n is not None: return FRatio(n, None)
        return z3.ToReal(z3.BV2Int(v, ft.signed))
    def real(self, v):
        if isinstance(v, FRatio):
            w = self._narrow(v.n)
            r = z3.ToReal(z3.BV2Int(w))
            if v.d is not None: r = r / z3.ToReal(z3.BV2Int(self._narrow(v.d)))
            return r
        return v
    def _narrow(self, t):
        return t.arg(0) if t.decl().kind() == z3.Z3_OP_ZERO_EXT else t
    def e_ImplicitCastExpr(self, n):
        return self.cast(n, n["castKind"], n["inner"][0])
    def e_CXXStaticCastExpr(self, n): return self.cast(n, n["castKind"], n["inner"][0])
    def e_CStyleCastExpr(self, n): return self.cast(n, n["castKind"], n["inner"][0])
    def e_CXXFunctionalCastExpr(self, n): return self.cast(n, n["castKind"], n["inner"][0])
    def e_CXXConstCastExpr(self, n): return self.cast(n, n["castKind"], n["inner"][0])
    def e_CXXReinterpretCastExpr(self, n): raise Unsupported("reinterpret_cast")
    def cast(self, n, ck, sub):
        if ck == "LValueToRValue":
            v = self.ev(sub)
            if isinstance(v, LVal):
                self.bounds_if_elem(v, sub)
            return self.val(v)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase") and self.to_vec_base(n):
            v = self.ev(sub)
            if isinstance(v, PtrV): return PtrV(v.lv.sub(("f", "__vec")), v.null, v.t)
            if isinstance(v, LVal):
                o = self.read(v)
                if isinstance(o, PtrV): return PtrV(o.lv.sub(("f", "__vec")), o.null, o.t)
                return v.sub(("f", "__vec"))
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "LValueBitCast"):
            return self.ev(sub)
        if ck == "ToVoid":
            self.ev(sub); return None
        tt = self.ty(n)
        if ck == "IntegralCast":
            v = self.rv(sub); return self.conv_int(v, self.int_ty(sub), tt)
        if ck == "IntegralToBoolean": return to_bool(self.rv(sub))
        if ck == "PointerToBoolean": return to_bool(self.rv(sub))
        if ck == "FloatingToBoolean": return self.real(self.rv(sub)) != 0
        if ck == "IntegralToFloating": return self.int_to_real(self.rv(sub), self.int_ty(sub))
        if ck == "FloatingCast": return self.rv(sub)
        if ck == "FloatingToIntegral": return self.models.float_to_int(self, self.real(self.rv(sub)), tt, n)
        if ck == "NullToPointer":
            return PtrV(None, z3.BoolVal(True), tt)
        if ck == "ArrayToPointerDecay":
            v = self.ev(sub)
            if isinstance(v, OpaqueV): return v
            if isinstance(v, LVal): return PtrV(v.sub(("i", idx(0))), z3.BoolVal(False), tt)
            raise Unsupported("decay")
        if ck == "BitCast": return self.ev(sub)
        if ck == "Dependent": raise Unsupported("dependent")
        raise Unsupported("cast " + ck)
    def to_vec_base(self, n):
        t = self.ty(n)
        while t.k in ("ptr", "ref"): t = t.a[0]
        return t.k == "rec" and t.a[0] == "std::vector"
    def int_ty(self, n):
        t = self.ty(n)
        while t.k == "ref": t = t.a[0]
        return t if t.is_int else IntT(8, False)
    def bounds_if_elem(self, lv, n): pass
    # operators
    def e_UnaryOperator(self, n):
        op = n["opcode"]; sub = n["inner"][0]
        if op in ("++", "--"):
            lv = self.lv(sub); old = self.val(lv)
            new = self.incdec(old, op, self.ty(sub), n)
            self.write(lv, new)
            return old if n.get("isPostfix") else lv
        if op == "!":
            return simp_not(to_bool(self.rv(sub)))
        if op == "-":
            v = self.rv(sub)
            if z3.is_bv(v):
                if self.ty(n).signed and self.check_overflow: self.ctx.oblige("signed negation does not overflow", z3.BVSNegNoOverflow(v), "safety", n)
                return self.s(-v)
            return self.fneg(self.real(v))
        if op == "+": return self.rv(sub)
        if op == "~": return self.s(~self.rv(sub))
        if op == "*":
            p = self.rv(sub)
            return self.deref(p, n)
        if op == "&":
            v = self.ev(sub)
            if isinstance(v, LVal): return PtrV(v, z3.BoolVal(False), self.ty(n))
            raise Unsupported("address of rvalue")
        raise Unsupported("unary " + op)
    def s(self, t):
        return simp(t) if all(is_const(c) for c in t.children()) else t
    def fneg(self, v): return -v
    def deref(self, p, n, what="dereferenced pointer is valid"):
        if isinstance(p, PtrV):
            if p.lv is None: 
                self.ctx.oblige(what, z3.BoolVal(False), "safety", n); raise PathEnd()
            self.ctx.oblige(what, z3.Not(p.null), "safety", n)
            self.bounds(p.lv, n)
            return p.lv
        raise Unsupported("deref %s" % type(p).__name__)
    def incdec(self, v, op, t, n):
        if isinstance(v, PtrV): return self.ptr_add(v, idx(1 if op == "++" else -1))
        if z3.is_bv(v):
            one = z3.BitVecVal(1, v.size())
            if t.is_int and t.signed and t.bits >= 32 and self.check_overflow:
                self.ctx.oblige("signed increment does not overflow", (v != z3.BitVecVal((1 << (t.bits-1)) - 1, t.bits)) if op == "++" else (v != z3.BitVecVal(1 << (t.bits-1), t.bits)), "safety", n)
            return self.s(v + one if op == "++" else v - one)
        v = self.real(v)
        return v + 1 if op == "++" else v - 1
    def ptr_add(self, p, i):
        if p.lv is None or not p.lv.p or p.lv.p[-1][0] != "i":
            if cint(i) == 0: return p
            if p.lv is not None: return PtrV(p.lv.sub(("i", i)), p.null, p.t)
            raise Unsupported("pointer arithmetic on scalar")
        lv = LVal(p.lv.c, p.lv.p[:-1] + (("i", self.s(p.lv.p[-1][1] + i)),))
        return PtrV(lv, p.null, p.t)
    def ptr_idx(self, p):
        if p.lv.p and p.lv.p[-1][0] == "i": return p.lv.p[-1][1]
        return idx(0)
    def same_base(self, a, b):
        if a.lv is None or b.lv is None: return False
        pa, pb = list(a.lv.p), list(b.lv.p)
        if pa and pa[-1][0] == "i" and pb and pb[-1][0] == "i": pa, pb = pa[:-1], pb[:-1]
        if a.lv.c is not b.lv.c or len(pa) != len(pb): return False
        for x, y in zip(pa, pb):
            if x[0] != y[0]: return False
            if x[0] == "f" and x[1] != y[1]: return False
            if x[0] == "i" and not z3.eq(simp(x[1]), simp(y[1])): return False
        return True
    def e_BinaryOperator(self, n):
        op = n["opcode"]; a, b = n["inner"][0], n["inner"][1]
        if op == ",":
            self.ev(a); return self.ev(b)
        if op == "=":
            # C++17: right operand first
            v = self.rv(b); lv = self.lv(a); self.bounds(lv, n, "array write in bounds"); self.write(lv, v); return lv
        if op in ("&&", "||"): return self.shortcircuit(op, a, b)
        x = self.rv(a); y = self.rv(b)
        return self.binop(op, x, y, self.ty(a), self.ty(b), n)
    def shortcircuit(self, op, a, b):
        x = to_bool(self.rv(a)); xs = simp(x) if not is_const(x) else x
        if z3.is_true(xs): return to_bool(self.rv(b)) if op == "&&" else z3.BoolVal(True)
        if z3.is_false(xs): return z3.BoolVal(False) if op == "&&" else to_bool(self.rv(b))
        cond = x if op == "&&" else z3.Not(x)
        r = self.try_pure(cond, lambda: to_bool(self.rv(b)))
        if r is not None: return z3.And(x, r) if op == "&&" else z3.Or(x, r)
        if self.ctx.branch(x): return to_bool(self.rv(b)) if op == "&&" else z3.BoolVal(True)
        return z3.BoolVal(False) if op == "&&" else to_bool(self.rv(b))
    def try_pure(self, cond, f):
        """evaluate f under cond without forking or writing; None if that is impossible"""
        ctx = self.ctx
        npc, nob, cnt, tr = len(ctx.pc), ctx.runner.mark(), dict(ctx.counter), ctx.runner.trivial
        ctx.pc.append(cond); ctx.pure += 1
        nfr = len(self.frames); dep = self.depth
        try:
            r = f()
            new = ctx.pc[npc + 1:]
            del ctx.pc[npc:]
            for h in new: ctx.pc.append(z3.Implies(cond, h))
            return r
        except (Impure, ThrowEx, PathEnd):
            del ctx.pc[npc:]; ctx.runner.rollback(nob); ctx.counter = cnt; ctx.runner.trivial = tr
            del self.frames[nfr:]; self.depth = dep
            return None
        finally:
            ctx.pure -= 1
    def binop(self, op, x, y, tx, ty, n):
        if isinstance(x, PtrV) or isinstance(y, PtrV): return self.ptr_binop(op, x, y, n)
        while tx.k == "ref": tx = tx.a[0]
        while ty.k == "ref": ty = ty.a[0]
        if isinstance(x, FRatio) or isinstance(y, FRatio) or (isinstance(x, z3.ExprRef) and z3.is_arith(x)) or (isinstance(y, z3.ExprRef) and z3.is_arith(y)):
            return self.fbinop(op, x, y, n)
        if z3.is_bool(x) and z3.is_bool(y):
            if op == "==": return self.s(x == y)
            if op == "!=": return self.s(z3.Xor(x, y))
            x = self.conv_int(x, BOOL, I32); y = self.conv_int(y, BOOL, I32); tx = ty = I32
        if isinstance(x, z3.SeqRef) or isinstance(y, z3.SeqRef):
            if op == "==": return x == y
            if op == "!=": return x != y
            raise Unsupported("string operator " + op)
        if isinstance(x, (RecV, FixArr)):
            if op == "==": return eq_val(x, y)
            if op == "!=": return z3.Not(eq_val(x, y))
            raise Unsupported("aggregate operator")
        if not (z3.is_bv(x) and z3.is_bv(y)): raise Unsupported("operands of %s" % op)
        if self.intview and op in ("==", "!=", "<", "<=", ">", ">=") and (x.get_id() in self.intview or y.get_id() in self.intview or self._iv(x) or self._iv(y)):
            sg = tx.is_int and tx.signed
            uv = lambda v: z3.IntVal(v.as_long()) if z3.is_bv_value(v) and not sg else self.int_of_bv(v, sg)
            a, b = uv(x), uv(y)
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        sg = tx.is_int and tx.signed
        if op in ("<<", ">>"):
            w = x.size()
            amt = y
            if y.size() < w: amt = z3.SignExt(w - y.size(), y) if ty.signed else z3.ZeroExt(w - y.size(), y)
            elif y.size() > w:
                self.ctx.oblige("shift amount below operand width", z3.ULT(y, z3.BitVecVal(w, y.size())), "safety", n)
                amt = z3.Extract(w - 1, 0, y)
            self.ctx.oblige("shift amount below operand width", z3.ULT(amt, z3.BitVecVal(w, w)), "safety", n)
            if op == "<<": return self.s(x << amt)
            return self.s((x >> amt) if sg else z3.LShR(x, amt))
        if x.size() != y.size(): raise Unsupported("width mismatch %s %d %d" % (op, x.size(), y.size()))
        if op in ("+", "-", "*") and sg and self.intview and self.check_overflow and not (z3.is_bv_value(x) and z3.is_bv_value(y)) and (x.get_id() in self.intview or y.get_id() in self.intview or self._iv(x) or self._iv(y)):
            I, J = self.int_of_bv(x, True), self.int_of_bv(y, True); K = {"+": I + J, "-": I - J, "*": I * J}[op]; h = 1 << (x.size() - 1)
            self.ctx.oblige("signed %s does not overflow" % op, z3.And(K >= -h, K < h), "safety", n)
            r = self.s({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]())
            self.intview[r.get_id()] = K; self._keep.append(r); return r
        if op in ("+", "-", "*"):
            if sg and self.check_overflow and not (z3.is_bv_value(x) and z3.is_bv_value(y)):
                if op == "+": g = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                elif op == "-": g = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                else: g = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                self.ctx.oblige("signed %s does not overflow" % op, g, "safety", n)
            r = self.s({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]())
            if self.intview and op in "+-" and not sg and x.size() == 64 and x.get_id() in self.intview and y.get_id() in self.intview:
                I, J = self.intview[x.get_id()], self.intview[y.get_id()]
                self.intview[r.get_id()] = z3.If(I >= J, I - J, I - J + (1 << 64)) if op == "-" else z3.If(I + J < 1 << 64, I + J, I + J - (1 << 64)); self._keep.append(r)
            elif self.intview and op in "+-" and not sg and x.size() == 64 and x.get_id() in self.intview and z3.is_bv_value(y):
                I = self.intview[x.get_id()]; c = y.as_long()
                if c < 1 << 32:
                    self.intview[r.get_id()] = I + c if op == "+" else z3.If(I >= c, I - c, I - c + (1 << 64)); self._keep.append(r)
            return r
        if op in ("/", "%"):
            self.ctx.oblige("divisor is not zero", y != 0, "safety", n)
            if op == "/": return self.s(x / y if sg else z3.UDiv(x, y))
            return self.s(z3.SRem(x, y) if sg else z3.URem(x, y))
        f = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "==": lambda: x == y, "!=": lambda: x != y,
             "<": lambda: x < y if sg else z3.ULT(x, y), "<=": lambda: x <= y if sg else z3.ULE(x, y),
             ">": lambda: x > y if sg else z3.UGT(x, y), ">=": lambda: x >= y if sg else z3.UGE(x, y)}.get(op)
        if f is None: raise Unsupported("operator " + op)
        return self.s(f())
    def fbinop(self, op, x, y, n):
        if op == "/" and isinstance(x, FRatio) and isinstance(y, FRatio) and x.d is None and y.d is None:
            return FRatio(x.n, y.n)
        if op in ("<", "<=", ">", ">=", "==", "!=") and (isinstance(x, FRatio) or isinstance(y, FRatio)):
            r = self.ratio_cmp(op, x, y)
            if r is not None: return r
        x = self.real(x); y = self.real(y)
        if op in ("+", "-", "*", "/"): return self.farith(op, x, y, n)
        return self.s({"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]())
    def farith(self, op, x, y, n):
        if op == "/":
            self.ctx.oblige("floating divisor is not zero", y != 0, "safety", n)
            return x / y
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]()
    def ratio_cmp(self, op, x, y):
        """n/d  op  p/q with words below 2^53 (assumed): exact integer comparison"""
        def nd(v):
            if isinstance(v, FRatio): return v.n, (v.d if v.d is not None else z3.BitVecVal(1, 128))
            v = z3.simplify(v)
            if z3.is_rational_value(v):
                nn, dd = v.numerator_as_long(), v.denominator_as_long()
                if 0 <= nn < 1 << 20 and dd < 1 << 20: return z3.BitVecVal(nn, 128), z3.BitVecVal(dd, 128)
            return None
        a, b = nd(x), nd(y)
        if a is None or b is None: return None
        self.ctx.runner.note("element counts below 2^53, so that the double quotient of two counts compares like the exact quotient")
        l, r = a[0] * b[1], b[0] * a[1]
        if z3.is_bv_value(a[1]) and a[1].as_long() == 1: r = b[0]
        return {"<": z3.ULT(l, r), "<=": z3.ULE(l, r), ">": z3.UGT(l, r), ">=": z3.UGE(l, r), "==": l == r, "!=": l != r}[op]
    def ptr_binop(self, op, x, y, n):
        if op in ("==", "!="):
            if isinstance(x, PtrV) and isinstance(y, PtrV):
                if x.lv is None or y.lv is None:
                    p = y if x.lv is None else x
                    r = p.null if p.lv is not None else z3.BoolVal(True)
                elif self.same_base(x, y): r = self.s(self.ptr_idx(x) == self.ptr_idx(y))
                else: raise Unsupported("comparison of unrelated pointers")
                return r if op == "==" else simp_not(r)
            if isinstance(x, DynArr) or isinstance(y, DynArr):
                d = x if isinstance(x, DynArr) else y
                return d.null if op == "==" else z3.Not(d.null)
        if op in ("+", "-"):
            if isinstance(x, PtrV) and isinstance(y, PtrV) and op == "-":
                if self.same_base(x, y): return self.s(self.ptr_idx(x) - self.ptr_idx(y))
                raise Unsupported("difference of unrelated pointers")
            p, i = (x, y) if isinstance(x, PtrV) else (y, x)
            t = self.ty(n["inner"][1 if isinstance(x, PtrV) else 0]) if "inner" in n and n["kind"] == "BinaryOperator" else I64
            i = self.conv_int(i, t if t.is_int else I64, I64)
            return self.ptr_add(p, self.s(-i) if op == "-" else i)
        if op in ("<", "<=", ">", ">=") and isinstance(x, PtrV) and isinstance(y, PtrV) and self.same_base(x, y):
            a, b = self.ptr_idx(x), self.ptr_idx(y)
            return self.s({"<": z3.ULT(a, b), "<=": z3.ULE(a, b), ">": z3.UGT(a, b), ">=": z3.UGE(a, b)}[op])
        raise Unsupported("pointer operator " + op)
    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]; a, b = n["inner"][0], n["inner"][1]
        y = self.rv(b)
        lv = self.lv(a); self.bounds(lv, n, "array access in bounds"); x = self.val(lv)
        ta = self.ty(a)
        while ta.k == "ref": ta = ta.a[0]
        cl = n.get("computeLHSType"); 
        ct = self.ast.parse(cl.get("desugaredQualType") or cl["qualType"]) if cl else ta
        cr = n.get("computeResultType"); rt = self.ast.parse(cr.get("desugaredQualType") or cr["qualType"]) if cr else ct
        if isinstance(x, PtrV):
            r = self.ptr_binop(op, x, y, {"kind": "x"}) if False else self.ptr_add(x, self.conv_int(self.s(-y) if op == "-" else y, self.int_ty(b), I64))
            self.write(lv, r); return lv
        if ct.k == "float" and (z3.is_bv(x) if isinstance(x, z3.ExprRef) else False): x = self.int_to_real(x, ta)
        elif ct.is_int and isinstance(x, z3.ExprRef) and (z3.is_bv(x) or z3.is_bool(x)): x = self.conv_int(x, ta if ta.is_int else IntT(8, False), ct)
        if op in ("<<", ">>"): r = self.binop(op, x, y, ct, self.ty(b), n)
        else: r = self.binop(op, x, y, ct, ct if ct.is_int else self.ty(b), n)
        if ta.is_int:
            if z3.is_bv(r): r = self.conv_int(r, rt, ta)
            else: r = self.models.float_to_int(self, self.real(r), ta, n)
        elif ta.k == "bool": r = to_bool(r)
        self.write(lv, r)
        return lv
    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        x = to_bool(self.rv(c)); xs = simp(x) if not is_const(x) else x
        if z3.is_true(xs): return self.ev(a)
        if z3.is_false(xs): return self.ev(b)
        if a.get("kind") not in ("CXXThrowExpr",) and b.get("kind") not in ("CXXThrowExpr",):
            va = self.try_pure(x, lambda: self.rv(a))
            if va is not None and not isinstance(va, (Closure, FRatio, OpaqueV)):
                vb = self.try_pure(z3.Not(x), lambda: self.rv(b))
                if vb is not None:
                    try:
                        r = merge_val(x, va, vb); self.merged_view(x, r, va, vb); return r
                    except Unsupported: pass
        if self.ctx.branch(x): return self.ev(a)
        return self.ev(b)
    def e_ArraySubscriptExpr(self, n):
        a, b = n["inner"]
        p = self.rv(a); i = self.rv(b)
        if not isinstance(p, PtrV): p, i = i, p
        if isinstance(p, OpaqueV): raise Unsupported("subscript of opaque")
        it = self.int_ty(b)
        q = self.ptr_add(p, self.conv_int(i, it, I64))
        return self.deref(q, n, "subscripted pointer is valid")
    def e_MemberExpr(self, n):
        sub = n["inner"][0]
        name = n.get("name")
        rd = n.get("referencedMemberDecl")
        d = self.ast.nodes.get(rd, {})
        if d.get("kind") in ("CXXMethodDecl", "CXXConversionDecl"): raise Unsupported("method value")
        if d.get("kind") == "VarDecl": return self.lookup(rd, d)   # static member
        if n.get("isArrow"):
            p = self.ev(sub)
            p0 = p
            if isinstance(p, LVal): p = self.val(p)
            lv = p0 if isinstance(p, RecV) and isinstance(p0, LVal) else self.ptr_like_deref(p, n)   # record: an overloaded operator-> has been applied already
        else:
            lv = self.ev(sub)
            if not isinstance(lv, LVal): lv = LVal(Cell(lv, "tmp"))
        r = lv.sub(("f", name))
        try: cur = self.peek(r)
        except Unsupported: cur = None
        if isinstance(cur, RefV): return cur.lv
        return r
    def ptr_like_deref(self, p, n):
        return self.deref(p, n)
    def peek(self, lv):
        v = lv.c.v
        for s in lv.p:
            if isinstance(v, RefV): v = self.read(v.lv)
            v = self.step_get(v, s)
        return v
    def e_CXXThrowExpr(self, n):
        t = self.ty(n["inner"][0]) if n.get("inner") else None
        if self.ctx.pure: raise Impure()
        raise ThrowEx(t, n)
    def e_InitListExpr(self, n):
        t = self.ty(n)
        xs = self.inner(n)
        if t.k == "carr":
            e = [self.rv(x) for x in xs]
            fill = n.get("array_filler")
            while len(e) < t.a[1]: e.append(self.zero_val(t.a[0]))
            return FixArr(t.a[0], e)
        if t.k == "rec" and t.a[0] == "std::array":
            if len(xs) == 1 and xs[0]["kind"] == "InitListExpr": 
                v = self.rv(xs[0]); return FixArr(t.a[1][0], v.e)
            e = [self.rv(x) for x in xs]
            while len(e) < t.a[1][1]: e.append(self.zero_val(t.a[1][0]))
            return FixArr(t.a[1][0], e)
        if t.k == "rec":
            c = self.ast.find_class(t)
            if c is not None:
                fs = self.ast.fields(c); r = RecV(t, {})
                for (fn, ft, nd), x in zip(fs, xs):
                    if x["kind"] == "CXXDefaultInitExpr": r.f[fn] = self.default_field(ft, nd)
                    else: r.f[fn] = self.rv(x)
                for fn, ft, nd in fs[len(xs):]: r.f[fn] = self.default_field(ft, nd, zero=True)
                return r
        if t.is_int or t.k in ("bool", "float", "ptr"):
            return self.rv(xs[0]) if xs else self.zero_val(t)
        return self.models.init_list(self, t, [self.rv(x) for x in xs], n)
    def e_ImplicitValueInitExpr(self, n): return self.zero_val(self.ty(n))
    def e_CXXScalarValueInitExpr(self, n): return self.zero_val(self.ty(n))
    def e_CXXStdInitializerListExpr(self, n): return self.ev(n["inner"][0])
    def default_field(self, ft, nd, zero=False):
        ini = [c for c in nd.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups"))]
        if nd.get("hasInClassInitializer") and ini:
            v = self.rv(ini[0])
            return v
        if zero: return self.zero_val(ft)
        return self.default_val(ft, nd.get("name", "f"))
    def default_val(self, t, name):
        """default-initialised object"""
        if t.k == "rec":
            n, a = t.a
            if n in ("std::vector", "tbb::concurrent_vector", "tbb::detail::d1::concurrent_vector", "std::unique_ptr"): return self.empty_dyn(t)
            if n == "std::string": return z3.StringVal("")
            c = self.ast.find_class(t)
            if c is not None: return self.construct(t, [], None, name)
            if n in ("std::array",): return FixArr(a[0], [self.default_val(a[0], "%s[%d]" % (name, i)) for i in range(a[1])])
            r = self.models.default_obj(self, t, name)
            if r is not None: return r
        return self.fresh_val(t, name + ".uninit")
    # construction
    def e_CXXConstructExpr(self, n):
        t = self.ty(n)
        while t.k == "ref": t = t.a[0]
        args = self.inner(n)
        ct = n.get("ctorType", {}).get("qualType", "")
        if t.k == "carr":
            et = t.a[0]
            return FixArr(et, [self.default_val(et, "el") for _ in range(t.a[1])])
        # elidable / copy / move
        if len(args) == 1 and (n.get("elidable") or self.is_copy_ctor(ct, t)):
            c = self.ast.find_class(t)
            user = self.user_ctor(c, n) if c is not None and not n.get("elidable") else None
            if user is None:
                v = self.ev(args[0])
                if isinstance(v, LVal):
                    val = copy_val(self.read(v))
                    if "&&" in ct: self.moved_from(v, t)
                    return val
                return v
        return self.construct(t, args, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def moved_from(self, lv, t):
        """library moves leave the source empty; records move memberwise"""
        v = self.read(lv)
        def go(v, l):
            if isinstance(v, DynArr):
                d = DynArr(v.et, v.proto, list(v.arrs), idx(0) if v.kind == "vec" else v.size, z3.BoolVal(v.kind != "vec"), v.kind)
                self.write(l, d)
            elif isinstance(v, RecV):
                for k in list(v.f): go(v.f[k], l.sub(("f", k)))
        go(v, lv)
    def is_copy_ctor(self, ct, t):
        m = re.match(r"^void \((.*)\)( noexcept.*)?$", ct)
        if not m: return False
        p = m.group(1)
        if "&" not in p: return False
        try: pt = self.ast.parse(p)
        except Unsupported: return False
        while pt.k == "ref": pt = pt.a[0]
        return pt == t
    def user_ctor(self, c, n):
        ct = self.norm_sig(n.get("ctorType", {}).get("qualType", ""))
        cs = [c] + [x for _, x in self.ast.classes.get(c.get("name"), []) if x is not c and x["kind"] == c["kind"]]     # (types that differ in const only are one Type)
        for m in (m for x in cs for m in self.ast.ctors(x)):
            if self.norm_sig(m["type"]["qualType"]) == ct:
                d = self.ast.defs.get(m["id"])
                if d is None and m.get("explicitlyDefaulted"): return None
                return d
        return None
    def norm_sig(self, s):
        s = re.sub(r"\s*noexcept(\(.*\))?$", "", s)
        return s.replace(" ", "")
    def construct(self, t, args, n, name="obj"):
        if t.k != "rec":
            if not args: return self.zero_val(t)
            return self.rv(args[0])
        c = self.ast.find_class(t)
        if c is None or t.a[0].startswith("std::"):
            return self.models.construct(self, t, args, n)
        h = self.ctx.runner.default_objs.get(t.a[0])
        if h and not args: return h(self, t)
        cell = Cell(RecV(t, {}), name, t)
        this = LVal(cell)
        ctor = None
        if n is not None: ctor = self.user_ctor(c, n)
        else:
            for m in self.ast.ctors(c):
                ps = self.ast.params(m)
                if not m.get("isImplicit") and len([p for p in ps if not p.get("init")]) == 0:
                    ctor = self.ast.defs.get(m["id"], None)
                    if ctor is not None: break
        if ctor is None:
            if args and n is not None and n.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): raise Unsupported("constructor of %r" % t)
            for fn, ft, nd in self.ast.fields(c):
                cell.v.f[fn] = self.default_field(ft, nd, zero=bool(n and n.get("zeroing")))
            return cell.v
        vals = self.bind_args(ctor, args)
        self.run_ctor(ctor, c, this, vals)
        return cell.v
    def run_ctor(self, ctor, c, this, vals):
        con = self.contracts.get(ctor["id"]) if self.contracts else None
        if con is not None and not self.is_entry(ctor):
            return con.apply(self, this, vals, ctor)
        return self.exec_ctor(ctor, c, this, vals)
    def is_entry(self, f): return self.entry_fn is not None and f["id"] == self.entry_fn["id"] and self.depth == 0
    def exec_ctor(self, ctor, c, this, vals):
        self.push(ctor, this, vals)
        try:
            inits = [x for x in ctor.get("inner", []) if x.get("kind") == "CXXCtorInitializer"]
            done = set()
            rec = self.read(this)
            for x in inits:
                e = x["inner"][0] if x.get("inner") else None
                if "anyInit" in x:
                    fn = x["anyInit"]["name"]; done.add(fn)
                    ft = None
                    for f2, t2, nd2 in self.ast.fields(c):
                        if f2 == fn: ft, nd = t2, nd2
                    if ft.k == "ref":
                        self.read(this).f[fn] = RefV(self.lv(e)); continue
                    if e["kind"] == "CXXDefaultInitExpr": v = self.default_field(ft, nd)
                    else: v = self.rv(e)
                    v = self.adapt(v, ft)
                    self.read(this).f[fn] = v
                elif "baseInit" in x:
                    bt = self.ast.parse(x["baseInit"].get("desugaredQualType") or x["baseInit"]["qualType"])
                    bc = self.ast.find_class(bt)
                    if bc is None:
                        if bt.k == "rec" and bt.a[0] == "std::vector": self.read(this).f["__vec"] = self.rv(e); done.add("__vec")
                        continue
                    v = self.rv(e)
                    self.read(this).f.update(v.f); done.update(v.f.keys())
                elif "delegatingInit" in x:
                    v = self.rv(e)
                    self.read(this).f.update(v.f); done.update(v.f.keys())
                else: raise Unsupported("ctor initializer")
            for fn, ft, nd in self.ast.fields(c):
                if fn not in self.read(this).f: self.read(this).f[fn] = self.default_field(ft, nd)
            rv = self.read(this)
            if isinstance(rv, RecV):
                old = dict(rv.f); rv.f.clear()
                for fn, _, _ in self.ast.fields(c):
                    if fn in old: rv.f[fn] = old.pop(fn)
                rv.f.update(old)
            b = self.ast.body(ctor)
            if b is not None:
                try: self.st(b)
                except ReturnEx: pass
        finally: self.pop()
    def adapt(self, v, t):
        """pointer handed to an owning pointer etc."""
        if t.k == "rec" and t.a[0] == "std::unique_ptr" and isinstance(v, PtrV):
            return self.models.own(self, v, t)
        return v
    def e_CXXNewExpr(self, n):
        t = self.ty(n)  # pointer type
        et = t.a[0]
        if n.get("isArray"):
            xs = self.inner(n)
            size = self.rv(xs[0]); st = self.int_ty(xs[0])
            size = self.conv_int(size, st, U64)
            zero = n.get("initStyle") in ("call", "list") 
            d = self.new_array(et, size, zero)
            if not zero and et.k == "rec" and self.ast.find_class(et) is not None: pass
            c = Cell(d, "heap")
            return PtrV(LVal(c).sub(("i", idx(0))), z3.BoolVal(False), t)
        xs = self.inner(n)
        v = self.rv(xs[0]) if xs else self.default_val(et, "new")
        return PtrV(LVal(Cell(v, "heap")), z3.BoolVal(False), t)
    def e_LambdaExpr(self, n):
        env = dict(self.fr["env"])
        # by-copy captures
        rec = next((c for c in n["inner"] if c.get("kind") == "CXXRecordDecl"), None)
        flds = [c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl"] if rec else []
        caps = [c for c in n["inner"] if c.get("kind") not in ("CXXRecordDecl", "CompoundStmt")]
        for f, c in zip(flds, caps):
            ft = self.ast.type_of(f)
            if ft.k not in ("ref",) and ft.k != "ptr":
                x = c
                while x.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"): 
                    if not x.get("inner"): break
                    x = x["inner"][0]
                if x.get("kind") == "DeclRefExpr":
                    did = x["referencedDecl"]["id"]
                    if did in env: env[did] = LVal(Cell(self.val(env[did]), x["referencedDecl"]["name"]))
        cl = Closure(n, env, self.fr["this"]); cl.rec = rec
        return cl
    # ------------------------------------------------------------------ calls
    def callee_decl(self, n):
        c = n["inner"][0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
        return c
    def e_CallExpr(self, n):
        c = self.callee_decl(n)
        args = n["inner"][1:]
        if c["kind"] == "DeclRefExpr":
            d = c["referencedDecl"]
            if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return self.call_decl(d["id"], d.get("name"), None, args, n)
            if d["kind"] in ("VarDecl", "ParmVarDecl"):
                f = self.rv(c)
                if isinstance(f, Closure): return self.call_closure(f, args, n)
        if c["kind"] == "MemberExpr":
            # static member function through object or function pointer member
            rd = c.get("referencedMemberDecl"); d = self.ast.nodes.get(rd)
            if d is not None and d["kind"] == "CXXMethodDecl": return self.call_decl(rd, d["name"], None, args, n)
        raise Unsupported("call of %s line %s" % (c["kind"], loc_of(n)))
    def e_CXXMemberCallExpr(self, n):
        m = n["inner"][0]
        while m["kind"] in ("ParenExpr", "ImplicitCastExpr"): m = m["inner"][0]
        if m["kind"] != "MemberExpr": raise Unsupported("member call via %s" % m["kind"])
        args = n["inner"][1:]
        obj = m["inner"][0]
        rd = m.get("referencedMemberDecl")
        o = self.ev(obj)
        if m.get("isArrow"):
            if isinstance(o, LVal): o = self.val(o) if isinstance(self.read(o), PtrV) else o
            if isinstance(o, PtrV): this = self.deref(o, n)
            else: this = self.models.arrow(self, o, n)
        else:
            this = o if isinstance(o, LVal) else LVal(Cell(o, "tmp"))
        f = self.ast.definition(rd)
        if f is None and rd in self.ast.nodes: f = self.virtual_or_inst(rd, this, m)
        if f is not None:
            f = self.dispatch(f, this)
            vals = self.bind_args(f, args)
            return self.call(f, this, vals, n)
        ot = self.ty(obj)
        if m.get("isArrow"): 
            ot = ot.a[0] if ot.k == "ptr" else ot
        return self.models.method(self, ot, m.get("name"), this, args, n)
    def virtual_or_inst(self, rd, this, m):
        v = self.read(this)
        if isinstance(v, RecV):
            c = self.ast.find_class(v.t)
            if c is not None:
                np = len(self.ast.params(self.ast.nodes[rd]))
                for x in self.ast.methods(c, m.get("name")):
                    if self.ast.body(x) is not None and len(self.ast.params(x)) == np and x["type"]["qualType"] == self.ast.nodes[rd]["type"]["qualType"]: return x
        return None
    def dispatch(self, f, this):
        if f.get("virtual"):
            v = self.read(this)
            if isinstance(v, RecV):
                c = self.ast.find_class(v.t)
                if c is not None:
                    for x in self.ast.methods(c, f["name"]):
                        if self.ast.body(x) is not None and x["type"]["qualType"] == f["type"]["qualType"]: return x
        return f
    def e_CXXOperatorCallExpr(self, n):
        c = self.callee_decl(n)
        args = n["inner"][1:]
        d = c.get("referencedDecl", {})
        op = d.get("name", "")
        f = self.ast.definition(d.get("id"))
        if d.get("kind") == "CXXMethodDecl":
            a0 = self.ev(args[0])
            v0 = self.read(a0) if isinstance(a0, LVal) else a0
            if isinstance(v0, Closure): return self.call_closure(v0, args[1:], n, d)
            if f is not None:
                this = a0 if isinstance(a0, LVal) else LVal(Cell(a0, "tmp"))
                f = self.dispatch(f, this)
                return self.call(f, this, self.bind_args(f, args[1:]), n)
            this = a0 if isinstance(a0, LVal) else LVal(Cell(a0, "tmp"))
            dd = self.ast.nodes.get(d.get("id"))
            if dd is not None and op == "operator=" and isinstance(v0, RecV):
                # implicit (memberwise) assignment
                b = self.ev(args[1]); val = self.val(b)
                self.write(this, val)
                if "&&" in dd["type"]["qualType"] and isinstance(b, LVal): self.moved_from(b, v0.t)
                return this
            return self.models.op_method(self, op, this, args[1:], n)
        if f is not None:
            return self.call(f, None, self.bind_args(f, args), n)
        return self.models.op_free(self, op, args, n)
    def call_decl(self, did, name, this, args, n):
        f = self.ast.definition(did)
        if f is not None:
            vals = self.bind_args(f, args)
            if f["kind"] == "CXXMethodDecl" and f.get("storageClass") != "static":
                this = self.fr["this"]
            return self.call(f, this, vals, n)
        return self.models.free(self, name, args, n, did)
    def bind_args(self, f, args):
        ps = self.ast.params(f)
        out = []
        for i, p in enumerate(ps):
            pt = self.ast.type_of(p)
            if i < len(args) and args[i]["kind"] != "CXXDefaultArgExpr":
                a = args[i]
                if pt.k == "ref":
                    v = self.ev(a)
                    if isinstance(v, RefV): v = v.lv
                    if not isinstance(v, LVal): v = LVal(Cell(v, p.get("name", "tmp")))
                    out.append(v)
                else:
                    v = self.rv(a)
                    out.append(LVal(Cell(v, p.get("name", "p"), pt)))
            else:
                out.append(self.default_arg(f, p, pt))
        return out
    def default_arg(self, f, p, pt):
        q = p
        ini = [c for c in p.get("inner", []) if "kind" in c and not c["kind"].endswith(("Attr", "Decl", "Comment"))]
        if not ini:
            # look at the template pattern or an earlier declaration
            for g in self.ast.funcs:
                if g.get("name") == f.get("name") and g is not f:
                    for pp in self.ast.params(g):
                        if pp.get("name") == p.get("name"):
                            ini2 = [c for c in pp.get("inner", []) if "kind" in c and not c["kind"].endswith(("Attr", "Decl", "Comment"))]
                            if ini2 and (self.ast.type_of(pp) == pt): ini = ini2
                    if ini: break
        if not ini: raise Unsupported("default argument of %s" % f.get("name"))
        self.frames.append({"env": {}, "this": self.frames[-1]["this"] if self.frames else None, "fn": None})
        try: v = self.rv(ini[0])
        finally: self.frames.pop()
        return LVal(Cell(v, p.get("name", "p"), pt))
    def push(self, f, this, vals):
        env = {}
        for p, v in zip(self.ast.params(f), vals):
            env[p["id"]] = v
        self.frames.append({"env": env, "this": this, "fn": f, "names": {}})
        for p, v in zip(self.ast.params(f), vals):
            if p.get("name"): self.fr["names"][p["name"]] = v
        self.depth += 1
        if self.depth > 60: raise Unsupported("recursion")
    def pop(self):
        self.frames.pop(); self.depth -= 1
    def call(self, f, this, vals, n):
        con = self.contracts.get(f["id"]) if self.contracts else None
        if con is not None:
            return con.apply(self, this, vals, f, n)
        return self.exec_fn(f, this, vals)
    def exec_fn(self, f, this, vals):
        rt = self.ret_type(f)
        self.push(f, this, vals)
        try:
            self.st(self.ast.body(f))
            r = None
        except ReturnEx as e: r = e.v
        finally: self.pop()
        if rt is not None and rt.k != "ref" and isinstance(r, LVal): r = self.val(r)
        return r
    def ret_type(self, f):
        q = f["type"].get("desugaredQualType") or f["type"]["qualType"]
        # text before the parameter list
        d = 0
        for i in range(len(q)):
            ch = q[i]
            if ch in "<": d += 1
            elif ch == ">": d -= 1
            elif ch == "(" and d == 0: break
        try: return self.ast.parse(q[:i].strip()) if q[:i].strip() not in ("auto", "") else AUTO
        except Unsupported: return None
    def call_closure(self, cl, args, n, d=None):
        if isinstance(cl, OpaqueV) and cl.t.k == "rec" and cl.t.a[0] in self.models.STDOPS and len(args) == 2:
            et = cl.t.a[1][0] if cl.t.a[1] else None
            if et is None or et == VOID: raise Unsupported("transparent function object")
            x, y = [self.val(a) if isinstance(a, LVal) else self.rv(a) if isinstance(a, dict) else a for a in args]
            return self.binop(self.models.STDOPS[cl.t.a[0]], x, y, et, et, n)
        rec = cl.rec
        ops = []
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()": ops.append(c)
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                ops += [x for x in c["inner"] if x.get("kind") == "CXXMethodDecl" and any(y.get("kind") == "TemplateArgument" for y in x.get("inner", []))]
        f = None
        if d is not None:
            for o in ops:
                if o["id"] == d["id"]: f = o
        if f is None:
            ops = [o for o in ops if self.ast.body(o) is not None]
            if not ops: raise Unsupported("lambda body")
            f = ops[0]
        ps = self.ast.params(f)
        vals = []
        for p, a in zip(ps, args):
            pt = self.ast.type_of(p)
            if isinstance(a, dict):
                v = self.ev(a) if pt.k == "ref" else self.rv(a)
            else: v = a
            if pt.k == "ref" and not isinstance(v, LVal): v = LVal(Cell(v, "a"))
            elif pt.k != "ref":
                v = LVal(Cell(self.val(v), p.get("name", "a")))
            vals.append(v)
        env = dict(cl.env)
        for p, v in zip(ps, vals): env[p["id"]] = v
        names = {}
        if self.frames: names.update(self.fr.get("names", {}))
        for p, v in zip(ps, vals): names[p.get("name")] = v
        self.frames.append({"env": env, "this": cl.this, "fn": f, "names": names}); self.depth += 1
        rt = self.ret_type(f)
        try:
            self.st(self.ast.body(f)); r = None
        except ReturnEx as e: r = e.v
        finally: self.pop()
        if isinstance(r, LVal) and (rt is None or rt.k != "ref"): r = self.val(r)
        return r
    # ------------------------------------------------------------------ statements
    def st(self, n):
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None: return m(n)
        if k.endswith(("Expr", "Operator", "Literal", "Cleanups")):
            self.ev(n); return
        raise Unsupported("statement %s line %s" % (k, loc_of(n)))
    def s_CompoundStmt(self, n):
        for c in self.inner(n): self.st(c)
    def s_NullStmt(self, n): pass
    def s_AttributedStmt(self, n): self.st(n["inner"][-1])
    def s_DeclStmt(self, n):
        for d in self.inner(n):
            if d["kind"] in ("StaticAssertDecl", "TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "CXXRecordDecl", "EmptyDecl"): continue
            if d["kind"] != "VarDecl": raise Unsupported("declaration " + d["kind"])
            self.decl_var(d)
    def decl_var(self, d):
        t = self.ast.type_of(d)
        ini = [c for c in d.get("inner", []) if "kind" in c and not c["kind"].endswith(("Attr", "Comment"))]
        name = d.get("name", "v")
        if d.get("storageClass") == "static" and not ("const" in d["type"]["qualType"]): raise Unsupported("static local")
        if t.k == "ref":
            v = self.ev(ini[0])
            if isinstance(v, RefV): v = v.lv
            if not isinstance(v, LVal): v = LVal(Cell(v, name))
        else:
            if ini:
                try: v = self.adapt(self.rv(ini[0]), t)
                except Unsupported:
                    # a constant of the library used only as a template argument; any use of the variable is refused again
                    if d.get("constexpr") and not d.get("isUsed"): return
                    raise
                if t.k == "rec" and isinstance(v, PtrV) and False: pass
            else: v = self.default_val(t, name)
            v = LVal(Cell(v, name, t))
        self.fr["env"][d["id"]] = v
        self.fr.setdefault("names", {})[name] = v
    def s_ReturnStmt(self, n):
        xs = self.inner(n)
        if not xs: raise ReturnEx(None)
        v = self.ev(xs[0])
        f = self.fr["fn"]
        rt = self.ret_type(f) if f is not None else None
        if isinstance(v, LVal) and rt is not None and rt.k != "ref": v = self.val(v)
        raise ReturnEx(v)
    def s_IfStmt(self, n):
        xs = [c for c in n["inner"] if c]
        i = 0
        if n.get("hasInit"): self.st(xs[i]); i += 1
        if n.get("hasVar"): self.st(xs[i]); i += 1
        cond = xs[i]; then = xs[i+1]; els = xs[i+2] if n.get("hasElse") else None
        if self.ctx.branch(to_bool(self.rv(cond))): self.st(then)
        elif els is not None: self.st(els)
    def s_BreakStmt(self, n): raise BreakEx()
    def s_ContinueStmt(self, n): raise ContinueEx()
    def s_SwitchStmt(self, n):
        xs = [c for c in n["inner"] if c]
        v = self.rv(xs[0]); body = xs[-1]
        t = self.int_ty(xs[0])
        flat = []   # (kind, label value, stmt)
        def flatten(s):
            if s["kind"] == "CaseStmt":
                cv = self.rv(s["inner"][0])
                flat.append(("case", cv, None)); flatten(s["inner"][-1])
            elif s["kind"] == "DefaultStmt":
                flat.append(("default", None, None)); flatten(s["inner"][-1])
            else: flat.append(("s", None, s))
        for s in self.inner(body): flatten(s)
        start = None
        for i, (k, cv, s) in enumerate(flat):
            if k == "case":
                if self.ctx.branch(v == cv): start = i; break
        if start is None:
            for i, (k, cv, s) in enumerate(flat):
                if k == "default": start = i
        if start is None: return
        try:
            for k, cv, s in flat[start:]:
                if k == "s": self.st(s)
        except BreakEx: pass
    def s_CXXTryStmt(self, n):
        xs = self.inner(n)
        try: self.st(xs[0])
        except ThrowEx as e:
            for h in xs[1:]:
                hx = self.inner(h)
                if len(hx) == 1 or hx[0]["kind"] != "VarDecl":
                    self.st(hx[-1]); return
                ht = self.ast.type_of(hx[0])
                while ht.k == "ref": ht = ht.a[0]
                if self.exc_match(e.t, ht):
                    self.fr["env"][hx[0]["id"]] = LVal(Cell(OpaqueV(ht), "exc"))
                    self.st(hx[-1]); return
            raise
    def exc_match(self, t, ht):
        if t == ht: return True
        base = {"std::out_of_range": ["std::logic_error", "std::exception"], "std::exception": []}
        return ht.k == "rec" and t is not None and t.k == "rec" and ht.a[0] in base.get(t.a[0], ["std::exception"])
    # loops
    def s_ForStmt(self, n):
        ini, var, cond, inc, body = [n["inner"][i] for i in range(5)]
        if ini: self.st(ini)
        self.loop(n, cond or None, inc or None, body)
    def s_WhileStmt(self, n):
        xs = [c for c in n["inner"] if c]
        if n.get("hasVar"): raise Unsupported("while with declaration")
        self.loop(n, xs[0], None, xs[1])
    def s_DoStmt(self, n):
        body, cond = n["inner"][0], n["inner"][1]
        self.loop(n, cond, None, body, do=True)
    def s_CXXForRangeStmt(self, n):
        xs = n["inner"]
        ini, rng, beg, end, cond, inc, var, body = xs[:8]
        if ini: self.st(ini)
        for s in (rng, beg, end):
            if s: self.st(s)
        self.loop(n, cond, inc, {"kind": "CompoundStmt", "inner": [var, body], "range": n.get("range", {})})
    def loop(self, n, cond, inc, body, do=False):
        spec = self.loopspec(n, self.fr) if self.loopspec else None
        if spec is not None: return self.cut_loop(n, cond, inc, body, spec, do)
        count = 0; lim = self.ctx.runner.unroll
        first = do
        while True:
            if not first and cond is not None:
                c = to_bool(self.rv(cond))
                if not self.ctx.branch(c): return
            first = False
            count += 1
            if count > lim: raise Unsupported("loop at line %s needs an invariant (unrolled %d times)" % (loc_of(n), lim))
            try: self.st(body)
            except BreakEx: return
            except ContinueEx: pass
            if inc is not None: self.ev(inc)
    def cut_loop(self, n, cond, inc, body, spec, do):
        ctx = self.ctx
        spec.enter(self)
        L = LoopState(self, spec); L.node = n
        for lab, g in spec.inv(L):
            ctx.oblige("%s: invariant '%s' holds on entry" % (spec.name, lab), g, "inv", n)
        mods = self.mod_set(n)
        self.havoc(mods)
        L.havoced()
        for lab, g in spec.inv(L): ctx.assume(g)
        spec.head(L)
        v0 = spec.variant(L) if spec.variant else None
        it = ctx.choose("loop")
        def check_end():
            spec.body_end(L)
            for lab, g in spec.inv(L):
                ctx.oblige("%s: invariant '%s' is preserved" % (spec.name, lab), g, "inv", n, hints=spec.hints(L) if spec.hints else ())
            if v0 is not None:
                v1 = spec.variant(L)
                ctx.oblige("%s: termination measure decreases" % spec.name, z3.ULT(v1, v0) if z3.is_bv(v0) else z3.And(v0 >= 0, v1 < v0), "variant", n)
        def run_body():
            spec.body_start(L)
            try: self.st(body)
            except ContinueEx: pass
            except BreakEx:
                return False
            if inc is not None: self.ev(inc)
            return True
        if do:
            # invariant is stated before the body
            if it:
                if not run_body(): return
                if cond is None or ctx.branch(to_bool(self.rv(cond))):
                    check_end(); raise PathEnd()
                return
            raise PathEnd()
        if it:
            if cond is not None:
                c = to_bool(self.rv(cond))
                if not ctx.branch(c):
                    raise PathEnd()      # this is the exit path, taken by the other choice
            if not run_body(): return    # break: continue after the loop
            check_end()
            raise PathEnd()
        else:
            if cond is None: raise PathEnd()
            c = to_bool(self.rv(cond))
            if ctx.branch(c): raise PathEnd()
            return
    # modification analysis ------------------------------------------------
    def mod_set(self, n):
        out = {}
        self._mods(n, False, out, set(), None, 0)
        return list(out.values())
    def _add(self, out, lv, content=False):
        key = (id(lv.c), tuple((s[0], s[1] if s[0] == "f" else "*") for s in lv.p), content)
        out[key] = (lv, content)
    def _is_const_t(self, n):
        q = n.get("type", {}).get("qualType", "")
        return q.startswith("const ") and not q.endswith("*") or q.endswith("const")
    def _chain(self, n, subst):
        """resolve an lvalue expression to (LVal prefix, content-only?) or None"""
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "SubstNonTypeTemplateParmExpr", "ConstantExpr"):
            return self._chain(n["inner"][0], subst)
        if k == "ImplicitCastExpr" or k.endswith("CastExpr"):
            b = self._chain(n["inner"][0], subst)
            if b is not None and not b[1] and n.get("castKind") in ("DerivedToBase", "UncheckedDerivedToBase"):
                try:
                    if self.to_vec_base(n): return (b[0].sub(("f", "__vec")), False)
                except Unsupported: pass
            return b
        if k == "DeclRefExpr":
            did = n["referencedDecl"]["id"]
            if subst is not None and did in subst: return subst[did]
            if did in self.fr["env"]: return (self.fr["env"][did], False)
            return None
        if k == "CXXThisExpr":
            if subst is not None: return subst.get("this")
            return (self.fr["this"], False) if self.fr["this"] is not None else None
        if k == "MemberExpr":
            b = self._chain(n["inner"][0], subst)
            if b is None: return None
            if b[1]: return b
            d = self.ast.nodes.get(n.get("referencedMemberDecl"), {})
            if d.get("kind") == "CXXMethodDecl": return b
            lv = b[0].sub(("f", n["name"]))
            try:
                cur = self.peek(lv)
                if isinstance(cur, RefV): return (cur.lv, False)
            except Unsupported: 
                return (b[0], True) 
            return (lv, False)
        if k == "CXXOperatorCallExpr":
            d = self.callee_decl(n).get("referencedDecl", {})
            b = self._chain(n["inner"][1], subst)
            if b is None: return None
            return (b[0], True)
        if k in ("ArraySubscriptExpr",):
            b = self._chain(n["inner"][0], subst)
            return None if b is None else (b[0], True)
        if k == "UnaryOperator":
            b = self._chain(n["inner"][0], subst)
            if b is None: return None
            if n["opcode"] == "*":
                try:
                    v = self.read(b[0])
                    if isinstance(v, PtrV) and v.lv is not None:
                        p = v.lv.p
                        if p and p[-1][0] == "i": return (LVal(v.lv.c, p[:-1]), True)
                        return (v.lv, False)
                except Unsupported: pass
                return (b[0], True)
            return b
        if k == "CXXMemberCallExpr":
            m = n["inner"][0]
            if m["kind"] == "MemberExpr":
                b = self._chain(m["inner"][0], subst)
                return None if b is None else (b[0], True)
        if k == "ConditionalOperator": return None
        return None
    def _mark(self, n, out, subst):
        c = self._chain(n, subst)
        if c is not None:
            self._add(out, c[0], c[1])
            return True
        return False
    def _mods(self, n, ro, out, seen, subst, depth):
        if not isinstance(n, dict) or "kind" not in n: return
        k = n["kind"]
        I = self.inner(n)
        if k == "BinaryOperator" and n["opcode"] == "=" or k == "CompoundAssignOperator":
            self._mark(I[0], out, subst)
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            self._mark(I[0], out, subst)
        elif k == "UnaryOperator" and n["opcode"] == "&":
            if not self._is_const_t(I[0]): self._mark(I[0], out, subst)
        elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            self._mods_call(n, out, seen, subst, depth)
        elif k == "LambdaExpr":
            for c in I:
                if c["kind"] == "CXXRecordDecl": continue
                self._mods(c, ro, out, seen, subst, depth)
            return
        for c in I: self._mods(c, ro, out, seen, subst, depth)
    def _arg_mods(self, a, out, subst, pt=None):
        if a.get("valueCategory") in ("lvalue", "xvalue") and not self._is_const_t(a): self._mark(a, out, subst)
    def _mods_call(self, n, out, seen, subst, depth):
        k = n["kind"]; I = self.inner(n)
        f = None; this = None; args = []
        if k == "CXXMemberCallExpr":
            m = I[0]
            while m["kind"] in ("ParenExpr", "ImplicitCastExpr"): m = m["inner"][0]
            args = I[1:]
            if m["kind"] == "MemberExpr":
                f = self.ast.definition(m.get("referencedMemberDecl"))
                obj = m["inner"][0]
                this = self._chain(obj, subst)
                if m.get("isArrow") and this is not None and obj["kind"] != "CXXThisExpr":
                    try:
                        pv = self.read(this[0])
                        if isinstance(pv, PtrV) and pv.lv is not None: this = (pv.lv, False)
                    except Unsupported: pass
                if f is None:
                    name = m.get("name"); q = obj.get("type", {}).get("qualType", "")
                    if not self._is_const_t(obj) and not self.models.is_const_method(name) and this is not None:
                        self._add(out, this[0], this[1])
        elif k == "CXXOperatorCallExpr":
            c = self.callee_decl(n); d = c.get("referencedDecl", {})
            f = self.ast.definition(d.get("id")); args = I[1:]
            name = d.get("name", "")
            if d.get("kind") == "CXXMethodDecl" and f is not None and args:
                this = self._chain(args[0], subst); args = args[1:]
            elif f is None:
                if name in ("operator=", "operator+=", "operator-=", "operator++", "operator--", "operator*=", "operator|=", "operator&=", "operator<<=", "operator>>=", "operator^="):
                    self._mark(args[0], out, subst)
                elif name == "operator()":
                    lv = self._chain(args[0], subst)
                    if lv is not None:
                        try:
                            v = self.read(lv[0])
                            if isinstance(v, Closure):
                                for c2 in v.node["inner"]:
                                    if c2["kind"] == "CompoundStmt":
                                        # free variables resolve in the closure's environment
                                        self.frames.append({"env": v.env, "this": v.this, "fn": None, "names": {}})
                                        try: self._mods(c2, False, out, seen, None, depth + 1)
                                        finally: self.frames.pop()
                        except Unsupported: pass
                    for a in args[1:]: self._arg_mods(a, out, subst)
                    return
                elif name in ("operator<<", "operator>>"):
                    for a in args: self._arg_mods(a, out, subst)
                return
        elif k == "CallExpr":
            c = self.callee_decl(n); args = I[1:]
            d = c.get("referencedDecl", {})
            if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"): f = self.ast.definition(d.get("id"))
            elif c["kind"] == "MemberExpr": f = self.ast.definition(c.get("referencedMemberDecl"))
        else:
            args = I
            t = None
            try: t = self.ty(n)
            except Unsupported: pass
            ct = n.get("ctorType", {}).get("qualType", "")
            for a in args:
                if "&&" in ct: self._arg_mods(a, out, subst)
            return
        if f is None:
            for a in args: self._arg_mods(a, out, subst)
            return
        con = self.contracts.get(f["id"]) if self.contracts else None
        if con is not None and getattr(con, "modifies", None) is not None:
            for spec in con.modifies(self, this[0] if this else None, f):
                self._add(out, spec, False)
            if con.modifies_args:
                for a in args: self._arg_mods(a, out, subst)
            return
        if f["id"] in seen or depth > 12:
            if this is not None: self._add(out, this[0], False)
            for a in args: self._arg_mods(a, out, subst)
            return
        sub = {"this": this}
        for p, a in zip(self.ast.params(f), args):
            pt = self.ast.type_of(p)
            if pt.k == "ref": sub[p["id"]] = self._chain(a, subst)
            else: sub[p["id"]] = None
        sub = Subst(sub)
        b = self.ast.body(f)
        self._mods(b, False, out, seen | {f["id"]}, sub, depth + 1)
    def havoc(self, mods):
        for lv, content in mods:
            lv0 = lv
            try: v = self.read(lv)
            except Unsupported: raise
            name = (lv.c.name or "v") + "".join("." + s[1] if s[0] == "f" else "[]" for s in lv.p)
            self._write_raw(lv, self.havoc_val(v, name, content))
    def _write_raw(self, lv, v):
        self.write(lv, v)
    def havoc_val(self, v, name, content=False):
        ctx = self.ctx
        if isinstance(v, z3.ExprRef): return ctx.fresh(name + "'", v.sort())
        if isinstance(v, FRatio): raise Unsupported("havoc ratio")
        if isinstance(v, RecV):
            r = RecV(v.t, {k: (x if isinstance(x, RefV) else self.havoc_val(x, name + "." + k)) for k, x in v.f.items()}); 
            r.ghost = {k: ctx.fresh(name + "." + k + "'", g.sort()) for k, g in v.ghost.items()}
            return r
        if isinstance(v, FixArr): return FixArr(v.et, [self.havoc_val(x, "%s[%d]" % (name, i)) for i, x in enumerate(v.e)])
        if isinstance(v, DynArr):
            arrs = [ctx.fresh(name + ".data%d'" % i, a.sort()) for i, a in enumerate(v.arrs)]
            if content: return DynArr(v.et, v.proto, arrs, v.size, v.null, v.kind)
            sz = v.size if v.kind == "ubox" else ctx.fresh(name + ".size'", IDX)
            nl = v.null if v.kind == "vec" else ctx.fresh(name + ".null'", z3.BoolSort())
            return DynArr(v.et, v.proto, arrs, sz, nl, v.kind)
        if isinstance(v, PtrV):
            if v.lv is not None and v.lv.p and v.lv.p[-1][0] == "i":
                return PtrV(LVal(v.lv.c, v.lv.p[:-1] + (("i", ctx.fresh(name + ".idx'", IDX)),)), v.null, v.t)
            raise Unsupported("havoc pointer %s" % name)
        if isinstance(v, OpaqueV): return OpaqueV(v.t, {k: self.havoc_val(x, name + "." + k) for k, x in v.d.items()})
        if isinstance(v, (Closure, FuncV)): return v
        raise Unsupported("havoc %s" % type(v).__name__)

class Subst(dict):
    """environment of an inlined callee during the modification analysis: unknown names are callee locals"""
    def __contains__(self, k): return True
    def __getitem__(self, k): return dict.get(self, k)

def simp_not(b):
    if z3.is_true(b): return z3.BoolVal(False)
    if z3.is_false(b): return z3.BoolVal(True)
    if z3.is_not(b): return b.arg(0)
    return z3.Not(b)

class LoopState:
    """what an invariant may talk about"""
    def __init__(self, it, spec):
        self.it = it; self.spec = spec
        self.pre_frame = {k: self._snap(v) for k, v in it.fr.get("names", {}).items()}
        self.frame = it.fr
        th = it.fr["this"]
        self.this_pre = copy_val(it.read(th)) if th is not None else None
        for k, v in spec.ghost.items(): it.ghost[k] = v
        self.ghost = it.ghost
    def _snap(self, lv):
        try: return copy_val(self.it.read(lv))
        except Unsupported: return None
    def havoced(self):
        for k in self.spec.ghost: self.it.ghost[k] = self.it.ctx.fresh("ghost." + k, self.it.ghost[k].sort())
    def var(self, name):
        name = self.it.ctx.runner.rename.get(name, name)
        lv = self.frame["names"].get(name)
        if lv is None: raise VarMissing(name)
        return self.it.read(lv)
    def var_of(self, d):
        """the variable of this declaration (nested loops of an instantiated lambda share the names of their iterators)"""
        lv = self.frame["env"].get(d["id"])
        return lv if isinstance(lv, LVal) else self.frame["names"].get(d["name"])
    def range_it(self):
        """current iterator and end of a range-based for loop"""
        out = []
        for d in self.node["inner"][2:4]:
            nm = d["inner"][0]["name"]; lv = self.var_of(d["inner"][0])
            if lv is None: raise VarMissing(nm)
            out.append(self.it.read(lv))
        return out
    def pre(self, name):
        name = self.it.ctx.runner.rename.get(name, name)
        if name not in self.pre_frame: raise VarMissing(name)
        return self.pre_frame[name]
    @property
    def this(self): return self.it.read(self.frame["this"])
    def pos(self):
        """position of the iterator of a range-for loop over an array / vector"""
        p = self.it.read(self.var_of(self.node["inner"][2]["inner"][0]))
        if not isinstance(p, PtrV): raise Unsupported("range iterator is not a pointer")
        return self.it.ptr_idx(p)

class LoopSpec:
    def __init__(self, name, inv, variant=None, hints=None, enter=None, body_start=None, body_end=None, ghost=None, head=None):
        self._head = head
        self.name = name; self.inv = inv; self.variant = variant; self.hints = hints; self.ghost = ghost or {}
        self._enter, self._bs, self._be = enter, body_start, body_end
    def enter(self, it):
        if self._enter: self._enter(it)
    def body_start(self, L):
        if self._bs: self._bs(L)
    def head(self, L):
        """facts at the loop head, before the condition is evaluated"""
        if self._head: self._head(L)
    def body_end(self, L):
        if self._be: self._be(L)
