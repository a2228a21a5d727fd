"""Cross check and verification of triangulations: the parallel phases of dSimplices::crossCheck and dSimplices::verify.

Statements of the form 'some cell violates it' are handled with witnesses: for a violation V(i) let ANY be V(w) for one fixed witness w
(chosen as some violating cell when there is one), so that V(i) implies ANY for every i; these implications are used at the cells the code looks at."""
from vf.spec import *
from contracts.C13 import increasing, shared, inf
from contracts.geo import DRIVER_SRCS
TUS = ["geocore"]
DRIVER = "C33.cpp"; DRIVER_LIBS = ["-ltbb", "-lgmpxx", "-lgmp"]; DRIVER_TIMEOUT = 400
ASSUMPTIONS = ["tbb::parallel_for executes the body on sub-ranges that together are the range; the effects of different sub-ranges (insertions, flags that are only set, counters, lists under the lock) commute",
               "tbb::concurrent_unordered_multimap, std::unordered_set, std::vector::push_back, std::find and std::find_if behave as specified; thread-specific handles address the store they were made for (property C03 for the lookup of cells)",
               "the iterators of a store visit the cells that are not removed, in the order of their identifiers",
               "vertices of the cells are strictly increasing and fingerprints are the generated ones (properties C13, C14)", "logging is silent"]
SPEC = True
NOID = bv((1 << 64) - 1)
BA = z3.ArraySort(IDX, z3.BoolSort()); IA = z3.ArraySort(IDX, IDX); FA = z3.ArraySort(IDX, z3.BitVecSort(32))
def const(it, name, sort): return z3.Const(str(it.ctx.fresh(name, z3.BoolSort())), sort)
def strip(t):
    while t.k == "ref": t = t.a[0]
    return t
def fin(D, v): return Not(inf(D, v))

def find_name(e):
    while "referencedDecl" not in e: e = e["inner"][0]
    return e["referencedDecl"]["name"]

class Store:
    """the cells of one store: arrays indexed by the identifier"""
    def __init__(self, it, D, name):
        self.it, self.D, self.name = it, D, name
        self.live = const(it, name + ".live", BA); self.fp = const(it, name + ".fp", FA); self.next = const(it, name + ".next", IA); self.cnt = const(it, name + ".cnt", IA)
        self.v = [const(it, "%s.v%d" % (name, j), IA) for j in range(D + 1)]; self.n = [const(it, "%s.n%d" % (name, j), IA) for j in range(D + 1)]
        self.lo, self.hi = it.ctx.fresh(name + ".lo", IDX), it.ctx.fresh(name + ".hi", IDX)
        it.ctx.assume(And(ULE(self.lo, self.hi), ULT(self.hi, bv(1 << 60))))
        it.ctx.assume(forall(1, lambda i: Implies(self.live[i], self.has(i)), pats=lambda i: [self.live[i]]))
    def has(self, i): return And(ULE(self.lo, i), ULT(i, self.hi))
    def verts(self, i): return [a[i] for a in self.v]
    def links(self, i): return [a[i] for a in self.n]
    def known(self, i):
        """class invariants of the cell i"""
        v = self.verts(i); self.it.ctx.assume(Implies(self.live[i], And(self.has(i), *[ULT(a, b) for a, b in zip(v, v[1:])], self.fp[i] == FP(self.D)(*v))))
    def cell(self, i):
        it = self.it; self.known(i); c = it.fresh_val(Type("rec", "dSimplex", (self.D, DOUBLE)), "cell")
        c.f["id"] = If(self.live[i], i, NOID); c.f["vFingerprint"] = self.fp[i]
        for k, xs in (("vertices", self.verts(i)), ("neighbors", self.links(i))):
            a = c.f[k]; a.e = list(xs)
        c.f["$at"] = i; return c
    def pos(self, i): return And(ULE(self.lo, i), ULE(i, self.hi), Or(i == self.hi, self.live[i]))
    def step(self, i):
        """i is a live cell: what follows it"""
        j = self.next[i]
        self.it.ctx.assume(And(ULT(i, j), self.pos(j), self.cnt[j] == self.cnt[i] + 1))
        self.it.ctx.assume(forall(1, lambda k: Implies(And(ULT(i, k), ULT(k, j)), Not(self.live[k])), pats=lambda k: [self.live[k]]))
        return j
    def same(self, i, o, k): return And(*[a == b for a, b in zip(self.verts(i), o.verts(k))])
    def finite(self, i): return And(*[fin(self.D, v) for v in self.verts(i)])
_fp = {}
def FP(D):
    if D not in _fp: _fp[D] = z3.Function("fingerprint%d" % D, *([IDX] * (D + 1) + [z3.BitVecSort(32)]))
    return _fp[D]
def FF(D): return FP(D - 1) if False else _face(D)
def _face(D):
    if ("f", D) not in _fp: _fp[("f", D)] = z3.Function("face%d" % D, *([IDX] * D + [z3.BitVecSort(32)]))
    return _fp[("f", D)]
def at_of(x):
    """the identifier of the cell a record was read from"""
    return x.f["$at"]

# ---------------------------------------------------------------- contracts of what the phases call
class Pure(Contract):
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def __init__(self, con, f): self.con, self._f = con, f
    def apply(self, it, this, vals, f, n=None): return self._f(it, this, vals, f, n)
def mkiter(it, con, t, S, i, lv):
    v = it.fresh_val(t, "iterator"); v.f["m_container"] = RefV(lv); v.f["m_idx"] = i; v.f["m_block"] = it.ctx.fresh("block", v.f["m_block"].sort()); return v

class Base(Contract):
    tu = "geocore"; dups = False; feas_ms = 500
    ETS = ("tbb::enumerable_thread_specific", "tbb::detail::d1::enumerable_thread_specific", "tbb::interface6::enumerable_thread_specific")
    MM = ("tbb::concurrent_unordered_multimap", "tbb::detail::d1::concurrent_unordered_multimap", "tbb::detail::d2::concurrent_unordered_multimap", "tbb::interface5::concurrent_unordered_multimap", "tbb::detail::d1::concurrent_unordered_base", "tbb::detail::d2::concurrent_unordered_base")
    MIT = ("tbb::detail::d1::solist_iterator", "tbb::detail::d2::solist_iterator", "tbb::interface5::internal::solist_iterator")
    def __init__(self, D, name):
        self.D = D; self.name = "dSimplices<%d>::%s" % (D, name); self.find = fn_named(name, cls="dSimplices", cls_args=(D, DOUBLE))
        P = lambda f: Pure(self, f)
        T2 = Type("rec", "dSimplex", (D, DOUBLE))
        self.calls = [(fn_named("range", cls="dSimplices").all, P(self.c_range)), (fn_named("exact_size", cls="BlockedArray2").all, P(lambda it, this, v, f, n: it.ctx.fresh("exact_size", IDX))),
            (fn_named("begin", cls="dSimplices").all, P(self.c_begin)), (fn_named("end", cls="dSimplices").all, P(self.c_end)),
            (fn_named("filtered_block_iterator", cls="filtered_block_iterator").all, P(self.c_copy)), (fn_named("operator++", cls="filtered_block_iterator", nparams=0).all, P(self.c_inc)),
            (fn_named("operator*", cls="filtered_block_iterator").all, P(self.c_deref)), (fn_named("operator!=", cls="filtered_block_iterator").all, P(lambda it, this, v, f, n: it.read(this).f["m_idx"] != it.read(v[0]).f["m_idx"])),
            (fn_named("operator==", cls="filtered_block_iterator").all, P(lambda it, this, v, f, n: it.read(this).f["m_idx"] == it.read(v[0]).f["m_idx"])),
            (fn_named("at", cls="BlockedArray2Handle").all, P(self.c_at)), (fn_named("operator[]", cls="BlockedArray2Handle").all, P(self.c_at)), (fn_named("contains", cls="BlockedArray2Handle").all, P(self.c_contains)),
            (fn_named("equalVertices", cls="dSimplex", cls_args=(D, DOUBLE)).all, P(lambda it, this, v, f, n: self.equal(it.read(this), it.read(v[0]))))]
        self.calls += self.more_calls(P)
        self.free = {"parallel_for": self.par, "getInstance": self.logger, "ref": self.ref, "cref": self.ref, "make_pair": self.mkpair, "find_if": self.find_if, "find": self.find_}
        self.abstract = {"dSimplices": self.mkstore}; self.constructors = {}; self.methods = {}; self.default_objs = {}
        for k in self.ETS:
            self.constructors[k] = self.ets; self.methods[(k, "local")] = self.local
        for k in self.MM:
            self.constructors[k] = self.mkmap
            self.methods[(k, "insert")] = self.m_insert; self.methods[(k, "emplace")] = self.m_insert; self.methods[(k, "equal_range")] = self.m_range
        for k in self.MIT: self.constructors[k] = lambda it, t, a, n: copy_val(it.rv(a[0]))
        for o in ("operator==", "operator!="): self.methods[("opfree", o)] = self.same_entry
        for o in ("operator->", "operator*"): self.methods[("op", o)] = self.at_entry
        for k in ("tbb::detail::d1::unique_scoped_lock", "tbb::detail::d2::unique_scoped_lock", "tbb::spin_mutex::scoped_lock"): self.constructors[k] = lambda it, t, a, n: OpaqueV(t)
        for k in ("tbb::spin_mutex", "tbb::detail::d1::spin_mutex"):
            self.default_objs[k] = lambda it, t: OpaqueV(t); self.constructors[k] = lambda it, t, a, n: OpaqueV(t)
        self.loops = {("operator()", i): self.loop for i in range(8)}
    def more_calls(self, P): return []
    # ---- values
    def equal(self, a, b): return And(a.f["vFingerprint"] == b.f["vFingerprint"], *[x == y for x, y in zip(a.f["vertices"].e, b.f["vertices"].e)])
    def mkstore(self, it, t, name):
        r = RecV(t, {}); c = it.ast.find_class(t)
        for fn, ft, _ in it.ast.fields(c): r.f[fn] = it.fresh_val(ft, name + "." + fn, 1)
        return r
    def store(self, it, lv):
        """the cells of the store at this place"""
        v = it.read(lv)
        for S, c in self.stores:
            if lv.c is c.c: return S
        raise Unsupported("unknown store %s" % lv)
    def logger(self, it, args, n):
        v = it.fresh_val(Type("rec", "Logger", ()), "logger"); v.f["logLevel"] = z3.BitVecVal(0, v.f["logLevel"].size()); return LVal(Cell(v, "logger"))
    def mkpair(self, it, args, n):
        t = it.ty(n); a = [it.conv_elem_of(x) if False else it.rv(x) for x in args]
        return RecV(Type("rec", "std::pair", ()), {"first": z64(a[0]), "second": z64(a[1])})
    # ---- iteration
    def target(self, it, lv):
        v = it.peek(lv) if hasattr(it, "peek") else it.read(lv)
        return v.lv if isinstance(v, RefV) else lv
    def c_range(self, it, this, vals, f, n):
        S = self.store(it, this); t = strip(it.ty(n)); r = it.fresh_val(t, "range"); r.f["m_container"] = RefV(this)
        for k, i in (("m_begin", self.first(S)), ("m_end", S.hi)): r.f[k].f["m_container"] = RefV(this); r.f[k].f["m_idx"] = i
        return r
    def first(self, S):
        if not hasattr(S, "first"):
            S.first = self.it_.ctx.fresh(S.name + ".first", IDX)
            self.it_.ctx.assume(And(S.pos(S.first), forall(1, lambda k: Implies(S.live[k], ULE(S.first, k)), pats=lambda k: [S.live[k]])))
        return S.first
    def c_begin(self, it, this, vals, f, n): S = self.store(it, this); return mkiter(it, self, strip(it.ty(n)), S, self.first(S), this)
    def c_end(self, it, this, vals, f, n): S = self.store(it, this); return mkiter(it, self, strip(it.ty(n)), S, S.hi, this)
    def c_copy(self, it, this, vals, f, n):
        if len(vals) != 1: raise Unsupported("iterator constructor")
        it.write(this, copy_val(it.read(vals[0]))); return None
    def where(self, it, v):
        c = v.f["m_container"]; return self.store(it, c.lv if isinstance(c, RefV) else c)
    def c_inc(self, it, this, vals, f, n):
        v = copy_val(it.read(this)); S = self.where(it, v); i = v.f["m_idx"]
        it.ctx.oblige("precondition of ++: the iterator is not at the end", And(S.pos(i), i != S.hi), "pre", n)
        v.f["m_idx"] = S.step(i); it.write(this, v); return this
    def c_deref(self, it, this, vals, f, n):
        v = it.read(this); S = self.where(it, v); i = v.f["m_idx"]
        it.ctx.oblige("precondition of *: the iterator is at a cell", And(S.pos(i), i != S.hi), "pre", n)
        self.visit(it, S, i); return LVal(Cell(S.cell(i), "cell"))
    def visit(self, it, S, i): pass
    # ---- handles
    def ref(self, it, a, n):
        v = it.ev(a[0]); return OpaqueV(Type("rec", "$ref", ()), {"lv": v.lv if isinstance(v, RefV) else v})
    def ets(self, it, t, args, n):
        a = [x for x in args if x["kind"] != "CXXDefaultArgExpr"]
        v = it.rv(a[0])
        if not isinstance(v, OpaqueV) or "lv" not in v.d: raise Unsupported("thread-specific handles of something else than a store")
        return OpaqueV(t, {"s": v.d["lv"]})
    def local(self, it, this, args, n):
        s = it.read(this).d["s"]; self.store(it, s)
        rt = it.ty(n)
        while rt.k == "ref": rt = rt.a[0]
        h = RecV(rt, {"m_container": RefV(s), "m_hint": it.ctx.fresh("hint", z3.BitVecSort(32))}); return LVal(Cell(h, "handle"))
    def c_at(self, it, this, vals, f, n):
        S = self.where(it, it.read(this)); i = z64(it.read(vals[0]))
        it.ctx.oblige("precondition of at: the store has the identifier", S.has(i), "pre", n)
        self.looked(it, S, i); return LVal(Cell(S.cell(i), "cell"))
    def looked(self, it, S, i): pass
    def c_contains(self, it, this, vals, f, n):
        S = self.where(it, it.read(this)); return S.live[z64(it.read(vals[0]))]
    # ---- multimaps: a set of entries; the entries of a key are enumerated once each
    def mkmap(self, it, t, args, n):
        self.maps += 1
        return RecV(Type("rec", "$multimap", (self.maps,)), {"$m": z3.K(IDX, z3.K(IDX, z3.BoolVal(False)))})
    def m_insert(self, it, this, args, n):
        v = copy_val(it.read(this)); a = [it.rv(x) for x in args]
        k, x = (a[0].f["first"], a[0].f["second"]) if len(a) == 1 else (z64(a[0]), z64(a[1]))
        m = v.f["$m"]; v.f["$m"] = z3.Store(m, k, z3.Store(m[k], x, z3.BoolVal(True))); it.write(this, v); return OpaqueV(Type("rec", "$inserted", ()))
    def m_range(self, it, this, args, n):
        m = it.read(this).f["$m"]; k = z64(it.rv(args[0])); N = it.ctx.fresh("entries", IDX); E = const(it, "entry", IA); P = const(it, "entry.pos", IA)
        it.ctx.assume(And(ULT(N, bv(1 << 48)), forall(1, lambda j: Implies(ULT(j, N), And(m[k][E[j]], P[E[j]] == j)), pats=lambda j: [E[j]]), forall(1, lambda x: Implies(m[k][x], And(ULT(P[x], N), E[P[x]] == x)), pats=lambda x: [P[x]])))
        H = RefV(LVal(Cell(OpaqueV(Type("rec", "$r", ()), {"k": k, "m": m, "N": N, "E": E, "P": P}), "range")))
        mk = lambda i: RecV(Type("rec", "$entry", ()), {"i": i, "$h": H})
        return RecV(Type("rec", "std::pair", ()), {"first": mk(bv(0)), "second": mk(N)})
    def same_entry(self, it, a, args, n):
        x, y = it.rv(args[0]), it.rv(args[1])
        if not (isinstance(x, RecV) and "$h" in x.f and isinstance(y, RecV) and "$h" in y.f): return NotImplemented
        if x.f["$h"].lv.c is not y.f["$h"].lv.c: raise Unsupported("comparison of entries of different ranges")
        e = x.f["i"] == y.f["i"]; op = n["inner"][0]; s = str(find_name(op)); return Not(e) if "!=" in s else e
    def at_entry(self, it, this, args, n):
        v = it.read(this)
        if not isinstance(v, RecV) or "$h" not in v.f: raise Unsupported("dereferenced %s" % type(v).__name__)
        r = it.read(v.f["$h"].lv).d; i = v.f["i"]
        it.ctx.oblige("the entry exists", ULT(i, r["N"]), "pre", n); l = LVal(Cell(self.entry(r, r["E"][i]), "entry"))
        return PtrV(l, z3.BoolVal(False)) if "->" in str(find_name(n["inner"][0])) else l
    def entry(self, r, x): return RecV(Type("rec", "std::pair", ()), {"first": r["k"], "second": x})

    # ---- parallel phases
    def loc(self, it, pred):
        seen = []
        for lv in list(it.fr["env"].values()):
            if not isinstance(lv, LVal): continue
            try: v = it.read(lv)
            except Exception: continue
            l = lv; w = it.peek(lv) if hasattr(it, "peek") else v
            if isinstance(w, RefV): l = w.lv
            if isinstance(v, RecV) and pred(v) and not any(l.c is s.c for s in seen): seen.append(l)
        return seen
    def map_(self, it, k):
        c = self.loc(it, lambda v: v.t == Type("rec", "$multimap", (k,)))
        if len(c) != 1: raise VarMissing("look-up map %d" % k)
        return c[0]
    def report(self, it):
        c = self.loc(it, lambda v: "$rep" in v.f)
        if len(c) != 1: raise VarMissing("the report")
        return c[0]
    def par(self, it, args, n):
        rng = it.rv(args[0]); cl = it.rv(args[1]); p = self.phases[self.phase] if self.phase < len(self.phases) else None
        self.phase += 1
        if p is None: raise Unsupported("more parallel phases than specified")
        p = p(); self.p = p; S = p.S
        lo, hi = p.bounds(it, rng)
        it.ctx.oblige("%s: the range covers everything" % p.name, And(lo == p.lo(it), hi == p.hi(it)), "post", n)
        p.enter(it)
        if it.ctx.choose("one execution of the body"):
            a, b = it.ctx.fresh("sub_begin", IDX), it.ctx.fresh("sub_end", IDX)
            it.ctx.assume(And(ULE(lo, a), ULE(a, b), ULE(b, hi), p.pos(a), p.pos(b))); p.a, p.b = a, b
            p.arbitrary(it)
            it.call_closure(cl, [LVal(Cell(p.sub(it, rng, a, b), "r"))], n)
            for l, g in p.goals(it, b): it.ctx.oblige("%s: %s" % (p.name, l), g, "post", n)
            raise PathEnd()
        p.final(it); self.p = None
        return None
    def loop(self, it, n):
        if n["kind"] == "CXXForRangeStmt":
            t = it.ty(n["inner"][2]["inner"][0]) if False else None
        return self.p.loop(it, n) if getattr(self, "p", None) is not None else None

class Phase:
    """one parallel_for over the cells of a store"""
    name = "phase"
    def __init__(self, con, S): self.con, self.S = con, S
    def lo(self, it): return self.con.first(self.S)
    def hi(self, it): return self.S.hi
    def pos(self, i): return self.S.pos(i)
    def bounds(self, it, rng): 
        it.ctx.oblige("%s: the range is the one of the %s" % (self.name, self.S.name), z3.BoolVal(self.con.where(it, rng.f["m_begin"]) is self.S), "post", None)
        return rng.f["m_begin"].f["m_idx"], rng.f["m_end"].f["m_idx"]
    def sub(self, it, rng, a, b):
        r = copy_val(rng); r.f["m_begin"].f["m_idx"] = a; r.f["m_end"].f["m_idx"] = b; return r
    def done(self, i, x): return And(ULE(self.a, i), ULT(i, x), self.S.live[i])
    def loop(self, it, n):
        if n["kind"] == "CXXForRangeStmt":
            e = it.read(it.fr["env"][n["inner"][2]["inner"][0]["id"]])
            if isinstance(e, RecV) and "m_idx" in e.f:
                return LoopSpec(self.name, lambda L: [("position", And(ULE(self.a, L.range_it()[0].f["m_idx"]), ULE(L.range_it()[0].f["m_idx"], self.b), self.S.pos(L.range_it()[0].f["m_idx"])))] + self.goals(it, L.range_it()[0].f["m_idx"]), variant=lambda L: self.b - L.range_it()[0].f["m_idx"])
        return self.inner(it, n)
    def inner(self, it, n): return None
    def enter(self, it): pass

class Insert(Phase):
    """the cells of the store enter the look-up map under their fingerprints"""
    def __init__(self, con, S, k, counter=None, faces=False): self.con, self.S, self.k, self.counter, self.faces = con, S, k, counter, faces; self.name = "look-up map %d, %s" % (k, S.name)
    def m(self, it): return it.read(self.con.map_(it, self.k)).f["$m"]
    def set(self, it, m): it.write(self.con.map_(it, self.k).sub(("f", "$m")), m)
    def keys(self, i):
        S = self.S; D = S.D
        if not self.faces: return [z64(S.fp[i])]
        return [face_key(S, i, j) for j in range(D + 1)]
    def count(self, it):
        c = it.fr["names"].get(self.counter)
        if c is None: raise VarMissing(self.counter)
        return c
    def enter(self, it): self.pre = self.m(it); self.c0 = it.read(self.count(it)) if self.counter else None
    def arbitrary(self, it):
        self.pre = const(it, "before", z3.ArraySort(IDX, BA)); self.set(it, self.pre)
        if self.counter:
            self.c0 = it.ctx.fresh("count", self.c0.sort()); it.write(self.count(it), self.c0)
    def facts(self, m, pre, cond):
        mp = (lambda h, i: [m[h][i]]) if z3.is_const(m) else None
        return [("no entry is lost", forall(2, lambda h, i: Implies(pre[h][i], m[h][i]), pats=mp)), ("the cells are in the map", forall(1, lambda i: Implies(And(cond(i), self.S.live[i]), And(*[m[h][i] for h in self.keys(i)])), pats=lambda i: [self.S.live[i]])),
                ("only cells are in the map", forall(2, lambda h, i: Implies(m[h][i], Or(pre[h][i], And(self.S.live[i], Or(*[h == k for k in self.keys(i)])))), pats=mp))]
    def goals(self, it, x):
        out = self.facts(self.m(it), self.pre, lambda i: And(ULE(self.a, i), ULT(i, x)))
        if self.counter: out.append(("counted", it.read(self.count(it)) == self.c0 + self.S.cnt[x] - self.S.cnt[self.a]))
        return out
    def final(self, it):
        m = const(it, "map", z3.ArraySort(IDX, BA)); self.set(it, m)
        for _, g in self.facts(m, self.pre, lambda i: z3.BoolVal(True)): it.ctx.assume(g)
        if self.counter: it.write(self.count(it), self.c0 + self.S.cnt[self.S.hi] - self.S.cnt[self.con.first(self.S)])

class Check(Phase):
    """flags of the report: field -> (fresh value raised?, any violation, violation of the witness cell); sets: field -> (witness, members)"""
    flags = (); sets = ()
    def raised(self, it, k):
        v = it.read(self.con.report(it)); return Not(v.f["valid"]) if k == "valid" else v.f[k].f["$some"]
    def members(self, it, k): return it.read(self.con.report(it)).f[k].f["$set"]
    def put(self, it, k, x):
        r = self.con.report(it)
        it.write(r.sub(("f", "valid")), Not(x)) if k == "valid" else it.write(r.sub(("f", k)).sub(("f", "$some")), x)
    def enter(self, it):
        self.m0 = {k: it.read(self.con.map_(it, k)).f["$m"] for k in range(1, self.con.maps + 1)}
        self.f0 = {k: self.raised(it, k) for k in self.flags}; self.s0 = {k: self.members(it, k) for k in self.sets}
    def arbitrary(self, it):
        for k in self.flags: self.f0[k] = it.ctx.fresh("raised", z3.BoolSort()); self.put(it, k, self.f0[k])
        for k in self.sets: self.s0[k] = const(it, "before", BA); it.write(self.con.report(it).sub(("f", k)).sub(("f", "$set")), self.s0[k])
    def goals(self, it, x):
        out = [("the look-up map is unchanged", it.read(self.con.map_(it, k)).f["$m"] == self.m0[k]) for k in self.m0]
        for k in self.flags:
            r = self.raised(it, k); n = "the report is marked invalid" if k == "valid" else "%s is not empty" % k
            out += [("%s when a cell violates it" % n, And(Implies(self.f0[k], r), Implies(And(self.done(self.w, x), self.bad(self.w)), r))), ("%s only when a cell violates it" % n, Implies(r, Or(self.f0[k], self.any)))]
        for k in self.sets:
            m = self.members(it, k); out.append(("%s holds exactly the cells that violate it" % k, m[self.sw] == Or(self.s0[k][self.sw], And(self.done(self.sw, x), self.badset(self.sw)))))
        return out
    def final(self, it):
        for k in self.flags: self.put(it, k, Or(self.f0[k], self.any))
        for k in self.sets:
            m = const(it, k, BA); it.write(self.con.report(it).sub(("f", k)).sub(("f", "$set")), m); it.ctx.assume(m[self.sw] == Or(self.s0[k][self.sw], And(self.S.live[self.sw], self.badset(self.sw))))
    def know(self, it, i):
        """a violating cell is a violation"""
        it.ctx.assume(Implies(And(self.S.live[i], self.bad(i)), self.any))
    def witness(self, it):
        self.w = it.ctx.fresh("witness", IDX); self.any = it.ctx.fresh("any", z3.BoolSort()); self.S.known(self.w); it.ctx.assume(self.any == And(self.S.live[self.w], self.bad(self.w)))

# ---------------------------------------------------------------- cross check
class Missing(Check):
    name = "cells of the other triangulation"; flags = ("valid",); sets = ("missing",)
    def __init__(self, con): Check.__init__(self, con, con.R); self.sw = con.sw1
    def has(self, i): c = self.con; return c.match(i, c.X[i])
    def nbad(self, i, j):
        c = self.con; x = self.S.links(i)[j]; return And(x != NOID, Not(Or(*[And(y != NOID, c.eqv(c.A, y, c.R, x)) for y in c.A.links(c.X[i])])))
    def bad(self, i): return Or(Not(self.has(i)), *[self.nbad(i, j) for j in range(self.con.D + 1)])
    def badset(self, i): return Not(self.has(i))
    def inner(self, it, n):
        if n["kind"] != "CXXForRangeStmt" or n["inner"][6].get("kind") != "DeclStmt": return None
        e = it.read(it.fr["env"][n["inner"][2]["inner"][0]["id"]])
        if not isinstance(e, PtrV) or self.depth or not SPEC: return None
        self.depth = 1
        def inv(L):
            p = L.pos(); i = self.cur; r = self.raised(it, "valid"); some = Or(*[And(ULT(bv(j), p), self.nbad(i, j)) for j in range(self.con.D + 1)])
            return [("position", ULE(p, bv(self.con.D + 1))), ("an unmatched link marks the report invalid", Implies(Or(some, self.in0), r)), ("nothing else does", Implies(r, Or(self.in0, self.any))), ("missing cells kept", self.members(it, "missing") == self.ms0)]
        def enter(i2): self.in0 = self.raised(it, "valid"); self.ms0 = self.members(it, "missing")
        self.in0 = self.raised(it, "valid"); self.ms0 = self.members(it, "missing")
        return LoopSpec("links of a cell", inv, variant=lambda L: bv(self.con.D + 1) - L.pos())
    depth = 0
class Invalid(Check):
    name = "own cells"; flags = ("valid",); sets = ("invalid",)
    def __init__(self, con): Check.__init__(self, con, con.A); self.sw = con.sw2
    def bad(self, i): c = self.con; return Not(c.match(c.Y[i], i))
    badset = bad

class CrossCheck(Base):
    def __init__(self, D):
        Base.__init__(self, D, "crossCheck"); self.abstract["CrossCheckReport"] = self.rep; self.default_objs["CrossCheckReport"] = lambda it, t: self.rep(it, t, "report")
        self.methods[("std::vector", "push_back")] = self.push; self.methods[("std::vector", "emplace_back")] = self.push
    def push(self, it, this, args, n):
        v = copy_val(it.read(this))
        if not isinstance(v, RecV) or "$set" not in v.f: raise Unsupported("push_back to this vector")
        x = it.rv(args[0]); v.f["$set"] = z3.Store(v.f["$set"], x.f["id"], z3.BoolVal(True)); it.write(this, v); return None
    def rep(self, it, t, name): return RecV(t, {"$rep": z3.BoolVal(True), "valid": it.ctx.fresh("valid", z3.BoolSort()), "missing": RecV(Type("rec", "$list", ()), {"$set": z3.K(IDX, z3.BoolVal(False))}), "invalid": RecV(Type("rec", "$list", ()), {"$set": z3.K(IDX, z3.BoolVal(False))})})
    def setup(self, it, fn):
        D = self.D; self.it_ = it; self.maps = 0; self.phase = 0; self.p = None
        o = LVal(Cell(it.fresh_val(Type("rec", "dSimplices", (D, DOUBLE)), "own"), "own")); a = fresh_args(it, fn)
        A = self.A = Store(it, D, "own cells"); R = self.R = Store(it, D, "other cells"); self.stores = [(A, o), (R, a[0])]
        self.X, self.Y = const(it, "own_match", IA), const(it, "other_match", IA); self.sw1, self.sw2 = it.ctx.fresh("missing?", IDX), it.ctx.fresh("invalid?", IDX)
        for S in (A, R):
            for l in S.n: it.ctx.assume(forall(1, lambda i: Implies(And(S.live[i], l[i] != NOID), S.has(l[i])), pats=lambda i: [l[i]]))
        P1, P2 = Missing(self), Invalid(self)
        for p in (P1, P2): p.witness(it)
        self.P1, self.P2 = P1, P2
        for i in (P1.w, self.sw1): self.meet(it, self.X[i], i)
        for i in (P2.w, self.sw2): self.meet(it, i, self.Y[i])
        self.phases = [lambda: Insert(self, A, 1, "mySize"), lambda: Insert(self, R, 1, "realSize"), lambda: P1, lambda: P2]
        return State(this=o, args=a)
    def match(self, i, x):
        """own cell x has the vertices of the other cell i"""
        return And(self.A.live[x], self.R.live[i], self.A.same(x, self.R, i))
    def eqv(self, S, x, T, y): return And(S.fp[x] == T.fp[y], S.same(x, T, y))
    def meet(self, it, x, i):
        """own cell x, other cell i: the chosen partners are partners when there are any; own cells are pairwise different"""
        A, R = self.A, self.R
        for s, c in ((A, x), (A, self.X[i]), (R, i), (R, self.Y[x])): s.known(c)
        it.ctx.assume(And(Implies(self.match(i, x), And(self.match(i, self.X[i]), self.match(self.Y[x], x))), Implies(And(A.live[x], A.live[self.X[i]], A.same(x, A, self.X[i])), x == self.X[i])))
    def visit(self, it, S, i):
        if self.p is None: return
        if isinstance(self.p, Check): self.p.cur = i; self.p.know(it, i); self.p.depth = 0
        if self.p is self.P1: self.meet(it, self.X[i], i)
        if self.p is self.P2: self.meet(it, i, self.Y[i])
    def find_(self, it, args, n): raise Unsupported("std::find")
    def find_if(self, it, args, n):
        b, e = it.rv(args[0]), it.rv(args[1]); cl = it.rv(args[2]); r = it.read(b.f["$h"].lv).d; p = self.p; i = p.cur
        it.ctx.oblige("the whole range of the fingerprint is searched", And(b.f["i"] == 0, e.f["i"] == r["N"]), "pre", n)
        def holds(x):
            it.ctx.assume(Implies(self.A.live[x] if p is self.P1 else self.R.live[x], True))
            return to_bool(it.val(it.call_closure(cl, [LVal(Cell(self.entry(r, x), "entry"))], n)))
        if it.ctx.choose("found"):
            j = it.ctx.fresh("found", IDX); x = r["E"][j]; it.ctx.assume(ULT(j, r["N"]))
            self.meet(it, x, i) if p is self.P1 else self.meet(it, i, x)
            it.ctx.assume(holds(x)); v = copy_val(b); v.f["i"] = j; return v
        x = self.X[i] if p is self.P1 else self.Y[i]; ok = self.match(i, x) if p is self.P1 else self.match(x, i)
        T = self.A if p is self.P1 else self.R; O = self.R if p is self.P1 else self.A
        it.ctx.oblige("partners have the same fingerprint", Implies(ok, T.fp[x] == O.fp[i]), "post", n)
        it.ctx.oblige("the partner is in the map", Implies(T.live[x], r["m"][z64(T.fp[x])][x]), "post", n)
        it.ctx.oblige("a partner is found under the fingerprint", Implies(ok, r["m"][r["k"]][x]), "post", n)
        it.ctx.assume(Implies(r["m"][r["k"]][x], And(ULT(r["P"][x], r["N"]), r["E"][r["P"][x]] == x)))
        h = holds(x); it.ctx.assume(Implies(r["m"][r["k"]][x], Not(h)))
        return copy_val(e)
    def post(self, it, S, r):
        D = self.D; A, R = self.A, self.R; P1, P2 = self.P1, self.P2
        sizes = A.cnt[A.hi] - A.cnt[self.first(A)] == R.cnt[R.hi] - R.cnt[self.first(R)]
        return [("the missing cells are those without an own cell of the same vertices", r.f["missing"].f["$set"][self.sw1] == And(R.live[self.sw1], P1.badset(self.sw1))),
                ("the superfluous cells are those without another cell of the same vertices", r.f["invalid"].f["$set"][self.sw2] == And(A.live[self.sw2], P2.badset(self.sw2))),
                ("valid exactly for equally many cells, none missing or superfluous, and the same links", r.f["valid"] == And(sizes, Not(P1.any), Not(P2.any)))]

class EqV(Contract):
    """the body of equalVertices, for cells whose fingerprint is not the generated one as well"""
    tu = "geocore"
    def __init__(self, D): self.D = D; self.name = "dSimplex<%d>::equalVertices" % D; self.find = fn_named("equalVertices", cls="dSimplex", cls_args=(D, DOUBLE))
    def setup(self, it, fn): return State(this=this_obj(it, "dSimplex", (self.D, DOUBLE), "a"), args=fresh_args(it, fn))
    def post(self, it, S, r):
        a, b = it.read(S.this), it.read(S.args[0])
        return [("same fingerprint and vertices", to_bool(r) == And(a.f["vFingerprint"] == b.f["vFingerprint"], *[x == y for x, y in zip(a.f["vertices"].e, b.f["vertices"].e)]))]
CONTRACTS = [EqV(2), EqV(3)] + [CrossCheck(D) for D in (2, 3)]
