from contracts.lp import *
DRIVER = "C09.cpp"; DRIVER_SRCS = ["src/utils/System.cpp"]; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["keys are 64-bit and not zero; values are 64-bit words", "tables have at most 2^56 slots; allocation succeeds"]
MM = Kind("LP_MultiMap", (U64, U64), True, "LP_MultiMap")
AR = z3.ArraySort(IDX, IDX)
# entries are slots; an origin is a slot of the previous table, a slot of the merged table (+ 2^60) or the entry just inserted (2^61)
OTHER, NEW = bv(1 << 60), bv(1 << 61)
def used(o, i): return And(ULT(i, size(o)), arr(o)[i] != 0)
def bijection(o, Q, R, dom, key, value):
    j, t = qv("j"), qv("t")
    return [("every entry stems from one of the expected entries", z3.ForAll([j], Implies(used(o, j), And(dom(Q[j]), arr(o)[j] == key(Q[j]), vals(o)[j] == value(Q[j]), R[Q[j]] == j)))),
            ("every expected entry is stored once", z3.ForAll([t], Implies(dom(t), And(used(o, R[t]), arr(o)[R[t]] == key(t), vals(o)[R[t]] == value(t), Q[R[t]] == t))))]
def fresh_map(it, name): return it.ctx.fresh(name, AR)
def define(it, name, f):
    """ghost array given by its elements"""
    a = it.ctx.fresh(name, AR); t = qv("t"); it.ctx.assume(z3.ForAll([t], a[t] == f(t), patterns=[a[t]])); return a

class M(B): pass
def pre_inv(it, o, what, n):
    for l, g in minv(o): it.ctx.oblige("precondition of %s: %s" % (what, l), g, "pre", n)

def probing(me, avoid):
    """probe loop; avoid(A, j, key): what is known of a probed slot"""
    def mk(it, n):
        S = me.S
        def INV(L):
            o = L.this; A, s = arr(o), size(o); h = hk(o, S.key); d = lambda x: DIST(s, h, x); i = L.var("idx")
            return [("table unchanged", same(o, L.this_pre)), ("not past the free slot", ULE(d(i), d(S.z))), ("probed slots", forall(1, lambda j: Implies(And(ULT(j, s), ULT(d(j), d(i))), avoid(A, j, S.key))))]
        def enter(it_):
            o = it_.read(it_.fr["this"]); S.before = (arr(o), vals(o)); S.z = freeslot(it_, o); it_.ctx.assume(d_zero(size(o), hk(o, S.key))); it_.ctx.assume(d_mask(size(o), hk(o, S.key), S.z))
        def variant(L): o = L.this; s = size(o); h = hk(o, S.key); return DIST(s, h, S.z) - DIST(s, h, L.var("idx"))
        def start(L):
            o = L.this; s = size(o); h = hk(o, S.key); i = L.var("idx"); S.at = i & (s - 1)
            for f in (d_step(s, h, i, S.z), d_mask(s, h, i), d_inj(s, h, S.at, S.z), d_mask(s, h, S.at)): it.ctx.assume(f)
            j = qv("j"); it.ctx.assume(z3.ForAll([j], d_inj(s, h, j, S.at), patterns=[DIST(s, h, j)]))
        return LoopSpec("probe loop", INV, variant=variant, enter=enter, body_start=start)
    return mk

class MContains(M):
    def __init__(self, fname="contains"): B.__init__(self, MM, fname); self.loops = {("contains", 0): probing(self, lambda A, j, k: And(A[j] != 0, A[j] != k))}
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); k = self.key(it, a[0]); self.S = State(this=o, args=a, key=k, o0=copy_val(it.read(o))); return self.S
    def effect(self, it, o, k, r, w):
        i = qv("i"); return [("true: an entry has the key", Implies(r, And(ULT(w, size(o)), arr(o)[w] == k))), ("false: no entry has the key", Implies(Not(r), z3.ForAll([i], Implies(ULT(i, size(o)), arr(o)[i] != k))))]
    def post(self, it, S, r): return self.effect(it, S.o0, S.key, r, getattr(S, "at", bv(0))) + [("table unchanged", same(it.read(S.this), S.o0))]
    modifies = None
    def apply(self, it, this, vals_, f, n=None):
        o = it.read(this); k = it.read(vals_[0]); it.ctx.oblige("precondition of contains: key is not zero", k != 0, "pre", n); pre_inv(it, o, "contains", n)
        r = it.ctx.fresh("contained", z3.BoolSort()); w = it.ctx.fresh("where", IDX)
        for l, g in self.effect(it, o, k, r, w): it.ctx.assume(g)
        return r
class MCount(MContains):
    def __init__(self): B.__init__(self, MM, "count"); self.calls = BASE + [(MM.finder("contains").all, MContains())]
    def post(self, it, S, r):
        i = qv("i"); o = S.o0
        return [("zero exactly for absent keys", (r == 0) == z3.ForAll([i], Implies(ULT(i, size(o)), arr(o)[i] != S.key))), ("zero or one", ULE(r, bv(1)))]

def two(ast, f): return len(AST.params(f)) == 2
def one(ast, f): return len(AST.params(f)) == 1
class MInsert(M):
    def __init__(self): B.__init__(self, MM, "insert", pred=two); self.loops = {("insert", 0): probing(self, lambda A, j, k: A[j] != 0)}
    def pre(self, o): return Or(And(Not(o.f["m_rehashing"]), ULE(size(o), bv(MAXS // 4))), And(o.f["m_rehashing"], ULT(o.f["m_items"] + 1, size(o))))
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); k = self.key(it, a[0]); v = it.read(o); it.ctx.assume(self.pre(v)); self.S = State(this=o, args=a, key=k, val=it.read(a[1]), o0=copy_val(v)); self.S.moved = None; return self.S
    def dom(self, p):
        return lambda t: Or(used(p, t), t == NEW)
    def effect(self, o, p, k, v, r, at, Q, R):
        return [("reports an insertion", r), ("one more entry", o.f["m_items"] == p.f["m_items"] + 1), ("hasher and state kept", And(o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"], o.f["m_rehashing"] == p.f["m_rehashing"])),
                ("grows only when needed", Or(size(o) == size(p), And(Not(p.f["m_rehashing"]), size(o) == 2 * size(p), ULE(size(p), 2 * p.f["m_items"] + 1)))),
                ("without growth, exactly a free slot is taken", Implies(size(o) == size(p), And(ULT(at, size(o)), arr(p)[at] == 0, arr(o) == z3.Store(arr(p), at, k), vals(o) == z3.Store(vals(p), at, v))))] + \
            bijection(o, Q, R, self.dom(p), lambda t: If(t == NEW, k, arr(p)[t]), lambda t: If(t == NEW, v, vals(p)[t]))
    def post(self, it, S, r):
        o = it.read(S.this); p = S.o0; A0, V0 = S.before; at = S.at; s = size(o)
        it.ctx.oblige("lemma: only the found slot changes", And(arr(o) == z3.Store(A0, at, S.key), vals(o) == z3.Store(V0, at, S.val)), "lemma")
        it.ctx.assume(SUM.upd(A0, at, S.key, s))
        mv = S.moved
        Q = define(it, "origin", lambda j: If(j == at, NEW, mv[0][j] if mv else j)); R = define(it, "place", lambda t: If(t == NEW, at, mv[1][t] if mv else t))
        return minv(o) + self.effect(o, p, S.key, S.val, r, at, Q, R)
    modifies = None
    def apply(self, it, this, vals_, f, n=None):
        o = it.read(this); k = it.read(vals_[0]); v = it.read(vals_[1])
        it.ctx.oblige("precondition of insert: key is not zero", k != 0, "pre", n); pre_inv(it, o, "insert", n)
        it.ctx.oblige("precondition of insert: room", self.pre(o), "pre", n)
        p = copy_val(o); it.write(this, it.havoc_val(o, "map")); o = it.read(this)
        r = it.ctx.fresh("inserted", z3.BoolSort()); at = it.ctx.fresh("at", IDX); Q, R = fresh_map(it, "origin"), fresh_map(it, "place")
        for l, g in minv(o) + self.effect(o, p, k, v, r, at, Q, R): it.ctx.assume(g)
        it.last_insert = (at, Q, R)
        return r
MI = MInsert()
MINSERT = (lambda ast: MM.finder("insert", pred=two).all(ast), MI)
class MInsertPair(M):
    def __init__(self): B.__init__(self, MM, "insert", "insert(pair)", pred=one); self.calls = BASE + [MINSERT]
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); p = it.read(a[0]); it.ctx.assume(p.f["first"] != 0); v = it.read(o); it.ctx.assume(MI.pre(v)); return State(this=o, args=a, k=p.f["first"], v=p.f["second"], o0=copy_val(v))
    def post(self, it, S, r):
        at, Q, R = it.last_insert; return minv(it.read(S.this)) + MI.effect(it.read(S.this), S.o0, S.k, S.v, r, at, Q, R)

class MRehash(Filtering, M):
    def __init__(self, flt):
        self.flt = flt; B.__init__(self, MM, "rehash", "rehash with filter" if flt else None, pred=two if flt else one)
        self.loops = {("rehash", 0): self.loop}; self.calls = BASE + [MINSERT, Count.call(SET[1], "count"), Contains.call(SET[1])]
    def setup(self, it, fn):
        o = self.obj(it); S = State(this=o, o0=copy_val(it.read(o)), args=fresh_args(it, fn)); S.n = it.read(S.args[0]); self.filter_arg(it, S, 1)
        it.ctx.assume(And(ULT(S.o0.f["m_items"], S.n), ULE(S.n, bv(MAXS // 2)))); self.S = S; return S
    def effect(self, o, S, Q, R):
        p = S.o0
        return bijection(o, Q, R, lambda t: And(used(p, t), keep(S, arr(p)[t])), lambda t: arr(p)[t], lambda t: vals(p)[t]) + [
            ("hasher kept", And(o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"], Not(o.f["m_rehashing"]))), ("table size", And(ULE(S.n, size(o)), ULT(size(o), 2 * S.n))),
            ("number of entries does not grow", ULE(o.f["m_items"], p.f["m_items"])) if S.flt is not None else ("number of entries unchanged", o.f["m_items"] == p.f["m_items"])]
    def loop(self, it, n):
        S = self.S; p = S.o0; O, N = arr(p), size(p)
        def INV(L):
            o = L.this; i = L.var("i"); done = SUM.S(O, i); Q, R = L.ghost["Q"], L.ghost["R"]
            ok, ov = L.var("oldKeys"), L.var("oldValues")
            return shape(o) + [chain(o), count(o), ("old table kept", And(ok.arrs[0] == O, ok.size == N, Not(ok.null), ov.arrs[0] == vals(p), ov.size == N, Not(ov.null), L.var("oldSize") == N)), ("position", ULE(i, N)),
                ("state", And(o.f["m_rehashing"], size(o) == size(L.this_pre), o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"])),
                ("entries counted so far", ULE(o.f["m_items"], done) if S.flt is not None else o.f["m_items"] == done)] + bijection(o, Q, R, lambda t: And(used(p, t), keep(S, O[t]), ULT(t, i)), lambda t: O[t], lambda t: vals(p)[t])
        def enter(it_):
            o = it_.read(it_.fr["this"]); it_.ctx.assume(And(SUM.zero(O), SUM.zeros(arr(o), size(o)), SUM.zero(arr(o))))
        def start(L):
            i = L.var("i"); it.ctx.assume(And(SUM.step(O, i), SUM.mono(O, i + 1, N), SUM.mono(O, i, N))); it.last_insert = None; S.i = i
        def end(L):
            if it.last_insert is not None:
                at = it.last_insert[0]; it.ghost["Q"] = z3.Store(L.ghost["Q"], at, S.i); it.ghost["R"] = z3.Store(L.ghost["R"], S.i, at)
        z = z3.K(IDX, bv(0))
        return LoopSpec("copy loop", INV, variant=lambda L: N - L.var("i"), enter=enter, body_start=start, body_end=end, ghost={"Q": z, "R": z})
    def post(self, it, S, r):
        it.ctx.assume(SUM.mono(arr(S.o0), size(S.o0), size(S.o0)))
        o = it.read(S.this); return minv(o) + self.effect(o, S, it.ghost["Q"], it.ghost["R"])
    modifies = None
    def apply(self, it, this, vals_, f, n=None):
        o = it.read(this); S = State(o0=copy_val(o), n=it.read(vals_[0])); pre_inv(it, o, "rehash", n)
        it.ctx.oblige("precondition of rehash: the new size exceeds the number of entries", And(ULT(o.f["m_items"], S.n), ULE(S.n, bv(MAXS // 2))), "pre", n)
        self.filter_val(it, S, vals_, 1, n)
        it.write(this, it.havoc_val(o, "map")); o = it.read(this); Q, R = fresh_map(it, "origin"), fresh_map(it, "place")
        for l, g in minv(o) + self.effect(o, S, Q, R): it.ctx.assume(g)
        it.last_rehash = (Q, R)
        if isinstance(it.ctx.runner.con, MInsert): it.ctx.runner.con.S.moved = (Q, R)
        return None
def mrehashc(flt): return (MM.finder("rehash", pred=two if flt else one).all, MRehash(flt))

class MMerge(Filtering, M):
    def __init__(self, flt):
        self.flt = flt; B.__init__(self, MM, "merge", "merge with filter" if flt else None, pred=two if flt else one)
        self.loops = {("merge", 0): self.loop}; self.calls = BASE + [MINSERT, mrehashc(flt), Count.call(SET[1], "count"), Contains.call(SET[1])]
    def setup(self, it, fn):
        o = self.obj(it); S = State(this=o, o0=copy_val(it.read(o)), args=fresh_args(it, fn)); S.args[0] = self.obj(it, "other"); S.q = copy_val(it.read(S.args[0])); self.filter_arg(it, S, 1)
        it.ctx.assume(And(ULE(size(S.o0), bv(MAXS // 64)), ULE(size(S.q), bv(MAXS // 64)))); self.S = S; return S
    def content(self, o, S, Q, R, lim):
        p, q = S.o0, S.q
        def dom(t): return Or(And(used(p, t), keep(S, arr(p)[t])), And(ULE(OTHER, t), ULT(t - OTHER, lim), used(q, t - OTHER), keep(S, arr(q)[t - OTHER])))
        return bijection(o, Q, R, dom, lambda t: If(ULT(t, OTHER), arr(p)[t], arr(q)[t - OTHER]), lambda t: If(ULT(t, OTHER), vals(p)[t], vals(q)[t - OTHER]))
    def loop(self, it, n):
        S = self.S; p, q = S.o0, S.q; O, N = arr(q), size(q); me = self
        def INV(L):
            o = L.this; i = L.var("i")
            return minv(o) + [("other table kept", same(it.read(S.args[0]), q)), ("position", ULE(i, N)), ("state", Not(o.f["m_rehashing"])),
                ("room", And(ULE(o.f["m_items"], p.f["m_items"] + SUM.S(O, i)) if S.flt is not None else o.f["m_items"] == p.f["m_items"] + SUM.S(O, i), ULE(size(o), bv(MAXS // 4)), Or(size(o) == size(L.this_pre), ULE(size(o), 4 * (p.f["m_items"] + q.f["m_items"] + 1)))))] + me.content(o, S, L.ghost["Q"], L.ghost["R"], i)
        def enter(it_):
            it_.ctx.assume(And(SUM.zero(O), SUM.zero(arr(p)))); Q, R = it.last_rehash; it.ghost["Q"] = Q; it.ghost["R"] = R
        def start(L):
            i = L.var("i"); it.ctx.assume(And(SUM.step(O, i), SUM.mono(O, i + 1, N), SUM.mono(O, i, N))); it.last_insert = None; S.i = i
        def end(L):
            if it.last_insert is not None:
                at, Qi, Ri = it.last_insert; Q, R = L.ghost["Q"], L.ghost["R"]; tag = OTHER + S.i
                Qn = define(it, "origin", lambda j: If(Qi[j] == NEW, tag, Q[Qi[j]])); Rn = define(it, "place", lambda t: If(t == tag, Ri[NEW], Ri[R[t]]))
                it.ghost["Q"] = Qn; it.ghost["R"] = Rn
        Q, R = it.last_rehash
        return LoopSpec("merge loop", INV, variant=lambda L: N - L.var("i"), enter=enter, body_start=start, body_end=end, ghost={"Q": Q, "R": R})
    def post(self, it, S, r):
        o = it.read(S.this); return minv(o) + self.content(o, S, it.ghost["Q"], it.ghost["R"], size(S.q)) + ([("number of entries", o.f["m_items"] == S.o0.f["m_items"] + S.q.f["m_items"])] if not self.flt else [])

class MCtor(Ctor):
    def post(self, it, S, r):
        o = it.read(S.this); x = qv("x"); it.ctx.assume(SUM.zeros(arr(o), size(o)))
        return minv(o) + [("empty", And(o.f["m_items"] == 0, z3.ForAll([x], Implies(ULT(x, size(o)), arr(o)[x] == 0)))), ("hasher taken", o.f["m_hasher"].f["a"] == S.h), ("not growing", Not(o.f["m_rehashing"])), ("size", ULE(S.n, size(o)))]
class MMove(M, MoveCtor):
    def post(self, it, S, r):
        o = it.read(S.this); p = S.o0
        return minv(o) + [("same table", And(arr(o) == arr(p), size(o) == size(p), o.f["m_items"] == p.f["m_items"], o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"], Not(o.f["m_rehashing"]), vals(o) == vals(p)))]
class MMoveAssign(M, MoveAssign):
    def post(self, it, S, r): return MMove.post(self, it, S, r) + [("returns the object", same_loc(it, r, S.this))]

# ---- get: the range of entries with the key
class MGet(M):
    def __init__(self): B.__init__(self, MM, "get"); self.loops = {("get", 0): self.loop}
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); k = self.key(it, a[0]); self.S = State(this=o, args=a, key=k, o0=copy_val(it.read(o))); return self.S
    def loop(self, it, n):
        S = self.S
        def INV(L):
            o = L.this; A, s = arr(o), size(o); h = hk(o, S.key); d = lambda x: DIST(s, h, x); i, f, l = L.var("idx"), L.var("firstIdx"), L.var("lastIdx")
            return [("table unchanged", same(o, L.this_pre)), ("positions", And(ULT(f, s), ULT(l, s), d(l) == d(i), l == (i & (s - 1)), ULE(d(f), d(l)), ULE(d(i), d(S.z)))),
                    ("probed slots are used", forall(1, lambda j: Implies(And(ULT(j, s), ULT(d(j), d(l))), A[j] != 0))),
                    ("no entry with the key before the first", And(Or(f == l, A[f] == S.key), forall(1, lambda j: Implies(And(ULT(j, s), ULT(d(j), d(f))), A[j] != S.key)))),
                    ("the key is not zero", S.key != 0)]
        def enter(it_):
            o = it_.read(it_.fr["this"]); S.z = freeslot(it_, o); s, h = size(o), hk(o, S.key)
            for f in (d_zero(s, h), d_mask(s, h, S.z), d_mask(s, h, h), d_zero(s, h & (s - 1)), d_mask(s, h, h & (s - 1)), d_inj(s, h, h & (s - 1), S.z)): it_.ctx.assume(f)
        def start(L):
            o = L.this; s = size(o); h = hk(o, S.key); i, f, l = L.var("idx"), L.var("firstIdx"), L.var("lastIdx"); S.at = i & (s - 1)
            for g in (d_step(s, h, i, S.z), d_step(s, h, l, S.z), d_step(s, h, f, S.z), d_mask(s, h, i), d_mask(s, h, S.at), d_mask(s, h, l), d_inj(s, h, S.at, S.z), d_inj(s, h, l, S.z), d_mask(s, h, l + 1), d_mask(s, h, f + 1), d_mask(s, h, f), d_mask(s, h, i + 1)): it.ctx.assume(g)
            j = qv("j"); it.ctx.assume(z3.ForAll([j], And(d_inj(s, h, j, S.at), d_inj(s, h, j, f)), patterns=[DIST(s, h, j)]))
        def variant(L): o = L.this; s = size(o); h = hk(o, S.key); return DIST(s, h, S.z) - DIST(s, h, L.var("idx"))
        return LoopSpec("probe loop", INV, variant=variant, enter=enter, body_start=start)
    def post(self, it, S, r):
        o = S.o0; A, s = arr(o), size(o); h = hk(o, S.key); d = lambda x: DIST(s, h, x); f, e = r.f["first"], r.f["second"]; i, z = f.f["m_idx"], e.f["m_idx"]; j = qv("j")
        none = And(i == z, z3.ForAll([j], Implies(ULT(j, s), A[j] != S.key)))
        some = And(ULT(i, s), ULT(z, s), f.f["m_bound"] == z, ULE(d(i), d(z)), Or(i == z, A[i] == S.key), z3.ForAll([j], Implies(And(ULT(j, s), A[j] == S.key), And(ULE(d(i), d(j)), ULT(d(j), d(z))))))
        return [("the range covers exactly the slots that can hold the key", Or(none, some)), ("filters by the key", And(f.f["m_filter"] == S.key, e.f["m_filter"] == S.key)),
                ("of this table", z3.BoolVal(f.f["m_container"].lv.c is S.this.c and e.f["m_container"].lv.c is S.this.c)), ("table unchanged", same(it.read(S.this), o))]

class FI(Contract):
    tu = "lp"
    def __init__(self, fname, label=None, **k): self.name = "LP_MultiMap::const_filtered_iterator::%s" % (label or fname); self.find = fn_named(fname, cls="filtered_iterator", pred=lambda ast, f: self.mine(ast, f) and (k.get("pred") is None or k["pred"](ast, f)))
    def mine(self, ast, f): a = ast.spec_args(owner(ast, f)); return bool(a) and isinstance(a[0], Type) and a[0].a[0] == "LP_MultiMap"
    calls = BASE
    def setup(self, it, fn):
        c = LVal(Cell(it.fresh_val(Type("rec", MM.cls, tuple(MM.args)), "table"), "table", None)); v = it.read(c); it.ctx.assume(And(*[g for _, g in minv(v)]))
        o = this_obj(it, "filtered_iterator", it.ast.spec_args(owner(it.ast, fn)), "it"); r = it.read(o); r.f["m_container"] = RefV(c); it.write(o, r)
        S = State(this=o, c=c, v=copy_val(v), args=fresh_args(it, fn)); r = it.read(o); S.i, S.b, S.k = r.f["m_idx"], r.f["m_bound"], r.f["m_filter"]; self.S = S; self.more(it, S); return S
    def more(self, it, S): pass
class FIncr(FI):
    """operator++: the next slot holding the key in probe order, or the bound"""
    def __init__(self): FI.__init__(self, "operator++", pred=lambda ast, f: len(AST.params(f)) == 0); self.loops = {("operator++", 0): self.loop}
    def more(self, it, S):
        v = S.v; S.h = it.ctx.fresh("h", IDX); d = lambda x: DIST(size(v), S.h, x); S.d = d
        it.ctx.assume(And(ULT(S.i, size(v)), ULT(S.b, size(v)), ULT(d(S.i), d(S.b)), S.k != 0))
    def loop(self, it, n):
        S = self.S; v = S.v; A, s, d = arr(v), size(v), S.d
        def INV(L):
            i = L.this.f["m_idx"]
            return [("position", And(ULT(i, s), ULE(d(S.i), d(i)), ULT(d(i), d(S.b)), L.this.f["m_bound"] == S.b, L.this.f["m_filter"] == S.k)), ("table unchanged", same(it.read(S.c), v)),
                    ("skipped slots hold other keys", forall(1, lambda j: Implies(And(ULT(j, s), ULT(d(S.i), d(j)), ULE(d(j), d(i))), A[j] != S.k)))]
        def start_facts(L):
            i = L.this.f["m_idx"]
            for g in (d_step(s, S.h, i, S.b), d_mask(s, S.h, i), d_mask(s, S.h, i + 1), d_mask(s, S.h, S.b), d_inj(s, S.h, (i + 1) & (s - 1), S.b)): it.ctx.assume(g)
            j = qv("j"); it.ctx.assume(z3.ForAll([j], d_inj(s, S.h, j, (i + 1) & (s - 1)), patterns=[d(j)]))
        return LoopSpec("search loop", INV, variant=lambda L: d(S.b) - d(L.this.f["m_idx"]), body_start=start_facts, head=start_facts)
    def post(self, it, S, r):
        A, s, d = arr(S.v), size(S.v), S.d; o = it.read(S.this); i = o.f["m_idx"]
        return [("a slot with the key, or the bound", And(ULT(i, s), Or(i == S.b, A[i] == S.k), ULT(d(S.i), d(i)), ULE(d(i), d(S.b)))), ("no entry with the key is skipped", forall(1, lambda j: Implies(And(ULT(j, s), ULT(d(S.i), d(j)), ULT(d(j), d(i))), A[j] != S.k))),
                ("bound and key kept", And(o.f["m_bound"] == S.b, o.f["m_filter"] == S.k)), ("returns the iterator", same_loc(it, r, S.this)), ("table unchanged", same(it.read(S.c), S.v))]
class FDeref(FI):
    def __init__(self): FI.__init__(self, "operator*")
    def more(self, it, S): it.ctx.assume(ULT(S.i, size(S.v)))
    def post(self, it, S, r): return [("the entry in the slot", And(r.f["first"] == arr(S.v)[S.i], r.f["second"] == vals(S.v)[S.i]))]
class FCmp(FI):
    def __init__(self, op, f): self.f = f; FI.__init__(self, op)
    def more(self, it, S): w = it.read(S.args[0]); w.f["m_container"] = RefV(S.c); it.write(S.args[0], w); S.j = w.f["m_idx"]
    def post(self, it, S, r): return [("compares slots", r == self.f(S.i, S.j))]
MI.calls = BASE + [mrehashc(False)]
CONTRACTS = [HashC(), Pow2P(), DISTL, SUM.lemmas("lp"), Contains(SET[1]), Count(SET[1]), MContains(), MCount(), MI, MInsertPair(), MRehash(False), MRehash(True), MMerge(False), MMerge(True), MCtor(MM), MMove(MM), MMoveAssign(MM), MGet(),
             FIncr(), FDeref(), FCmp("operator==", lambda i, j: i == j), FCmp("operator!=", lambda i, j: i != j)] + iterator_contracts(MM)
