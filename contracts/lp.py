"""Shared theory of the linear-probing tables (LP_Set, LP_Map, LP_MultiMap): probe distance, occupancy count, representation invariant."""
from vf.spec import *
from vf.theory import *
KS = IDX                               # keys are 64-bit words
MAXS = 1 << 56
H = z3.Function("hash", IDX, IDX, IDX)              # value of Hasher{a}(key): some function of a and key
DIST = z3.Function("probe_distance", IDX, IDX, IDX, IDX)   # DIST(S, h, x): steps from slot h to slot x in a table of S slots
def distdef(S, h, x): return DIST(S, h, x) == ((x - h) & (S - 1))
def pow2(S): return And(S != 0, S & (S - 1) == 0)
# statements used as instances; proved once by DISTL
def d_step(S, h, i, z): return Implies(And(pow2(S), ULT(DIST(S, h, i), DIST(S, h, z))), DIST(S, h, (i & (S - 1)) + 1) == DIST(S, h, i) + 1)
def d_inj(S, h, i, j): return Implies(And(pow2(S), ULT(i, S), ULT(j, S), DIST(S, h, i) == DIST(S, h, j)), i == j)
def d_mask(S, h, i): return Implies(pow2(S), And(DIST(S, h, i & (S - 1)) == DIST(S, h, i), ULT(i & (S - 1), S), ULT(DIST(S, h, i), S)))
def d_zero(S, h): return Implies(pow2(S), And(DIST(S, h, h) == 0, DIST(S, h, h & (S - 1)) == 0))
def dist_goals():
    S, h, i, j = [z3.BitVec(n, 64) for n in "Shij"]
    D = lambda *xs: [distdef(S, h, x) for x in xs]
    m = S - 1
    yield "next step", D(i, j, (i & m) + 1), d_step(S, h, i, j)
    yield "slots are determined by their distance", D(i, j), d_inj(S, h, i, j)
    yield "masking keeps the distance", D(i, i & m), d_mask(S, h, i)
    yield "start", D(h, h & m), d_zero(S, h)
DISTL = Lemma("probe distances in a table of 2^k slots", dist_goals); DISTL.tu = "lp"
OCC = z3.Function("occupied", IDX, IDX)
def occ(k): return If(k != 0, bv(1), bv(0))
SUM = ArraySum("occupied slots", IDX, occ); SUM.indicator = True

class HashC(Contract):
    """Hasher::operator(): a deterministic function of the multiplier and the key; the tables are verified for every such function"""
    tu = "lp"; name = "Hasher<uint64_t>::operator()"
    def __init__(self): self.find = fn_named("operator()", cls="Hasher")
    def setup(self, it, fn):
        o = this_obj(it, "Hasher", (U64,)); a = fresh_args(it, fn); return State(this=o, args=a, a=it.read(o).f["a"], x=it.read(a[0]))
    def post(self, it, S, r): return [("a function of multiplier and key", r == S.a * S.x), ("nothing changes", it.read(S.this).f["a"] == S.a)]
    modifies = None
    def apply(self, it, this, vals, f, n=None):
        return H(it.read(this).f["a"], it.read(vals[0]))
class Pow2C(Contract):
    """nextPow2<uint64_t> (contract proved in C03 and again here)"""
    modifies = None
    def apply(self, it, this, vals, f, n=None):
        x = it.read(vals[0]); r = it.ctx.fresh("pow2", IDX)
        it.ctx.oblige("precondition of nextPow2: argument between 1 and 2^63", And(x != 0, ULE(x, bv(1 << 63))), "pre", n)
        it.ctx.assume(And(pow2(r), ULE(x, r), ULT(r, 2 * x))) if True else None
        return r
class Pow2P(Contract):
    tu = "lp"; name = "nextPow2<uint64_t>"; unroll = 70
    def __init__(self): self.find = fn_named("nextPow2", targs=(U64,))
    def setup(self, it, fn):
        a = fresh_args(it, fn); x = it.read(a[0]); it.ctx.assume(And(x != 0, ULE(x, bv(1 << 62)))); return State(this=None, args=a, x=x)
    def post(self, it, S, r): return [("power of two", pow2(r)), ("not below the argument", ULE(S.x, r)), ("less than twice the argument", ULT(r, 2 * S.x))]
HASHC = (fn_named("operator()", cls="Hasher").all, HashC())
POW2C = (fn_named("nextPow2", targs=(U64,)).all, Pow2C())
BASE = [HASHC, POW2C]

def keyfield(o): return o.f["m_array"] if "m_array" in o.f else o.f["m_keys"]
def arr(o): return keyfield(o).arrs[0]
def vals(o): return o.f["m_values"].arrs[0] if "m_values" in o.f else None
def val(o, k): return z3.Select(vals(o), o.ghost["P"][k])
class Kind:
    """one of the table classes"""
    def __init__(self, cls, args, grows, label): self.cls, self.args, self.grows, self.label, self.map = cls, args, grows, label, cls != "LP_Set"; self.multi = cls == "LP_MultiMap"
    def finder(self, name, **k): return fn_named(name, cls=self.cls, cls_args=self.args, **k)
SET = {1: Kind("LP_Set", (U64, 1), True, "LP_Set<growing>"), 0: Kind("LP_Set", (U64, 0), False, "LP_Set<fixed>")}
MAP = Kind("LP_Map", (U64, U64), True, "LP_Map")
def present(o, k): P = o.ghost["P"]; return And(k != 0, ULT(P[k], o.f["m_arraySize"]), z3.Select(arr(o), P[k]) == k)
def size(o): return o.f["m_arraySize"]
def hk(o, k): return H(o.f["m_hasher"].f["a"], k)
def shape(o, maxs=MAXS):
    a = keyfield(o); S = size(o); v = o.f.get("m_values")
    return [("table size is a power of two", And(pow2(S), ULE(S, bv(maxs)))), ("one slot per index", And(Not(a.null), a.size == S, *([Not(v.null), v.size == S] if v is not None else [])))]
def chain(o):
    A, S = arr(o), size(o)
    return ("no free slot before a key on its probe path", forall(2, lambda i, j: Implies(And(ULT(i, S), ULT(j, S), A[i] != 0, ULT(DIST(S, hk(o, A[i]), j), DIST(S, hk(o, A[i]), i))), A[j] != 0)))
def slots(o):
    A, S, P = arr(o), size(o), o.ghost["P"]
    return [("every key has one slot", forall(1, lambda i: Implies(And(ULT(i, S), A[i] != 0), P[A[i]] == i))), chain(o)]
def count(o): return ("number of keys", o.f["m_items"] == SUM.S(arr(o), size(o)))
def inv(o, maxs=MAXS): return shape(o, maxs) + slots(o) + [count(o), ("a slot is free", ULT(o.f["m_items"], size(o)))]
def minv(o, maxs=MAXS):
    """without distinct keys (multimap)"""
    return shape(o, maxs) + [chain(o), count(o), ("a slot is free", ULT(o.f["m_items"], size(o)))]
def newghost(it, o, name="P"): o.ghost["P"] = it.ctx.fresh(name, z3.ArraySort(IDX, IDX))
def freeslot(it, o):
    z = it.ctx.fresh("free", IDX); it.ctx.assume(SUM.witness(arr(o), size(o), z)); return z
def same(o, p): return And(*[o.f[q] == p.f[q] for q in ("m_arraySize", "m_items", "m_rehashing")], o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"], arr(o) == arr(p), keyfield(o).size == keyfield(p).size, *([vals(o) == vals(p)] if vals(o) is not None else []))

class B(Contract):
    tu = "lp"
    def __init__(self, K, fname, label=None, **k):
        self.K, self.fname = K, fname; self.name = "%s::%s" % (K.label, label or fname)
        self.find = K.finder(fname, **k)
    calls = BASE
    def obj(self, it, name="obj", K=None, assume=True):
        K = K or self.K
        o = this_obj(it, K.cls, K.args, name); newghost(it, it.read(o), name + ".where")
        it.ctx.assume(And(*[g for _, g in (minv if K.multi else inv)(it.read(o))])) if assume else None
        return o
    def key(self, it, a): k = it.read(a); it.ctx.assume(k != 0); return k

def probe_loop(me):
    def mk(it, n):
        S = me.S
        def INV(L):
            o = L.this; A, s = arr(o), size(o); h = hk(o, S.key); d = lambda x: DIST(s, h, x)
            i = L.var("idx")
            return [("table unchanged", same(o, L.this_pre)), ("not past the free slot", ULE(d(i), d(S.z))),
                    ("probed slots hold other keys", forall(1, lambda j: Implies(And(ULT(j, s), ULT(d(j), d(i))), And(A[j] != 0, A[j] != S.key))))]
        def enter(it_):
            o = it_.read(it_.fr["this"]); S.before = arr(o); S.z = freeslot(it_, o); it_.ctx.assume(d_zero(size(o), hk(o, S.key)))
            it_.ctx.assume(d_mask(size(o), hk(o, S.key), S.z))
        def variant(L): o = L.this; s = size(o); h = hk(o, S.key); return DIST(s, h, S.z) - DIST(s, h, L.var("idx"))
        def start(L):
            o = L.this; s = size(o); h = hk(o, S.key); i = L.var("idx"); S.at = i & (s - 1)
            w = o.ghost["P"][S.key]
            for f in (d_step(s, h, i, S.z), d_mask(s, h, i), d_inj(s, h, S.at, S.z), d_inj(s, h, S.at, w), d_mask(s, h, S.at)): it.ctx.assume(f)
        def end(L):
            o = L.this; s = size(o); h = hk(o, S.key)
            j = qv("j")
            it.ctx.assume(z3.ForAll([j], d_inj(s, h, j, S.at), patterns=[DIST(s, h, j)]))
        return LoopSpec("probe loop", INV, variant=variant, enter=enter, body_start=start, body_end=end)
    return mk

class Contains(B):
    def __init__(self, K, fname="contains"): B.__init__(self, K, fname); self.loops = {(fname, 0): probe_loop(self)}
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); k = self.key(it, a[0]); self.S = State(this=o, args=a, key=k, o0=copy_val(it.read(o))); return self.S
    def result(self, o, k): return present(o, k)
    def post(self, it, S, r): return [("true exactly for contained keys", r == self.result(S.o0, S.key)), ("table unchanged", same(it.read(S.this), S.o0))]
    modifies = None
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); k = it.read(vals[0])
        it.ctx.oblige("precondition of contains: key is not zero", k != 0, "pre", n)
        for l, g in inv(o): it.ctx.oblige("precondition of contains: " + l, g, "pre", n)
        return self.result(o, k)
    @classmethod
    def call(cls, K, fname="contains"): return (K.finder(fname).all, cls(K, fname))
class Count(Contains):
    """count: contains as a number"""
    def __init__(self, K, fname="count"): B.__init__(self, K, "count"); self.calls = BASE + [Contains.call(K)]
    def result(self, o, k): return If(present(o, k), bv(1), bv(0))
class Get(Contains):
    """LP_Map::get"""
    def __init__(self, K): Contains.__init__(self, K, "get")
    def result(self, o, k): return If(present(o, k), val(o, k), bv(0))
    def post(self, it, S, r): return [("the stored value, zero for absent keys", r == self.result(S.o0, S.key)), ("table unchanged", same(it.read(S.this), S.o0))]

class Insert(B):
    def __init__(self, K): B.__init__(self, K, "insert", pred=lambda ast, f: len(AST.params(f)) == (2 if K.map else 1)); self.loops = {("insert", 0): probe_loop(self)}
    def pre(self, o):
        S = size(o); room = ULT(o.f["m_items"] + 1, S)
        return room if not self.K.grows else Or(Not(o.f["m_rehashing"]), room)
    def bound(self, o): return Or(o.f["m_rehashing"], ULE(size(o), bv(MAXS // 4))) if self.K.grows else z3.BoolVal(True)
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); k = self.key(it, a[0]); v = it.read(o); it.ctx.assume(self.pre(v)); it.ctx.assume(self.bound(v))
        self.S = State(this=o, args=a, key=k, val=it.read(a[1]) if self.K.map else None, o0=copy_val(v)); return self.S
    def effect(self, o, p, k, r, v):
        x = qv("x")
        return ([("reports whether the key is new", r == Not(present(p, k))),
                ("exactly the key is added", z3.ForAll([x], Implies(x != 0, present(o, x) == Or(present(p, x), x == k)))),
                ("size counts the key", o.f["m_items"] == p.f["m_items"] + If(r, bv(1), bv(0))),
                ("hasher and state kept", And(o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"], o.f["m_rehashing"] == p.f["m_rehashing"])),
                ("grows only when needed", Or(size(o) == size(p), And(z3.BoolVal(self.K.grows), Not(p.f["m_rehashing"]), size(o) == 2 * size(p), ULE(size(p), 2 * p.f["m_items"] + 1))))]
             + ([("the key has the value, other keys keep theirs", z3.ForAll([x], Implies(Or(x == k, present(p, x)), val(o, x) == If(x == k, v, val(p, x)))))] if v is not None else []))
    def post(self, it, S, r):
        o = it.read(S.this); p = S.o0
        A = arr(o); s = size(o)
        P0 = o.ghost["P"]
        if z3.is_true(z3.simplify(r)):
            # witness: the key is stored at the slot found
            A0 = S.before; at = S.at
            it.ctx.oblige("lemma: only the found slot changes", A == z3.Store(A0, at, S.key), "lemma")
            it.ctx.assume(SUM.upd(A0, at, S.key, s))
            o.ghost["P"] = z3.Store(P0, S.key, at)
        return inv(o) + self.effect(o, p, S.key, r, S.val)
    # as callee
    modifies = None
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); k = it.read(vals[0]); v = it.read(vals[1]) if self.K.map else None
        it.ctx.oblige("precondition of insert: key is not zero", k != 0, "pre", n)
        for l, g in inv(o): it.ctx.oblige("precondition of insert: " + l, g, "pre", n)
        it.ctx.oblige("precondition of insert: room", self.pre(o), "pre", n)
        it.ctx.oblige("precondition of insert: at most 2^54 slots", self.bound(o), "pre", n)
        p = copy_val(o)
        it.write(this, it.havoc_val(o, "set")); o = it.read(this); r = it.ctx.fresh("inserted", z3.BoolSort())
        for l, g in inv(o) + self.effect(o, p, k, r, v): it.ctx.assume(g)
        return r
def insertc(K): i = Insert(K); return (lambda ast: [f for f in K.finder("insert").all(ast) if len(AST.params(f)) == (2 if K.map else 1)], i)

def keep(S, k):
    """the filter's verdict on a key (S.flt: filter set or None; S.cmp)"""
    if S.flt is None: return z3.BoolVal(True)
    return present(S.flt, k) == S.cmp
def nfilter(K): return 2 if K.map else 3

class Filtering(B):
    """functions with an optional filter parameter at position fpos"""
    def filter_arg(self, it, S, fpos):
        S.flt = None; S.cmp = None
        if self.flt:
            S.args[fpos] = self.obj(it, "filter", K=SET[1]); S.flt = copy_val(it.read(S.args[fpos]))
            S.cmp = it.read(S.args[fpos + 1]) if len(S.args) > fpos + 1 else z3.BoolVal(False)
    def filter_val(self, it, S, vals, fpos, n):
        S.flt = None; S.cmp = None
        if self.flt:
            S.flt = copy_val(it.read(vals[fpos])); S.cmp = it.read(vals[fpos + 1]) if len(vals) > fpos + 1 else z3.BoolVal(False)
            for l, g in inv(S.flt): it.ctx.oblige("precondition: filter: " + l, g, "pre", n)

class Rehash(Filtering):
    """rehash to a new size, optionally keeping only the keys the filter admits"""
    def __init__(self, K, flt):
        self.flt = flt; B.__init__(self, K, "rehash", "rehash with filter" if flt else None, pred=lambda ast, f: len(AST.params(f)) == (nfilter(K) if flt else 1))
        self.loops = {("rehash", 0): self.loop}
        self.calls = BASE + [insertc(K), Count.call(SET[1], "count"), Contains.call(SET[1])]
    def setup(self, it, fn):
        o = self.obj(it); S = State(this=o, o0=copy_val(it.read(o)), args=fresh_args(it, fn)); S.n = it.read(S.args[0]); self.filter_arg(it, S, 1)
        it.ctx.assume(And(ULT(S.o0.f["m_items"], S.n), ULE(S.n, bv(MAXS // 2)))); self.S = S; return S
    def effect(self, o, S):
        x = qv("x"); p = S.o0
        out = [("exactly the admitted keys remain", z3.ForAll([x], Implies(x != 0, present(o, x) == And(present(p, x), keep(S, x))))),
               ("hasher kept", And(o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"], Not(o.f["m_rehashing"]))), ("table size", And(ULE(S.n, size(o)), ULT(size(o), 2 * S.n)))]
        out.append(("number of keys does not grow", ULE(o.f["m_items"], p.f["m_items"])) if S.flt is not None else ("number of keys unchanged", o.f["m_items"] == p.f["m_items"]))
        if self.K.map: out.append(("remaining keys keep their values", z3.ForAll([x], Implies(And(present(p, x), keep(S, x)), val(o, x) == val(p, x)))))
        return out
    def loop(self, it, n):
        S = self.S; p = S.o0; O, N = arr(p), size(p); me = self
        def INV(L):
            o = L.this; i = L.var("i"); x = qv("x")
            done = SUM.S(O, i)
            if me.K.map:
                ok, ov = L.var("oldKeys"), L.var("oldValues"); old = And(ok.arrs[0] == O, ok.size == N, Not(ok.null), ov.arrs[0] == vals(p), ov.size == N, Not(ov.null))
            else: ok = L.var("oldArray"); old = And(ok.arrs[0] == O, ok.size == N, Not(ok.null))
            inp = And(present(p, x), ULT(p.ghost["P"][x], i), keep(S, x))
            return shape(o) + slots(o) + [count(o), ("old table kept", And(old, L.var("oldSize") == N)), ("position", ULE(i, N)),
                ("state", And(o.f["m_rehashing"], size(o) == size(L.this_pre), o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"])),
                ("keys moved so far", z3.ForAll([x], Implies(x != 0, present(o, x) == inp))),
                ("keys counted so far", ULE(o.f["m_items"], done) if S.flt is not None else o.f["m_items"] == done)] + (
                [("values moved so far", z3.ForAll([x], Implies(inp, val(o, x) == val(p, x))))] if me.K.map else [])
        def enter(it_):
            o = it_.read(it_.fr["this"]); newghost(it_, o, "new.where"); it_.ctx.assume(And(SUM.zero(O), SUM.zeros(arr(o), size(o)), SUM.zero(arr(o))))
        def start(L):
            i = L.var("i"); it.ctx.assume(And(SUM.step(O, i), SUM.mono(O, i + 1, N), SUM.mono(O, i, N)))
            k = O[i]
            it.ctx.oblige("lemma: a key in slot i has not been moved before", Implies(And(k != 0, ULT(i, N)), And(present(p, k), p.ghost["P"][k] == i)), "lemma")
        def variant(L): return N - L.var("i")
        return LoopSpec("copy loop", INV, variant=variant, enter=enter, body_start=start)
    def post(self, it, S, r):
        it.ctx.assume(SUM.mono(arr(S.o0), size(S.o0), size(S.o0)))
        o = it.read(S.this); return inv(o) + self.effect(o, S)
    modifies = None
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); S = State(o0=copy_val(o), n=it.read(vals[0]))
        for l, g in inv(o): it.ctx.oblige("precondition of rehash: " + l, g, "pre", n)
        it.ctx.oblige("precondition of rehash: the new size exceeds the number of keys", And(ULT(o.f["m_items"], S.n), ULE(S.n, bv(MAXS // 2))), "pre", n)
        self.filter_val(it, S, vals, 1, n)
        it.write(this, it.havoc_val(o, "set")); o = it.read(this)
        for l, g in inv(o) + self.effect(o, S): it.ctx.assume(g)
        return None
def rehashc(K, flt): return (lambda ast: [f for f in K.finder("rehash").all(ast) if len(AST.params(f)) == (nfilter(K) if flt else 1)], Rehash(K, flt))

class FilterFn(Filtering):
    """filter(set): removes the keys of the set"""
    flt = True
    def __init__(self, K): B.__init__(self, K, "filter"); self.calls = BASE + [rehashc(K, True)]
    def setup(self, it, fn):
        o = self.obj(it); S = State(this=o, o0=copy_val(it.read(o)), args=fresh_args(it, fn)); self.filter_arg(it, S, 0); it.ctx.assume(ULE(size(S.o0), bv(MAXS // 2)))
        return S
    def post(self, it, S, r):
        x = qv("x"); o = it.read(S.this); p = S.o0
        return inv(o) + [("exactly the keys outside the filter remain", z3.ForAll([x], Implies(x != 0, present(o, x) == And(present(p, x), Not(present(S.flt, x))))))]

class Merge(Filtering):
    """merge(other[, filter[, cmp]])"""
    def __init__(self, K, flt):
        self.flt = flt; B.__init__(self, K, "merge", "merge with filter" if flt else None, pred=lambda ast, f: len(AST.params(f)) == (nfilter(K) if flt else 1))
        self.loops = {("merge", 0): self.loop}
        self.calls = BASE + [insertc(K), rehashc(K, flt), Count.call(SET[1], "count"), Contains.call(SET[1])]
    def setup(self, it, fn):
        o = self.obj(it); S = State(this=o, o0=copy_val(it.read(o)), args=fresh_args(it, fn))
        S.args[0] = self.obj(it, "other"); S.q = copy_val(it.read(S.args[0])); self.filter_arg(it, S, 1)
        it.ctx.assume(And(ULE(size(S.o0), bv(MAXS // 64)), ULE(size(S.q), bv(MAXS // 64)))); self.S = S; return S
    def content(self, o, S, x, lim=None):
        p, q = S.o0, S.q
        b = present(q, x) if lim is None else And(present(q, x), ULT(q.ghost["P"][x], lim))
        out = [("exactly the admitted keys of both", z3.ForAll([x], Implies(x != 0, present(o, x) == And(keep(S, x), Or(present(p, x), b)))))]
        if self.K.map: out.append(("values: those of the merged table win", z3.ForAll([x], Implies(And(keep(S, x), Or(present(p, x), b)), val(o, x) == If(b, val(q, x), val(p, x))))))
        return out
    def loop(self, it, n):
        S = self.S; p, q = S.o0, S.q; O, N = arr(q), size(q); me = self
        def INV(L):
            o = L.this; i = L.var("i"); x = qv("x"); q2 = it.read(S.args[0])
            return inv(o) + [("other table kept", same(q2, q)), ("position", ULE(i, N)), ("state", Not(o.f["m_rehashing"])),
                ("room", And(ULE(o.f["m_items"], p.f["m_items"] + SUM.S(O, i)), *([ULE(size(p) + N, size(o))] if S.flt is None else [ULE(2 * (p.f["m_items"] + q.f["m_items"]), size(o)), ULE(1, size(o))]),
                             ULE(size(o), bv(MAXS // 4)), Or(size(o) == size(L.this_pre), ULE(size(o), 4 * (p.f["m_items"] + q.f["m_items"] + 1))))),
                ] + me.content(o, S, x, i)
        def enter(it_):
            it_.ctx.assume(And(SUM.zero(O), SUM.zero(arr(p))))
        def start(L):
            i = L.var("i"); it.ctx.assume(And(SUM.step(O, i), SUM.mono(O, i + 1, N), SUM.mono(O, i, N)))
            k = O[i]
            it.ctx.oblige("lemma: a key in slot i has not been merged before", Implies(And(k != 0, ULT(i, N)), And(present(q, k), q.ghost["P"][k] == i)), "lemma")
        def variant(L): return N - L.var("i")
        return LoopSpec("merge loop", INV, variant=variant, enter=enter, body_start=start)
    def post(self, it, S, r):
        o = it.read(S.this); return inv(o) + self.content(o, S, qv("x"))

class Ctor(B):
    """table of a requested size: empty"""
    def __init__(self, K): B.__init__(self, K, K.cls, "constructor", pred=lambda ast, f: len(AST.params(f)) == 2)
    def setup(self, it, fn):
        o = this_obj(it, self.K.cls, self.K.args); a = fresh_args(it, fn); it.ctx.assume(ULE(it.read(a[0]), bv(MAXS))); return State(this=o, args=a, n=it.read(a[0]), h=it.read(a[1]).f["a"])
    def post(self, it, S, r):
        o = it.read(S.this); newghost(it, o); x = qv("x")
        it.ctx.assume(And(SUM.zeros(arr(o), size(o))))
        return inv(o) + [("empty", z3.ForAll([x], Not(present(o, x)))), ("no keys", o.f["m_items"] == 0), ("hasher taken", o.f["m_hasher"].f["a"] == S.h), ("not growing", Not(o.f["m_rehashing"])), ("size", ULE(S.n, size(o)))]
class MoveCtor(B):
    def __init__(self, K, cls_args=None):
        self.cls_args = K.args; B.__init__(self, K, K.cls, "move constructor", pred=self.ismove)
    def ismove(self, ast, f):
        t = [ast.type_of(p) for p in AST.params(f)]
        return len(t) == 1 and AST.params(f)[0]["type"]["qualType"].endswith("&&") and repr(t[0].a[0]) == repr(Type("rec", self.K.cls, tuple(self.K.args)))
    def setup(self, it, fn):
        o = this_obj(it, self.K.cls, self.K.args, "new"); q = self.obj(it, "other"); return State(this=o, args=[q], o0=copy_val(it.read(q)))
    def post(self, it, S, r):
        o = it.read(S.this); o.ghost["P"] = S.o0.ghost["P"]; p = S.o0
        return inv(o) + [("same table", And(arr(o) == arr(p), size(o) == size(p), o.f["m_items"] == p.f["m_items"], o.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"], Not(o.f["m_rehashing"]), *([vals(o) == vals(p)] if self.K.map else [])))]
class MoveAssign(MoveCtor):
    def __init__(self, K): self.K = K; B.__init__(self, K, "operator=", "move assignment", pred=self.ismove)
    def setup(self, it, fn):
        o = self.obj(it); it.ctx.assume(Not(it.read(o).f["m_rehashing"])); q = self.obj(it, "other"); return State(this=o, args=[q], o0=copy_val(it.read(q)))
    def post(self, it, S, r): return MoveCtor.post(self, it, S, r) + [("returns the object", same_loc(it, r, S.this))]

def getter(K, fname, goal, nparams=0):
    class G(B):
        def __init__(self): B.__init__(self, K, fname, "%s(%s)" % (fname, "index" if nparams else ""), pred=lambda ast, f: len(AST.params(f)) == nparams)
        def setup(self, it, fn):
            o = self.obj(it); a = fresh_args(it, fn); S = State(this=o, args=a, o0=copy_val(it.read(o)), i=it.read(a[0]) if a else None)
            if a: it.ctx.assume(ULT(S.i, size(S.o0)))
            return S
        def post(self, it, S, r): return [(fname, goal(S.o0, r, S.i)), ("table unchanged", same(it.read(S.this), S.o0))]
    return G()
def getters(K):
    at = (lambda o, r, i: And(r.f["first"] == arr(o)[i], r.f["second"] == vals(o)[i])) if K.map else (lambda o, r, i: r == arr(o)[i])
    return [getter(K, "size", lambda o, r, i: r == o.f["m_items"]), getter(K, "empty", lambda o, r, i: r == (o.f["m_items"] == 0)), getter(K, "capacity", lambda o, r, i: r == size(o)),
            getter(K, "empty", lambda o, r, i: r == (arr(o)[i] == 0), 1), getter(K, "at", at, 1)]
def table_contracts(K):
    ins = Insert(K); ins.calls = BASE + [rehashc(K, False)]
    return [Contains(K), Count(K), ins, Rehash(K, False), Rehash(K, True), Merge(K, False), Merge(K, True), Ctor(K), MoveCtor(K), MoveAssign(K)] + getters(K)

class Copy(B):
    def __init__(self, K): B.__init__(self, K, "copy"); self.loops = {("copy", 0): self.loop}
    def setup(self, it, fn):
        o = self.obj(it); self.S = State(this=o, args=[], o0=copy_val(it.read(o))); it.ctx.assume(ULE(size(self.S.o0), bv(MAXS // 2))); return self.S
    def loop(self, it, n):
        p = self.S.o0
        def INV(L):
            i, c = L.var("i"), L.var("c")
            return [("position", ULE(i, size(p))), ("original kept", same(L.this, p)), ("sizes", And(size(c) == size(p), keyfield(c).size == size(p), Not(keyfield(c).null), c.f["m_items"] == p.f["m_items"], c.f["m_hasher"].f["a"] == p.f["m_hasher"].f["a"], Not(c.f["m_rehashing"]))),
                    ("slots copied so far", forall(1, lambda j: Implies(ULT(j, i), arr(c)[j] == arr(p)[j])))]
        return LoopSpec("copy loop", INV, variant=lambda L: size(p) - L.var("i"))
    def post(self, it, S, r):
        p = S.o0; r.ghost["P"] = p.ghost["P"]; it.ctx.assume(SUM.cong(arr(p), arr(r), size(p)))
        return inv(r) + [("same keys in the same slots", And(size(r) == size(p), r.f["m_items"] == p.f["m_items"], forall(1, lambda j: Implies(ULT(j, size(p)), arr(r)[j] == arr(p)[j])))), ("original unchanged", same(it.read(S.this), p)), ("not growing", Not(r.f["m_rehashing"]))]

# ---- iterators: m_idx is a slot index; incrementing moves to the next occupied slot
def next_occ(A, S, frm, r):
    """r is the first occupied slot at or after frm, or S"""
    return And(ULE(r, S), Implies(ULE(frm, S), ULE(frm, r)), Implies(ULT(r, S), A[r] != 0), forall(1, lambda j: Implies(And(ULE(frm, j), ULT(j, r), ULT(j, S)), A[j] == 0)))
class It(Contract):
    tu = "lp"
    def __init__(self, K, fname, label=None, **k):
        self.K = K; self.name = "%s::const_iterator::%s" % (K.label, label or fname); self.find = lambda ast: self.pick(ast, fname, k)
    def pick(self, ast, fname, k):
        fs = [f for f in fn_named(fname, cls="iterator", **k).all(ast) if self.mine(ast, f)]
        if len(fs) != 1: raise ExtractError("%d definitions of iterator::%s" % (len(fs), fname))
        return fs[0]
    def mine(self, ast, f):
        a = ast.spec_args(owner(ast, f))[0]
        return isinstance(a, Type) and a.a[0] == self.K.cls and repr(tuple(a.a[1])) == repr(tuple(self.K.args))
    def setup(self, it, fn):
        t = owner(it.ast, fn); a = it.ast.spec_args(t)
        c = LVal(Cell(it.fresh_val(Type("rec", self.K.cls, tuple(self.K.args)), "table"), "table", None)); v = it.read(c); it.ctx.assume(And(*[g for _, g in shape(v)]))
        o = this_obj(it, "iterator", a, "it"); r = it.read(o)
        return self.more(it, fn, State(this=o, c=c, v=copy_val(v)))
    def bind(self, it, S, S_idx=True):
        r = it.read(S.this); r.f["m_container"] = RefV(S.c)
        it.write(S.this, r)
def itrec(it, lv): return it.read(lv)
class Advance(It):
    def __init__(self, K):
        It.__init__(self, K, "_advance"); self.loops = {("_advance", 0): self.loop0, ("_advance", 1): self.loop1}
        self.calls = BASE
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn); self.bind(it, S); S.i0 = it.read(S.this).f["m_idx"]; S.first = it.read(S.args[0]); it.ctx.assume(ULE(S.i0, size(S.v))); self.S = S; it.ctx.assume(Or(S.first, ULT(S.i0, size(S.v)))); return S
    def mk(self, off):
        S = self.S; A, s = arr(S.v), size(S.v)
        def INV(L):
            i = L.this.f["m_idx"]; frm = S.i0 + bv(off)
            # with the increment in the condition the loop head sees the slot before the next candidate
            return [("position", And(ULE(S.i0, i), ULE(i, s) if not off else ULT(i, s))), ("skipped slots are free", forall(1, lambda j: Implies(And(ULE(frm, j), ULE(j, i) if off else ULT(j, i)), A[j] == 0)))]
        return LoopSpec("search loop", INV, variant=lambda L: s - L.this.f["m_idx"])
    def loop0(self, it, n): return self.mk(0)
    def loop1(self, it, n): return self.mk(1)
    def effect(self, it, S, r): return [("the next occupied slot", next_occ(arr(S.v), size(S.v), If(S.first, S.i0, S.i0 + 1), r))]
    def post(self, it, S, r): return self.effect(it, S, it.read(S.this).f["m_idx"]) + [("table unchanged", same(it.read(S.c), S.v))]
    modifies = None
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); c = o.f["m_container"]; v = it.read(c.lv); i0 = o.f["m_idx"]; first = it.read(vals[0]) if isinstance(vals[0], LVal) else vals[0]
        it.ctx.oblige("precondition of _advance: inside the table", And(ULE(i0, size(v)), Or(first, ULT(i0, size(v)))), "pre", n)
        for l, g in shape(v): it.ctx.oblige("precondition of _advance: " + l, g, "pre", n)
        r = it.ctx.fresh("next", IDX); S = State(v=v, first=first, i0=i0)
        for l, g in self.effect(it, S, r): it.ctx.assume(g)
        w = it.read(this); w.f["m_idx"] = r; it.write(this, w)
        return None
    def finder(self): return lambda ast: [f for f in fn_named("_advance", cls="iterator").all(ast) if self.mine(ast, f)]
class Incr(It):
    """operator++: moves to the next occupied slot"""
    def __init__(self, K, post):
        self.pf = post; It.__init__(self, K, "operator++", "operator++(int)" if post else "operator++", pred=lambda ast, f: len(AST.params(f)) == (1 if post else 0)); a = Advance(K); self.calls = BASE + [(a.finder(), a)]
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn); self.bind(it, S); S.i0 = it.read(S.this).f["m_idx"]; it.ctx.assume(ULT(S.i0, size(S.v))); return S
    def post(self, it, S, r):
        out = [("the next occupied slot", next_occ(arr(S.v), size(S.v), S.i0 + 1, it.read(S.this).f["m_idx"]))]
        return out + ([("returns the old position", r.f["m_idx"] == S.i0)] if self.pf else [("returns the iterator", same_loc(it, r, S.this))])
class ItCtor(It):
    """iterator(container, index, search)"""
    def __init__(self, K): It.__init__(self, K, "iterator", "iterator", pred=lambda ast, f: len(AST.params(f)) == 3); a = Advance(K); self.calls = BASE + [(a.finder(), a)]
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn, values=None); S.args[0] = S.c; S.i0 = it.read(S.args[1]); S.first = it.read(S.args[2]); it.ctx.assume(ULE(S.i0, size(S.v))); return S
    def post(self, it, S, r):
        i = it.read(S.this).f["m_idx"]
        return [("the given slot, or the first occupied one from it", If(S.first, next_occ(arr(S.v), size(S.v), S.i0, i), i == S.i0)), ("refers to the container", z3.BoolVal(it.read(S.this).f["m_container"].lv.c is S.c.c))]
class ItCmp(It):
    def __init__(self, K, op, f): self.f = f; It.__init__(self, K, op)
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn); self.bind(it, S); w = it.read(S.args[0]); w.f["m_container"] = RefV(S.c); it.write(S.args[0], w); S.i, S.j = it.read(S.this).f["m_idx"], w.f["m_idx"]; return S
    def post(self, it, S, r): return [("compares slots", r == self.f(S.i, S.j))]
class Deref(It):
    def __init__(self, K): It.__init__(self, K, "operator*")
    def more(self, it, fn, S):
        S.args = []; self.bind(it, S); S.i = it.read(S.this).f["m_idx"]; it.ctx.assume(ULT(S.i, size(S.v))); return S
    def post(self, it, S, r):
        if isinstance(r, LVal): r = it.read(r)
        return [("the element in the slot", And(r.f["first"] == arr(S.v)[S.i], r.f["second"] == vals(S.v)[S.i]) if vals(S.v) is not None else r == arr(S.v)[S.i])]
class BeginEnd(B):
    """begin/end: the first occupied slot / one past the last slot"""
    def __init__(self, K, fname): B.__init__(self, K, fname); a = Advance(K); self.calls = BASE + [(a.finder(), a)]
    def setup(self, it, fn): o = self.obj(it); return State(this=o, args=[], o0=copy_val(it.read(o)))
    def post(self, it, S, r):
        i = r.f["m_idx"]; o = S.o0
        return [("position", next_occ(arr(o), size(o), bv(0), i) if self.fname == "begin" else i == size(o)), ("of this table", z3.BoolVal(r.f["m_container"].lv.c is S.this.c))]
def iterator_contracts(K):
    return [Advance(K), Incr(K, False), Incr(K, True), ItCtor(K), Deref(K), BeginEnd(K, "begin"), BeginEnd(K, "end")] + [
        ItCmp(K, op, f) for op, f in (("operator==", lambda i, j: i == j), ("operator!=", lambda i, j: i != j), ("operator<", ULT), ("operator<=", ULE))]
class SetEq(B):
    """operator==: same size and every key of the other contained"""
    def __init__(self, K):
        B.__init__(self, K, "operator=="); self.loops = {("operator==", 0): self.loop}
        a, i = Advance(SET[1]), Incr(SET[1], False); self.calls = BASE + [Contains.call(K), (a.finder(), a)]
    def setup(self, it, fn):
        o = self.obj(it); q = self.obj(it, "other", K=SET[1]); self.S = State(this=o, args=[q], o0=copy_val(it.read(o)), q=copy_val(it.read(q))); return self.S
    def loop(self, it, n):
        S = self.S; A, s = arr(S.q), size(S.q)
        def INV(L):
            b, e = L.range_it(); i = b.f["m_idx"]
            return [("tables kept", And(same(L.this, S.o0), same(it.read(S.args[0]), S.q))), ("position", And(ULE(i, s), e.f["m_idx"] == s, Implies(ULT(i, s), A[i] != 0))),
                    ("keys so far are contained", forall(1, lambda j: Implies(And(ULT(j, i), ULT(j, s), A[j] != 0), present(S.o0, A[j]))))]
        return LoopSpec("comparison loop", INV, variant=lambda L: s - L.range_it()[0].f["m_idx"])
    def post(self, it, S, r):
        x = qv("x"); sub = z3.ForAll([x], Implies(present(S.q, x), present(S.o0, x)))
        return [("true exactly for sets of the same size with every key contained", r == And(S.o0.f["m_items"] == S.q.f["m_items"], sub)), ("tables unchanged", And(same(it.read(S.this), S.o0), same(it.read(S.args[0]), S.q)))]
class InsertPair(Insert):
    """insert(pair): the same as insert(first, second)"""
    def __init__(self, K): B.__init__(self, K, "insert", "insert(pair)", pred=lambda ast, f: len(AST.params(f)) == 1); self.calls = BASE + [insertc(K)]
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); p = it.read(a[0]); k, v = p.f["first"], p.f["second"]; it.ctx.assume(k != 0); w = it.read(o); it.ctx.assume(self.pre(w)); it.ctx.assume(self.bound(w))
        self.S = State(this=o, args=a, key=k, val=v, o0=copy_val(w)); return self.S
    def post(self, it, S, r):
        o = it.read(S.this); return inv(o) + self.effect(o, S.o0, S.key, r, S.val)
