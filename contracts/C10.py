from vf.spec import *
from vf.theory import *
from contracts import C03
DRIVER = "C10.cpp"; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["identifiers are below 2^32 (the key type of the set)", "Concurrent_Bit_Set is verified for single-threaded histories", "allocation of the blocks succeeds"]
K = U32; EL = z3.BitVecSort(32)
POP = z3.Function("set_bits", EL, IDX)
def popdef(x):
    b = [z3.ZeroExt(63, z3.Extract(i, i, x)) for i in range(32)]
    while len(b) > 1: b = [b[i] + b[i+1] for i in range(0, len(b), 2)]
    return POP(x) == b[0]
def onebit(x, k, kk):
    """setting / clearing bit k"""
    m = bv(1, 32) << kk; has = z3.LShR(x, kk) & 1 == 1
    return And(POP(x | m) == POP(x) + If(has, bv(0), bv(1)), POP(x & ~m) == POP(x) - If(has, bv(1), bv(0)))
def onebit_goals():
    x = z3.BitVec("x", 32)
    for k in range(32):
        kk = bv(k, 32); m = 1 << k
        yield "number of set bits after setting / clearing bit %d" % k, [popdef(x), popdef(x | m), popdef(x & ~bv(m, 32))], onebit(x, k, kk)
ONEBIT = Lemma("one bit changes the number of set bits by one", onebit_goals); ONEBIT.tu = "bitset"
SUM = ArraySum("elements", EL, POP)
class PopC:
    """contract of popcount<unsigned> (proved in this check): the number of set bits"""
    modifies = None
    def apply(self, it, this, vals, f, n=None):
        x = it.read(vals[0]); it.ctx.assume(popdef(x)); return z3.Extract(31, 0, POP(x))
POPC = [(fn_named("popcount", targs=(U32,)).all, PopC())]
def arr(o): return o.f["m_array"].arrs[0]
def wf(o):
    a = o.f["m_array"]; lb, ub, n = o.f["m_lowerBound"], o.f["m_upperBound"], o.f["m_arraySize"]
    return [("bounds are whole words", And(ULE(lb, ub), ULE(ub, bv(1 << 32)), lb & 31 == 0, ub & 31 == 0, n == z3.LShR(ub - lb, 5))), ("one cell per word", And(Not(a.null), a.size == n))]
def count(o): return ("count of present identifiers", o.f["m_ones"] == SUM.S(arr(o), o.f["m_arraySize"]))
def word(o, i): return z3.Select(arr(o), z3.LShR(i - o.f["m_lowerBound"], 5))
def present(o, i):
    return And(ULE(o.f["m_lowerBound"], i), ULT(i, o.f["m_upperBound"]), z3.LShR(word(o, i), z3.Extract(31, 0, i) & 31) & 1 == 1)

class B(Contract):
    tu = "bitset"; calls = POPC
    def __init__(self, cls, fname, **k): self.cls, self.fname = cls, fname; self.name = cls + "::" + fname; self.find = fn_named(fname, cls=cls, **k)
    def obj(self, it, name="obj", cnt=True):
        o = this_obj(it, self.cls, (), name); v = it.read(o)
        for l, g in wf(v) + ([count(v)] if cnt else []): it.ctx.assume(g)
        return o
    def anyid(self, it): return it.ctx.fresh("other", IDX)

class Single(B):
    """insert / erase / contains / testAndSet / testAndUnset / isSet on one identifier"""
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); v = copy_val(it.read(o)); i = z64(it.read(a[0]))
        self.writes = self.fname in ("insert", "erase", "testAndSet", "testAndUnset")
        if self.writes: it.ctx.assume(And(ULE(v.f["m_lowerBound"], i), ULT(i, v.f["m_upperBound"])))
        return State(this=o, args=a, v=v, i=i)
    def post(self, it, S, r):
        w = it.read(S.this); v, i = S.v, S.i; was = present(v, i); r = to_bool(r)
        out = [("result", r == (Not(was) if self.fname in ("insert",) else was))]
        j = self.anyid(it); ins = self.fname in ("insert", "testAndSet")
        if self.writes:
            b = z3.LShR(i - v.f["m_lowerBound"], 5); x, y = z3.Select(arr(v), b), z3.Select(arr(w), b)
            kk = z3.Extract(31, 0, i) & 31; m = bv(1, 32) << kk
            it.ctx.assume(onebit(x, None, kk))     # proved lemma
            it.ctx.oblige("lemma: only one bit changes", y == (x | m if ins else x & ~m), "lemma")
            it.ctx.assume(And(SUM.upd(arr(v), b, y, v.f["m_arraySize"])))     # proved lemma
            it.ctx.oblige("lemma: only one word changes", arr(w) == z3.Store(arr(v), b, y), "lemma")
            out += [("exactly this identifier changes", present(w, j) == If(j == i, z3.BoolVal(ins), present(v, j)))] + wf(w) + [count(w)]
        else: out += [("nothing changes", And(arr(w) == arr(v), w.f["m_ones"] == v.f["m_ones"]))]
        return out

class Counts(B):
    def setup(self, it, fn):
        o = self.obj(it); return State(this=o, args=fresh_args(it, fn))
    def post(self, it, S, r):
        v = it.read(S.this); n = SUM.S(arr(v), v.f["m_arraySize"]); cap = v.f["m_upperBound"] - v.f["m_lowerBound"]
        e = {"ones": n, "size": n, "zeros": cap - n, "zero": n == 0, "empty": n == 0, "one": n == cap, "lowerBound": v.f["m_lowerBound"], "upperBound": v.f["m_upperBound"], "capacity": v.f["m_upperBound"]}[self.fname]
        return [("value", (to_bool(r) if z3.is_bool(e) else r) == e)]

class Ctor(Contract):
    tu = "bitset"
    def __init__(self, cls): self.cls = cls; self.name = cls + "::" + cls
    def find(self, ast):
        fs = [f for f in fn_named(self.cls, cls=self.cls).all(ast) if len(AST.params(f)) == 3]
        if len(fs) != 1: raise ExtractError("constructor")
        return fs[0]
    def setup(self, it, fn):
        t = Type("rec", self.cls, ()); o = LVal(Cell(RecV(t, {}), "obj", t)); a = fresh_args(it, fn)
        lo, hi = it.read(a[0]), it.read(a[1]); it.ctx.assume(And(ULE(lo, hi), ULE(hi, bv(1 << 32)))); it.ctx.assume(it.read(a[2]))
        return State(this=o, args=a, lo=lo, hi=hi)
    def post(self, it, S, r):
        v = it.read(S.this); j = it.ctx.fresh("other", IDX); z = bv(0, 32); it.ctx.assume(popdef(z)); it.ctx.assume(SUM.zeros(arr(v), v.f["m_arraySize"]))
        return wf(v) + [("covers the requested range", And(ULE(v.f["m_lowerBound"], S.lo), ULE(S.hi, v.f["m_upperBound"]))), ("empty", Not(present(v, j))), count(v)]

class Bulk(B):
    """merge / mergeFilter / filter / copy / resize / batchSet"""
    def __init__(self, fname, loops, **k):
        B.__init__(self, "Bit_Set", fname, **k); self.loops = {(fname, i): (lambda it, n, i=i: self.loop(it, n, i)) for i in range(loops)}
    def setup(self, it, fn):
        o = self.obj(it); S = State(this=o, v=copy_val(it.read(o)), x=[])
        if self.fname in ("merge", "mergeFilter", "filter", "copy"):
            S.args = []
            for k, p in enumerate(AST.params(fn)): c = self.obj(it, "other%d" % k); S.args.append(c); S.x.append(copy_val(it.read(c)))
            if self.fname == "mergeFilter": pass
        else:
            S.args = fresh_args(it, fn); S.y = [z64(it.read(x)) for x in S.args]
            if self.fname == "resize": it.ctx.assume(And(ULE(S.y[0], S.y[-1]), ULE(S.y[-1], bv(1 << 32))))
            else:
                f, t = S.y; v = S.v
                it.ctx.assume(And(ULE(v.f["m_lowerBound"], f), ULT(f, t), ULE(t, v.f["m_upperBound"])))
                it.ctx.assume(forall(1, lambda k: Implies(ULT(k, v.f["m_arraySize"]), z3.Select(arr(v), k) == 0)))
        S.T = it.ctx.fresh("wanted", z3.ArraySort(IDX, EL))      # ghost: the wanted words, defined by target()
        self.S = S; return S
    def defT(self, it, k, lb): it.ctx.assume(z3.Select(self.S.T, k) == self.target(k, lb))
    def target(self, k, lb):
        """content of the word that starts at identifier i"""
        S = self.S
        def w(o, i): return If(And(ULE(o.f["m_lowerBound"], i), ULT(i, o.f["m_upperBound"])), word(o, i), bv(0, 32))
        i = lb + (k << 5)
        if self.fname == "merge": return w(S.v, i) | w(S.x[0], i)
        if self.fname == "mergeFilter": return (w(S.v, i) | w(S.x[0], i)) & ~w(S.x[1], i)
        if self.fname == "filter": return w(S.v, i) & ~w(S.x[0], i)
        if self.fname == "copy": return w(S.x[0], i)
        if self.fname == "resize": return w(S.v, i)
    def loop(self, it, n, ix):
        S = self.S; fn = self.fname; me = self
        def inv(L):
            o = L.this; lb, ub, N = o.f["m_lowerBound"], o.f["m_upperBound"], o.f["m_arraySize"]
            p = L.this_pre; i = L.var("i")
            fixed = [("bounds fixed in the loop", And(*[o.f[q] == p.f[q] for q in ("m_lowerBound", "m_upperBound", "m_arraySize")]))] + wf(o)
            def done(b, t): return ("words already processed", forall(1, lambda k: Implies(ULT(k, b), z3.Select(arr(o), k) == t(k))))
            if fn in ("merge", "mergeFilter"):
                b = z3.LShR(i - lb, 5)
                return fixed + [("position", And(ULE(lb, i), ULE(i, ub), i & 31 == 0)), done(b, lambda k: z3.Select(S.T, k)), ("count so far", o.f["m_ones"] == SUM.S(arr(o), b))]
            if fn == "filter":
                b = z3.LShR(i - lb, 5); pv = S.v
                return fixed + [("position", And(ULE(lb, i), Or(ULE(i, ub), i == S.x[0].f["m_lowerBound"]), i & 31 == 0, ULE(S.x[0].f["m_lowerBound"], i))),
                    ("words filtered so far", forall(1, lambda k: Implies(ULT(k, N), z3.Select(arr(o), k) == If(And(ULE(S.x[0].f["m_lowerBound"], lb + (k << 5)), ULT(lb + (k << 5), i)), z3.Select(S.T, k), z3.Select(arr(pv), k))))), count(o)]
            if fn == "copy": return fixed + [("position", ULE(i, N)), done(i, lambda k: z3.Select(arr(S.x[0]), k)), ("count unchanged", o.f["m_ones"] == p.f["m_ones"])]
            if fn == "resize":
                lim = [z3.LShR(S.v.f["m_lowerBound"] - lb, 5), z3.LShR(S.v.f["m_upperBound"] - lb, 5), N][ix]; lo = [bv(0), z3.LShR(S.v.f["m_lowerBound"] - lb, 5), z3.LShR(S.v.f["m_upperBound"] - lb, 5)][ix]
                return fixed + [("position", And(ULE(lo, i), ULE(i, lim))), done(i, lambda k: z3.Select(S.T, k)), ("count unchanged", o.f["m_ones"] == S.v.f["m_ones"])]
            if fn == "batchSet":
                fb, tb = L.var("fromBlock"), L.var("toBlock")
                return fixed + [("position", And(ULT(fb, i), Or(ULE(i, tb), i == fb + 1))), ("words set so far", forall(1, lambda k: Implies(ULT(k, N), z3.Select(arr(o), k) == If(k == fb, z3.Select(arr(p), fb), If(And(ULT(fb, k), ULT(k, i)), bv(0xFFFFFFFF, 32), bv(0, 32))))))]
        def variant(L): return (bv(1 << 33) - L.var("i"))
        def start(L): L.a0 = arr(L.this); L.i0 = L.var("i")
        def end(L):
            o = L.this; lb = o.f["m_lowerBound"]; b = z3.LShR(L.i0 - lb, 5)
            if fn in ("copy", "resize"): b = L.i0
            if fn in ("batchSet", "copy"): return
            me.defT(L.it, b, lb); v = z3.Select(arr(o), b); N = o.f["m_arraySize"]
            if fn in ("merge", "mergeFilter"):
                L.it.ctx.oblige("lemma: one word written", arr(o) == z3.Store(L.a0, b, v), "lemma")
                L.it.ctx.oblige("lemma: next position", And(z3.LShR(L.var("i") - lb, 5) == b + 1, b + 1 != 0, lb + (b << 5) == L.i0), "lemma")
                L.it.ctx.oblige("lemma: written word", v == z3.Select(S.T, b), "lemma")
                L.it.ctx.assume(And(SUM.upd(L.a0, b, v, b), SUM.step(arr(o), b)))
            if fn == "filter":
                L.it.ctx.oblige("lemma: written word", v == z3.Select(S.T, b), "lemma")
                L.it.ctx.oblige("lemma: one word written", arr(o) == z3.Store(L.a0, b, v), "lemma")
                L.it.ctx.assume(SUM.upd(L.a0, b, v, N))
        def hints(L): return []
        def enter(it_):
            if fn in ("merge", "mergeFilter"): it_.ctx.assume(SUM.zero(arr(it_.read(it_.fr["this"]))))
        return LoopSpec("word loop %d" % ix, inv, variant=variant, body_start=start, body_end=end, enter=enter)
    def post(self, it, S, r):
        o = it.read(S.this); j = self.anyid(it); v = S.v; P = lambda o: present(o, j)
        x = S.x
        if self.fname not in ("batchSet", "copy"):
            lb = o.f["m_lowerBound"]; b = z3.LShR(j - lb, 5); self.defT(it, b, lb)
            if self.fname == "filter": it.ctx.oblige("lemma: words outside the filter's range stay", Implies(ULT(b, o.f["m_arraySize"]), z3.Select(arr(o), b) == self.target(b, lb)), "lemma")
            else: it.ctx.oblige("lemma: word of the identifier", Implies(ULT(b, o.f["m_arraySize"]), z3.Select(arr(o), b) == self.target(b, lb)), "lemma")
        # ranges are unions / unchanged
        lbs = [v.f["m_lowerBound"]]; ubs = [v.f["m_upperBound"]]
        if self.fname in ("merge", "mergeFilter"): lbs.append(x[0].f["m_lowerBound"]); ubs.append(x[0].f["m_upperBound"])
        e = {"merge": lambda: Or(P(v), P(x[0])), "mergeFilter": lambda: And(Or(P(v), P(x[0])), Not(P(x[1]))), "filter": lambda: And(P(v), Not(P(x[0]))), "copy": lambda: P(x[0]), "resize": lambda: P(v),
             "batchSet": lambda: And(ULE(S.y[0], j), ULT(j, S.y[1]))}[self.fname]()
        if self.fname == "copy": it.ctx.assume(SUM.cong(arr(o), arr(x[0]), o.f["m_arraySize"]))
        out = wf(o) + [("exactly the expected identifiers are present", P(o) == e)]
        if self.fname not in ("resize", "batchSet"): out.append(count(o))
        return out

CONTRACTS = [ONEBIT, SUM.lemmas("bitset")]
pc = C03.H("popcount", 32); pc.tu = "bitset"; CONTRACTS.append(pc)
for cls in ("Bit_Set", "Concurrent_Bit_Set"):
    CONTRACTS += [Single(cls, f) for f in ("testAndSet", "testAndUnset", "isSet", "insert", "erase", "contains")]
    CONTRACTS += [Single(cls, f, nparams=1) for f in ("count",)] if False else []
    CONTRACTS += [Counts(cls, f, nparams=0) for f in ("ones", "size", "zeros", "zero", "empty", "one", "lowerBound", "upperBound", "capacity")]
    CONTRACTS.append(Ctor(cls))
CONTRACTS += [Bulk("merge", 1), Bulk("mergeFilter", 1), Bulk("filter", 1), Bulk("copy", 1), Bulk("resize", 3, nparams=2), Bulk("batchSet", 1)]
