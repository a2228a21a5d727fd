from vf.spec import *
TUS = ["blocked"]
DRIVER = "C05.cpp"
CAPMAX = 1 << 56
ASSUMPTIONS = ["allocation of a block succeeds; requested capacities are at most 2^56 elements", "block sizes 1, 7 and 512 are verified as separate template instances (64-bit elements; the code is parametric in the element type)",
               "Concurrent_BlockedArray is verified for single-threaded histories"]

def wf(o, BS):
    """representation invariant: one allocated block of BS cells for every counted block"""
    b, n = o.f["m_blocks"], o.f["m_nBlocks"]
    nulls, sizes = b.arrs[2], b.arrs[1]
    return [("one block per counted block", And(b.size == n, ULE(n, bv(CAPMAX // BS + 1)))),
            ("every block is allocated with the block size", forall(1, lambda k: Implies(ULT(k, n), And(Not(nulls[k]), sizes[k] == BS))))]
def kept(o, o0):
    b, n0 = o.f["m_blocks"], o0.f["m_nBlocks"]
    return [("capacity does not shrink", ULE(n0, o.f["m_nBlocks"])),
            ("stored values unchanged", forall(1, lambda k: Implies(ULT(k, n0), b.arrs[0][k] == o0.f["m_blocks"].arrs[0][k])))]

class B(Contract):
    tu = "blocked"
    def __init__(self, cls, BS):
        self.cls, self.BS = cls, BS
        self.name = "%s<.,%d>::%s" % (cls, BS, self.fname)
    def obj(self, it):
        o = this_obj(it, self.cls, (U64, self.BS))
        for l, g in wf(it.read(o), self.BS): it.ctx.assume(g)
        return o
    def m(self, name, **k): return fn_named(name, cls=self.cls, cls_args=(U64, self.BS), **k)
    def cap(self, o): return o.f["m_nBlocks"] * self.BS

class Reserve(B):
    fname = "reserve"
    def __init__(self, cls, BS):
        B.__init__(self, cls, BS); self.find = self.m("reserve"); self.loops = {("reserve", 0): self.loop}
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); it.ctx.assume(ULE(it.read(a[0]), bv(CAPMAX)))
        return State(this=o, args=a, o0=copy_val(it.read(o)), c0=it.read(a[0]))
    def loop(self, it, n):
        BS = self.BS
        def inv(L):
            o = L.this
            # growth never goes further than needed
            return wf(o, BS)[1:] + [("block count", And(o.f["m_blocks"].size == o.f["m_nBlocks"], ULE(o.f["m_nBlocks"], bv(CAPMAX // BS + 1))))] + kept(o, L.this_pre)
        def variant(L): return bv(CAPMAX // BS + 2) - L.this.f["m_nBlocks"]
        return LoopSpec("growth loop", inv, variant=variant)
    def post(self, it, S, r):
        o = it.read(S.this)
        return wf(o, self.BS) + kept(o, S.o0) + [("capacity reaches the request", ULE(S.c0, self.cap(o)))]
    # as callee
    modifies = None
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); c = it.read(vals[0])
        for l, g in wf(o, self.BS): it.ctx.oblige("precondition of reserve: " + l, g, "pre", n)
        it.ctx.oblige("precondition of reserve: request at most 2^56", ULE(c, bv(CAPMAX)), "pre", n)
        o0 = copy_val(o)
        it.write(this, it.havoc_val(o, "obj"))
        o = it.read(this)
        for l, g in wf(o, self.BS) + kept(o, o0) + [("", ULE(c, self.cap(o)))]: it.ctx.assume(g)
        return None

class Ctor(B):
    fname = "constructor"
    def __init__(self, cls, BS):
        B.__init__(self, cls, BS); self.find = fn_named(cls, cls=cls, cls_args=(U64, BS), pred=lambda ast, f: "&&" not in f["type"]["qualType"])
        self.calls = [(self.m("reserve").all, Reserve(cls, BS))]
    def setup(self, it, fn):
        t = Type("rec", self.cls, (U64, self.BS))
        o = LVal(Cell(RecV(t, {}), "obj", t)); a = fresh_args(it, fn); it.ctx.assume(ULE(it.read(a[0]), bv(CAPMAX)))
        return State(this=o, args=a, c0=it.read(a[0]))
    def post(self, it, S, r):
        o = it.read(S.this)
        return wf(o, self.BS) + [("capacity reaches the request", ULE(S.c0, self.cap(o)))]

class Move(B):
    fname = "move constructor"
    def __init__(self, cls, BS):
        B.__init__(self, cls, BS); self.find = fn_named(cls, cls=cls, cls_args=(U64, BS), pred=lambda ast, f: "&&" in f["type"]["qualType"])
    def setup(self, it, fn):
        t = Type("rec", self.cls, (U64, self.BS))
        o = LVal(Cell(RecV(t, {}), "obj", t)); src = self.obj(it)
        return State(this=o, args=[src], o0=copy_val(it.read(src)))
    def post(self, it, S, r):
        o = it.read(S.this)
        return wf(o, self.BS) + kept(o, S.o0) + [("same capacity", o.f["m_nBlocks"] == S.o0.f["m_nBlocks"])]

class Access(B):
    """element access: in bounds for every index below the capacity, one cell per index, same cell through all accessors,
    before and after growth; checked access throws exactly at and beyond the capacity"""
    def __init__(self, cls, BS, chk, const):
        self.chk, self.const = chk, const
        self.fname = ("at" if chk else "operator[]") + (" const" if const else "")
        B.__init__(self, cls, BS)
        self.find = self.m("at" if chk else "operator[]", const=const)
        self.calls = [(self.m("reserve").all, Reserve(cls, BS))]
    def setup(self, it, fn):
        o = self.obj(it); i = it.ctx.fresh("idx", IDX)
        S = State(this=o, args=[LVal(Cell(i, "idx"))], i=i, cap=self.cap(it.read(o)), o0=copy_val(it.read(o)))
        if not self.chk: it.ctx.assume(ULT(i, S.cap))
        return S
    def throws(self, it, S, e):
        if not self.chk: return None
        return [("throws only at or beyond the capacity", ULE(S.cap, S.i)), ("throws std::out_of_range", z3.BoolVal(e.t == Type("rec", "std::out_of_range", ())))]
    def post(self, it, S, r):
        if not isinstance(r, LVal): raise Unsupported("reference result")
        out = [("no result at or beyond the capacity", ULT(S.i, S.cap)),
               ("object unchanged", And(it.read(S.this).f["m_nBlocks"] == S.o0.f["m_nBlocks"]))]
        # the plain mutable accessor is the reference view of the cells
        ref = call_member(it, S.this, "operator[]", [S.i], const=False)
        out.append(("same cell as operator[]", same_loc(it, r, ref)))
        j = it.ctx.fresh("j", IDX); it.ctx.assume(ULT(j, S.cap)); it.ctx.assume(j != S.i)
        oth = call_member(it, S.this, "operator[]", [j], const=False)
        out.append(("different index, different cell", Not(same_loc(it, r, oth))))
        it.bounds(r, self_fn(it), "result addresses an allocated cell")
        v0 = it.read(r)
        c = it.ctx.fresh("cap", IDX); it.ctx.assume(ULE(c, bv(CAPMAX)))
        call_member(it, S.this, "reserve", [c])
        aft = call_member(it, S.this, "operator[]", [S.i], const=False)
        out.append(("cell survives growth", same_loc(it, r, aft)))
        out.append(("value survives growth", it.read(aft) == v0))
        return out
def self_fn(it): return it.ctx.runner.fn

CONTRACTS = []
for cls in ("BlockedArray", "Concurrent_BlockedArray"):
    for BS in (1, 7, 512):
        CONTRACTS += [Reserve(cls, BS), Ctor(cls, BS), Move(cls, BS)] + [Access(cls, BS, k, c) for k in (False, True) for c in (False, True)]
DRIVER_LIBS = ["-ltbb"]
