from vf.spec import *
DRIVER = "C06.cpp"; DRIVER_LIBS = ["-ltbb"]; DRIVER_SRCS = ["src/utils/System.cpp"]
ASSUMPTIONS = ["the ranges given to one store are non-empty and pairwise disjoint (what the triangulators create)", "fewer than 2^31 blocks, identifiers below 2^63", "allocation of a block succeeds",
               "the store is verified for 64-bit elements (BlockedArray2<uint64_t, uint64_t>; the code is parametric in the element type) and, for the iteration over valid simplices, for dSimplices<2, double>",
               "single-threaded histories"]
MAXB, MAXID = 1 << 31, 1 << 63
BA = ("BlockedArray2", (U64, U64))

def nb(o): return o.f["m_blocks"].size
def box(o, k): return o.f["m_blocks"].get(k)
def blk(o, k): return box(o, k).get(idx(0))
def lo(o, k): return blk(o, k).f["m_min"]
def hi(o, k): return blk(o, k).f["m_max"]
def inb(o, k, i): return And(ULE(lo(o, k), i), ULT(i, hi(o, k)))
def blockwf(b):
    d = b.f["m_data"]
    return And(ULT(b.f["m_min"], b.f["m_max"]), ULE(b.f["m_max"], bv(MAXID)), Not(d.null), d.size == b.f["m_max"] - b.f["m_min"])
def each(o, n=None):
    n = nb(o) if n is None else n
    return forall(1, lambda k: Implies(ULT(k, n), And(Not(box(o, k).null), box(o, k).size == 1, blockwf(blk(o, k)))), pats=lambda k: [a[k] for a in o.f["m_blocks"].arrs])
def ordered(o):
    return forall(2, lambda i, j: Implies(And(ULT(i, j), ULT(j, nb(o))), ULE(hi(o, i), lo(o, j))))
def wf(o):
    return [("at least one block", And(ULE(bv(1), nb(o)), ULT(nb(o), bv(MAXB)))), ("every block is allocated with its range", each(o)), ("blocks are disjoint and sorted", ordered(o)),
            ("default hint addresses a block", ULT(z64(o.f["m_hint"]), nb(o)))]
def member(o, i): return exists(1, lambda k: And(ULT(k, nb(o)), inb(o, k, i)))
def same_blocks(o, p):
    return And(nb(o) == nb(p), *[x == y for x, y in zip(o.f["m_blocks"].arrs, p.f["m_blocks"].arrs)])
def same_box(a, b): return And([x == y for x, y in zip(leaves(a), leaves(b))])

class B(Contract):
    tu = "blocked2"; cls, cargs = BA
    def m(self, name, **k): return fn_named(name, cls=self.cls, cls_args=self.cargs, **k)
    def obj(self, it, name="obj"):
        o = this_obj(it, self.cls, self.cargs, name)
        for l, g in wf(it.read(o)): it.ctx.assume(g)
        return o
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def need(self, it, o, n):
        for l, g in wf(o): it.ctx.oblige("precondition of %s: %s" % (self.name, l), g, "pre", n)

class TestBlock(B):
    """_testBlock: is the identifier in this block"""
    name = "BlockedArray2::_testBlock"
    def __init__(self, st=BA): self.cls, self.cargs = st; self.find = self.m("_testBlock")
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); it.ctx.assume(ULT(z64(it.read(a[1])), nb(it.read(o))))
        return State(this=o, args=a, i=it.read(a[0]), k=z64(it.read(a[1])))
    def post(self, it, S, r): return [("true exactly inside the block", to_bool(r) == inb(it.read(S.this), S.k, S.i))]
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); k = z64(it.read(vals[1]))
        it.ctx.oblige("precondition of _testBlock: block exists", And(ULT(k, nb(o))), "pre", n)
        return inb(o, k, it.read(vals[0]))

class FindBlock(B):
    """_findBlock: the block of a stored identifier; otherwise the first block above it (or an exception)"""
    name = "BlockedArray2::_findBlock"
    def __init__(self, st=BA):
        self.cls, self.cargs = st
        self.find = self.m("_findBlock"); self.loops = {("_findBlock", 0): self.loop}; self.calls = [(self.m("_testBlock").all, TestBlock(st))]
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn)
        return State(this=o, args=a, i=it.read(a[0]), thr=to_bool(it.read(a[1])))
    def loop(self, it, n):
        def inv(L):
            o = L.this; i = L.pre("idx"); s, c = z64(L.var("start")), z64(L.var("count"))
            return [("searched range", And(ULE(s, nb(o)), ULE(c, nb(o)), ULE(s + c, nb(o)), z64(L.var("end")) == nb(o))),
                    ("blocks left of the range end at or below the identifier", forall(1, lambda k: Implies(ULT(k, s), ULE(hi(o, k), i)))),
                    ("blocks right of the range start above the identifier", forall(1, lambda k: Implies(And(ULE(s + c, k), ULT(k, nb(o))), ULT(i, lo(o, k)))))]
        return LoopSpec("binary search", inv, variant=lambda L: L.var("count"))
    def result(self, o, i, thr, r):
        r = z64(r)
        return [("result is a position of the block list", ULE(r, nb(o))), ("blocks before the result end at or below the identifier", forall(1, lambda k: Implies(ULT(k, r), ULE(hi(o, k), i)))),
                ("the block found contains the identifier or starts above it", Implies(ULT(r, nb(o)), ULT(i, hi(o, r)))), ("no result past the last block when throwing", Implies(thr, ULT(r, nb(o))))]
    def post(self, it, S, r): return self.result(it.read(S.this), S.i, S.thr, r)
    def throws(self, it, S, e):
        o = it.read(S.this)
        return [("throws only when asked to", S.thr), ("throws only for identifiers above all blocks", forall(1, lambda k: Implies(ULT(k, nb(o)), ULE(hi(o, k), S.i)))), ("throws std::out_of_range", z3.BoolVal(e.t == Type("rec", "std::out_of_range", ())))]
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); self.need(it, o, n); i = it.read(vals[0]); thr = to_bool(it.read(vals[1])) if len(vals) > 1 else z3.BoolVal(True)
        if it.ctx.branch(thr) and it.ctx.choose("_findBlock throws"):
            it.ctx.assume(forall(1, lambda k: Implies(ULT(k, nb(o)), ULE(hi(o, k), i))))
            raise ThrowEx(Type("rec", "std::out_of_range", ()), n)
        r = it.ctx.fresh("block", z3.BitVecSort(32))
        for l, g in self.result(o, i, thr, r): it.ctx.assume(g)
        return r

class Contains(B):
    modifies_args = (1,)
    def __init__(self, unsafe=False, st=BA):
        self.cls, self.cargs = st
        self.unsafe = unsafe; self.fname = "unsafe_contains" if unsafe else "contains"; self.name = "BlockedArray2::" + self.fname
        self.find = self.m(self.fname); self.calls = [(self.m("_findBlock").all, FindBlock(st))] + ([(self.m("contains").all, Contains(False, st))] if unsafe else [])
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); v = it.read(o)
        if not self.unsafe: it.ctx.assume(ULT(z64(it.read(a[1])), nb(v)))
        return State(this=o, args=a, i=it.read(a[0]), v=copy_val(v))
    def effect(self, o, i, hint, r): return [("true exactly for identifiers of some block", r == member(o, i)), ("hint stays valid", ULT(z64(hint), nb(o))), ("after a hit the hint is the block of the identifier", Implies(r, inb(o, z64(hint), i)))]
    def post(self, it, S, r):
        o = it.read(S.this); h = o.f["m_hint"] if self.unsafe else it.read(S.args[1])
        return self.effect(o, S.i, h, to_bool(r)) + [("store unchanged", same_blocks(o, S.v))] + wf(o)[3:]
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); self.need(it, o, n); i = it.read(vals[0]); h = it.read(vals[1])
        it.ctx.oblige("precondition of contains: hint addresses a block", ULT(z64(h), nb(o)), "pre", n)
        r = it.ctx.fresh("contained", z3.BoolSort()); h2 = it.ctx.fresh("hint", h.sort()); it.write(vals[1], h2); o = it.read(this)
        for l, g in self.effect(o, i, h2, r): it.ctx.assume(g)
        return r

class At(B):
    modifies_args = (1,)
    def __init__(self, unsafe, const, st=BA):
        self.cls, self.cargs = st
        self.unsafe, self.const = unsafe, const; self.fname = "unsafe_at" if unsafe else "at"; self.name = "BlockedArray2::%s%s" % (self.fname, " const" if const else "")
        self.find = self.m(self.fname, const=const); self.calls = [(self.m("_findBlock").all, FindBlock(st)), (self.m("_testBlock").all, TestBlock(st))]
        if unsafe: self.calls += [(self.m("at", const=c).all, At(False, c, st)) for c in (False, True)]
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); v = it.read(o)
        if not self.unsafe: it.ctx.assume(ULT(z64(it.read(a[1])), nb(v)))
        return State(this=o, args=a, i=it.read(a[0]), v=copy_val(v))
    def loc(self, r):
        p = [s for s in r.p]
        if [s[0] for s in p[-5:]] != ["f", "i", "i", "f", "i"] or p[-5][1] != "m_blocks" or p[-2][1] != "m_data": raise Unsupported("reference result %r" % (r,))
        return p[-4][1], p[-3][1], p[-1][1]
    def post(self, it, S, r):
        o = it.read(S.this); h = o.f["m_hint"] if self.unsafe else it.read(S.args[1])
        if not isinstance(r, LVal) or r.c is not S.this.c: raise Unsupported("reference result")
        k, z, off = self.loc(r)
        return [("the cell belongs to the block of the identifier", And(ULT(k, nb(o)), z == 0, inb(o, k, S.i))), ("the cell is the one of the identifier", And(off == S.i - lo(o, k), ULT(off, blk(o, k).f["m_data"].size))),
                ("the hint is the block of the identifier", z64(h) == k), ("store unchanged", same_blocks(o, S.v))] + wf(o)[3:]
    def throws(self, it, S, e):
        o = it.read(S.this)
        return [("throws only for identifiers of no block", Not(member(o, S.i))), ("throws std::out_of_range", z3.BoolVal(e.t == Type("rec", "std::out_of_range", ())))]
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); self.need(it, o, n); i = it.read(vals[0]); h = it.read(vals[1])
        it.ctx.oblige("precondition of at: hint addresses a block", ULT(z64(h), nb(o)), "pre", n)
        h2 = it.ctx.fresh("hint", h.sort()); it.write(vals[1], h2); o = it.read(this)
        if it.ctx.choose("at throws"):
            it.ctx.assume(And(Not(member(o, i)), ULT(z64(h2), nb(o)))); raise ThrowEx(Type("rec", "std::out_of_range", ()), n)
        it.ctx.assume(And(ULT(z64(h2), nb(o)), inb(o, z64(h2), i)))
        return this.sub(("f", "m_blocks"), ("i", z64(h2)), ("i", idx(0)), ("f", "m_data"), ("i", it.s(i - lo(o, z64(h2)))))

class Bounds(B):
    def __init__(self, fname): self.fname = fname; self.name = "BlockedArray2::" + fname; self.find = self.m(fname)
    def setup(self, it, fn): return State(this=self.obj(it), args=[])
    def post(self, it, S, r):
        o = it.read(S.this)
        if self.fname == "lowerBound": return [("no smaller identifier", forall(1, lambda i: Implies(member(o, i), ULE(r, i)))), ("occurs", member(o, r))]
        return [("no larger identifier", forall(1, lambda i: Implies(member(o, i), ULT(i, r)))), ("occurs", member(o, r - 1))]

SZ = z3.Function("sizes", z3.ArraySort(IDX, z3.ArraySort(IDX, IDX)), z3.ArraySort(IDX, z3.ArraySort(IDX, IDX)), IDX, IDX)
class ExactSize(B):
    """exact_size: the sum of the range lengths"""
    name = "BlockedArray2::exact_size"
    def __init__(self): self.find = self.m("exact_size"); self.loops = {("exact_size", 0): self.loop}
    def setup(self, it, fn):
        o = self.obj(it); v = it.read(o); it.ctx.assume(self.S(v, bv(0)) == 0); return State(this=o, args=[])
    def S(self, o, n): return SZ(o.f["m_blocks"].arrs[0], o.f["m_blocks"].arrs[1], n)
    def loop(self, it, n):
        def inv(L): return [("sum over the blocks so far", And(L.var("size") == self.S(L.this, L.pos()), ULE(L.pos(), nb(L.this))))]
        def start(L):
            p = L.pos(); L.it.ctx.assume(self.S(L.this, p + 1) == self.S(L.this, p) + (hi(L.this, p) - lo(L.this, p)))     # definition of the sum
        return LoopSpec("summation", inv, variant=lambda L: nb(L.this) - L.pos(), body_start=start)
    def post(self, it, S, r): o = it.read(S.this); return [("sum of all range lengths", r == self.S(o, nb(o)))]

class Ctor(B):
    name = "BlockedArray2::BlockedArray2(min, max)"
    def __init__(self): self.find = self.m("BlockedArray2", nparams=2)
    def setup(self, it, fn):
        t = Type("rec", *BA); o = LVal(Cell(RecV(t, {}), "obj", t)); a = fresh_args(it, fn); lo, hi = it.read(a[0]), it.read(a[1])
        it.ctx.assume(And(ULT(lo, hi), ULE(hi, bv(MAXID)))); return State(this=o, args=a, lo=lo, hi=hi)
    def post(self, it, S, r):
        o = it.read(S.this); return wf(o) + [("exactly the requested range", And(nb(o) == 1, lo(o, bv(0)) == S.lo, hi(o, bv(0)) == S.hi))]
class Move(B):
    def __init__(self, assign):
        self.assign = assign; self.name = "BlockedArray2 move " + ("assignment" if assign else "constructor")
        self.find = self.m("operator=" if assign else "BlockedArray2", pred=lambda ast, f: "&&" in f["type"]["qualType"])
    def setup(self, it, fn):
        t = Type("rec", *BA); src = self.obj(it, "other")
        o = self.obj(it) if self.assign else LVal(Cell(RecV(t, {}), "obj", t)); return State(this=o, args=[src], v=copy_val(it.read(src)))
    def post(self, it, S, r): o = it.read(S.this); return wf(o) + [("same blocks with their contents", same_blocks(o, S.v))]

class Grow(B):
    """addBlock and merge: every old identifier keeps its content, the added ranges become reachable, nothing else appears"""
    def apart(self, it, a, b):
        it.ctx.assume(ULT(nb(a) + nb(b), bv(MAXB)))
        it.ctx.assume(forall(2, lambda i, j: Implies(And(ULT(i, nb(a)), ULT(j, nb(b))), Or(ULE(hi(a, i), lo(b, j)), ULE(hi(b, j), lo(a, i))))))
    def post(self, it, S, r):
        o, v = it.read(S.this), S.v; n0 = nb(v); n = nb(o)
        total = n0 + S.nnew
        srt = getattr(it, "last_sort", None)
        if srt is not None:
            P = srt[0]; i, j = it.ctx.fresh("i", IDX), it.ctx.fresh("j", IDX); dom = And(ULT(i, j), ULT(j, n))
            it.ctx.oblige("lemma: different origins", Implies(dom, And(P[i] != P[j], ULT(P[i], n), ULT(P[j], n))), "lemma")
            it.ctx.oblige("lemma: sorted by the lower end", Implies(dom, ULE(lo(o, i), lo(o, j))), "lemma")
            it.ctx.oblige("lemma: disjoint", Implies(dom, And(Or(ULE(hi(o, i), lo(o, j)), ULE(hi(o, j), lo(o, i))), ULT(lo(o, j), hi(o, j)))), "lemma")
            it.ctx.oblige("lemma: ordered", Implies(dom, ULE(hi(o, i), lo(o, j))), "lemma", assume=False)
            x, y = qv("x"), qv("y"); it.ctx.assume(z3.ForAll([x, y], z3.substitute(Implies(dom, ULE(hi(o, i), lo(o, j))), (i, x), (j, y))))
        out = wf(o) + [("number of blocks", n == total)]
        def src(j): return lambda b: If(ULT(j, n0), same_box(b, box(v, j)), S.isnew(b, j - n0))
        if srt is not None:
            P, Q, N = srt
            k = it.ctx.fresh("k", IDX)
            out += [("every block of either store is kept with its content", Implies(ULT(k, total), And(ULT(Q[k], n), src(k)(box(o, Q[k]))))),
                    ("no other block appears", Implies(ULT(k, n), And(ULT(P[k], total), src(P[k])(box(o, k)))))]
        else:
            out += [("every block of either store is kept with its content", forall(1, lambda j: Implies(ULT(j, total), exists(1, lambda k: And(ULT(k, n), src(j)(box(o, k))))))),
                    ("no other block appears", forall(1, lambda k: Implies(ULT(k, n), exists(1, lambda j: And(ULT(j, total), src(j)(box(o, k)))))))]
        return out
class AddBlock(Grow):
    name = "BlockedArray2::addBlock"
    def __init__(self): self.find = self.m("addBlock")
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); l, h = it.read(a[0]), it.read(a[1]); v = copy_val(it.read(o))
        it.ctx.assume(And(ULT(l, h), ULE(h, bv(MAXID)), ULT(nb(v), bv(MAXB - 1))))
        it.ctx.assume(forall(1, lambda k: Implies(ULT(k, nb(v)), Or(ULE(hi(v, k), l), ULE(h, lo(v, k))))))
        return State(this=o, args=a, v=v, nnew=bv(1), isnew=lambda b, j: And(Not(b.null), b.get(idx(0)).f["m_min"] == l, b.get(idx(0)).f["m_max"] == h))
class Merge(Grow):
    name = "BlockedArray2::merge"
    def __init__(self): self.find = self.m("merge"); self.loops = {("merge", 0): self.loop}
    def setup(self, it, fn):
        o = self.obj(it); p = self.obj(it, "other"); v, w = copy_val(it.read(o)), copy_val(it.read(p)); self.apart(it, v, w); self.w = w
        return State(this=o, args=[p], v=v, w=w, nnew=nb(w), isnew=lambda b, j: same_box(b, box(w, j)))
    def loop(self, it, n):
        def inv(L):
            o, v = L.this, L.this_pre; w0 = L.pre("other"); w = L.var("other"); i = z64(L.var("i"))
            return [("one block per step", And(ULE(i, nb(w0)), nb(o) == nb(v) + i, nb(w) == nb(w0), o.f["m_hint"] == v.f["m_hint"])),
                    ("all blocks are allocated", each(o)),
                    ("own blocks stay", forall(1, lambda k: Implies(ULT(k, nb(v)), same_box(box(o, k), box(v, k))))),
                    ("moved blocks are appended", forall(1, lambda k: Implies(ULT(k, i), same_box(box(o, nb(v) + k), box(w0, k))))),
                    ("other blocks wait", forall(1, lambda k: Implies(And(ULE(i, k), ULT(k, nb(w0))), same_box(box(w, k), box(w0, k)))))]
        def head(L):
            """consequence of the invariant: all blocks are disjoint"""
            o, v, w0 = L.this, L.this_pre, L.pre("other"); i, n0 = z64(L.var("i")), nb(v); c = L.it.ctx
            a, b = c.fresh("a", IDX), c.fresh("b", IDX); dis = Or(ULE(hi(o, a), lo(o, b)), ULE(hi(o, b), lo(o, a)))
            own = lambda k: And(ULT(k, n0), same_box(box(o, k), box(v, k))); new = lambda k: And(ULE(n0, k), ULT(k - n0, nb(w0)), same_box(box(o, k), box(w0, k - n0)))
            for k in (a, b): c.oblige("lemma: every block has an origin", Implies(ULT(k, nb(o)), Or(own(k), new(k))), "lemma")
            dom = And(ULT(a, b), ULT(b, nb(o)))
            c.oblige("lemma: own blocks are disjoint", Implies(And(dom, own(a), own(b)), dis), "lemma"); c.oblige("lemma: moved blocks are disjoint", Implies(And(dom, new(a), new(b)), dis), "lemma")
            c.oblige("lemma: own and moved blocks are disjoint", Implies(And(dom, own(a), new(b)), dis), "lemma")
            c.oblige("lemma: all blocks are disjoint", Implies(dom, dis), "lemma", assume=False)
            x, y = qv("x"), qv("y"); c.assume(z3.ForAll([x, y], z3.substitute(Implies(dom, dis), (a, x), (b, y))))
        return LoopSpec("append blocks", inv, head=head, variant=lambda L: nb(L.pre("other")) - z64(L.var("i")))

CONTRACTS = [TestBlock(), FindBlock(), Contains(), Contains(True)] + [At(u, c) for u in (False, True) for c in (False, True)] + [Bounds("lowerBound"), Bounds("upperBound"), ExactSize(), Ctor(), Move(False), Move(True), AddBlock(), Merge()]

# ---- iterators: a position is a block and an identifier inside it, or the end behind the last block
DS = ("dSimplices", (2, Type("float", 64)))
def valid(v, k, x):
    e = blk(v, k).f["m_data"].get(x - lo(v, k))
    if not isinstance(e, RecV): return z3.BoolVal(True)
    return e.f["id"] != bv((1 << 64) - 1)      # dSimplex::cINF marks a deleted simplex
def inside(v, b, i): return And(ULT(b, nb(v)), inb(v, b, i))
def atend(v, b, i): return And(b == nb(v) - 1, i == hi(v, b))
def ispos(v, b, i): return Or(inside(v, b, i), atend(v, b, i))
def succ(v, b, i, b2, i2):
    """(b2, i2) is the position after (b, i)"""
    return If(i + 1 == hi(v, b), If(b + 1 == nb(v), And(b2 == b, i2 == i + 1), And(b2 == b + 1, i2 == lo(v, b + 1))), And(b2 == b, i2 == i + 1))
def gap(v, a, b):
    """no valid element has an identifier x with a <= x < b"""
    return forall(2, lambda k, x: Implies(And(ULT(k, nb(v)), inb(v, k, x), ULE(a, x), ULT(x, b)), Not(valid(v, k, x))))

class It(Contract):
    tu = "blocked2"
    def __init__(self, flt, const, fname, label=None, **k):
        self.flt, self.const, self.fname = flt, const, fname; self.icls = "filtered_block_iterator" if flt else "block_iterator"; self.k = k
        self.store = DS if flt else BA
        self.name = "%s<%s%s>::%s" % (self.icls, "const " if const else "", self.store[0], label or fname); self.find = self.finder(fname, **k)
        self.loops = {("_advance", 0): self.adv, ("_dec", 0): self.dec}
        self.calls = [(fn_named("_findBlock", cls="BlockedArray2", pred=self.mybase).all, FB(self.store))]
        if flt and fname not in ("_advance", "_dec"): self.calls += [(self.finder(f).all, Search(const, f)) for f in ("_advance", "_dec")]
    def mybase(self, ast, f):
        a = ast.spec_args(owner(ast, f))[0]; return (isinstance(a, Type) and a.k == "rec" and a.a[0] == "dSimplex" and a.a[1][0] == 2) if self.flt else a == U64
    def finder(self, fname, **k):
        p0 = k.pop("pred", None)
        def mine(ast, f):
            o = owner(ast, f); a = ast.spec_args(o)[0]
            q = next(x["type"]["qualType"] for x in o["inner"] if x["kind"] == "TemplateArgument" and "type" in x)
            return isinstance(a, Type) and a.a[0] == self.store[0] and q.startswith("const ") == self.const and (p0 is None or p0(ast, f))
        return fn_named(fname, cls=self.icls, pred=mine, **k)
    def setup(self, it, fn):
        c = this_obj(it, *self.store, name="store"); v = it.read(c)
        for l, g in wf(v): it.ctx.assume(g)
        t = owner(it.ast, fn); o = this_obj(it, self.icls, it.ast.spec_args(t), "it"); self.bind(it, o, c)
        S = State(this=o, c=c, v=copy_val(v)); S.b, S.i = it.read(o).f["m_block"], it.read(o).f["m_idx"]; self.S = S; self.more(it, fn, S); return S
    def bind(self, it, o, c):
        r = it.read(o); r.f["m_container"] = RefV(c); it.write(o, r)
    def more(self, it, fn, S): S.args = []
    def step_lemma(self, v, fwd, i0):
        """one step of the search passes exactly one element of the store"""
        old = {}
        def bs(L): old["p"] = (L.this.f["m_block"], L.this.f["m_idx"])
        def be(L):
            c = L.it.ctx; b, i = old["p"]; j = L.this.f["m_idx"]; k, x = c.fresh("k", IDX), c.fresh("x", IDX)
            dom = And(ULT(k, nb(v)), inb(v, k, x)); A = Implies(And(dom, x == i), k == b); B = Implies(dom, Not(And(ULT(i, x), ULT(x, j)) if fwd else And(ULT(j, x), ULT(x, i))))
            c.oblige("lemma: an identifier is in one block only", A, "lemma"); c.oblige("lemma: a step passes no other element", B, "lemma")
            g = lambda i: gap(v, i0, i) if fwd else gap(v, i + 1, i0 + 1)
            inst = lambda q: z3.substitute_vars(q.body(), x, k)
            c.assume(inst(g(i)))      # instance of the invariant at the loop head
            c.oblige("lemma: skipped elements are not valid", inst(g(j)), "lemma", assume=False); c.assume(g(j))
        return dict(body_start=bs, body_end=be)
    def adv(self, it, n):
        S = self.S; v = S.v; i0 = it.read(it.fr["this"]).f["m_idx"]
        def inv(L):
            o = L.this; b, i = o.f["m_block"], o.f["m_idx"]
            return [("position", And(ispos(v, b, i), ULE(i0, i))), ("skipped elements are not valid", gap(v, i0, i))]
        return LoopSpec("search forward", inv, variant=lambda L: hi(v, nb(v) - 1) - L.this.f["m_idx"], **self.step_lemma(v, True, i0))
    def dec(self, it, n):
        S = self.S; v = S.v; i0 = it.read(it.fr["this"]).f["m_idx"]
        def inv(L):
            o = L.this; b, i = o.f["m_block"], o.f["m_idx"]
            return [("position", And(inside(v, b, i), ULE(i, i0))), ("skipped elements are not valid", gap(v, i + 1, i0 + 1))]
        return LoopSpec("search backward", inv, variant=lambda L: L.this.f["m_idx"], **self.step_lemma(v, False, i0))
    def now(self, it, S): o = it.read(S.this); return o.f["m_block"], o.f["m_idx"]
    def kept(self, it, S): return [("store unchanged", same_blocks(it.read(S.c), S.v)), ("of the same store", z3.BoolVal(it.read(S.this).f["m_container"].lv.c is S.c.c))]
class FB(FindBlock):
    def __init__(self, store): self.cls, self.cargs = store; self.calls = []; self.loops = {}
class Search(It):
    """_advance / _dec: from the current position (or the following one) to the next valid element, the end or the first element"""
    modifies = None
    def __init__(self, const, fname): It.__init__(self, True, const, fname)
    def pre(self, v, b, i, first): 
        if self.fname == "_advance": return If(first, ispos(v, b, i), inside(v, b, i))
        return If(first, inside(v, b, i), And(ispos(v, b, i), ULT(lo(v, bv(0)), i)))
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn); S.first = to_bool(it.read(S.args[0])); it.ctx.assume(self.pre(S.v, S.b, S.i, S.first))
    def effect(self, v, b0, i0, first, b, i):
        if self.fname == "_advance": return [("a position", ispos(v, b, i)), ("moves forward", If(first, ULE(i0, i), ULT(i0, i))), ("a valid element or the end", Or(atend(v, b, i), valid(v, b, i))), ("no valid element is skipped", gap(v, If(first, i0, i0 + 1), i))]
        return [("an element", inside(v, b, i)), ("moves backward", If(first, ULE(i, i0), ULT(i, i0))), ("a valid element or the first one", Or(i == lo(v, bv(0)), valid(v, b, i))), ("no valid element is skipped", gap(v, i + 1, If(first, i0 + 1, i0)))]
    def post(self, it, S, r): return self.effect(S.v, S.b, S.i, S.first, *self.now(it, S)) + self.kept(it, S)
    def apply(self, it, this, vals, f, n=None):
        o = it.read(this); v = it.read(o.f["m_container"].lv); first = to_bool(it.read(vals[0]) if isinstance(vals[0], LVal) else vals[0]); b, i = o.f["m_block"], o.f["m_idx"]
        for l, g in wf(v): it.ctx.oblige("precondition of %s: %s" % (self.fname, l), g, "pre", n)
        it.ctx.oblige("precondition of %s: a position of the store" % self.fname, self.pre(v, b, i, first), "pre", n)
        b2, i2 = it.ctx.fresh("block", IDX), it.ctx.fresh("idx", IDX)
        for l, g in self.effect(v, b, i, first, b2, i2): it.ctx.assume(g)
        it.gaps = getattr(it, "gaps", []) + [self.effect(v, b, i, first, b2, i2)[-1][1]]
        o.f["m_block"], o.f["m_idx"] = b2, i2; it.write(this, o)
class Step(It):
    def __init__(self, flt, const, inc, post):
        self.inc, self.pf = inc, post; op = "operator++" if inc else "operator--"
        It.__init__(self, flt, const, op, op + ("(int)" if post else ""), pred=lambda ast, f: len(AST.params(f)) == (1 if post else 0))
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn); v = S.v
        it.ctx.assume(inside(v, S.b, S.i) if self.inc else And(ispos(v, S.b, S.i), ULT(lo(v, bv(0)), S.i)))
    def post(self, it, S, r):
        v = S.v; b, i = self.now(it, S)
        if self.inc: out = [("a position", ispos(v, b, i)), ("moves forward", ULT(S.i, i))] + ([("a valid element or the end", Or(atend(v, b, i), valid(v, b, i))), ("no valid element is skipped", gap(v, S.i + 1, i))] if self.flt else [("the next identifier", succ(v, S.b, S.i, b, i))])
        else: out = [("an element", inside(v, b, i)), ("moves backward", ULT(i, S.i))] + ([("a valid element or the first one", Or(i == lo(v, bv(0)), valid(v, b, i))), ("no valid element is skipped", gap(v, i + 1, S.i))] if self.flt else [("the previous identifier", Or(succ(v, b, i, S.b, S.i)))])
        if self.pf: out.append(("returns the old position", And(r.f["m_block"] == S.b, r.f["m_idx"] == S.i)))
        else: out.append(("returns the iterator", same_loc(it, r, S.this)))
        return out + self.kept(it, S)
class Cmp(It):
    def __init__(self, flt, const, op, f): self.f = f; It.__init__(self, flt, const, op)
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn); self.bind(it, S.args[0], S.c); w = it.read(S.args[0]); S.b2, S.i2 = w.f["m_block"], w.f["m_idx"]
        it.ctx.assume(And(ispos(S.v, S.b, S.i), ispos(S.v, S.b2, S.i2)))
    def post(self, it, S, r): return [("order of the identifiers", to_bool(r) == self.f(S.i, S.i2))]
class Deref(It):
    def __init__(self, flt, const, op): It.__init__(self, flt, const, op)
    def more(self, it, fn, S): S.args = []; it.ctx.assume(inside(S.v, S.b, S.i))
    def post(self, it, S, r):
        if isinstance(r, PtrV): r = r.lv
        if not isinstance(r, LVal) or r.c is not S.c.c: raise Unsupported("reference result")
        p = [s for s in r.p if s[0] == "i" or s[1] in ("m_blocks", "m_data")]
        if [s[0] for s in p] != ["f", "i", "i", "f", "i"]: raise Unsupported("reference result %r" % (r,))
        return [("the cell of the identifier", And(p[1][1] == S.b, p[2][1] == 0, p[4][1] == S.i - lo(S.v, S.b)))] + self.kept(it, S)
class Half(It):
    """half: a position in the middle of a non-empty range, for splitting it"""
    def __init__(self, flt, const): It.__init__(self, flt, const, "half")
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn); v = S.v; p = []
        for a in S.args: self.bind(it, a, S.c); w = it.read(a); p.append((w.f["m_block"], w.f["m_idx"]))
        S.p, S.q = p; ok = lambda b, i: Or(atend(v, b, i), And(inside(v, b, i), valid(v, b, i)))
        it.ctx.assume(And(ok(*S.p), ok(*S.q), ULT(S.p[1], S.q[1])))
    def post(self, it, S, r):
        b, i = self.now(it, S)
        for q in getattr(it, "gaps", []):
            for (k, x) in (S.p, S.q): it.ctx.assume(z3.substitute_vars(q.body(), x, k))     # instances of the postcondition of the searches
        for (k, x) in (S.p, S.q): it.ctx.oblige("lemma: an identifier is in one block only", Implies(And(ispos(S.v, b, i), i == x), b == k), "lemma")
        it.ctx.oblige("lemma: a position", ispos(S.v, b, i), "lemma"); it.ctx.oblige("lemma: below the end of the range", ULT(i, S.q[1]), "lemma"); it.ctx.oblige("lemma: not below the begin of the range", ULE(S.p[1], i), "lemma")
        return [("an element of the range", And(inside(S.v, b, i), valid(S.v, b, i), ULE(S.p[1], i), ULT(i, S.q[1])))] + self.kept(it, S)
class ICtor(It):
    def __init__(self, flt, const):
        It.__init__(self, flt, const, "filtered_block_iterator" if flt else "block_iterator", "constructor", pred=lambda ast, f: len(AST.params(f)) == (4 if flt else 3))
    def more(self, it, fn, S):
        S.args = fresh_args(it, fn); S.args[0] = S.c; S.b, S.i = it.read(S.args[1]), it.read(S.args[2]); S.s = it.read(S.args[3]) if self.flt else z3.BoolVal(False); it.ctx.assume(ispos(S.v, S.b, S.i))
        S.this = LVal(Cell(RecV(it.read(S.this).t, {}), "it", None))
    def post(self, it, S, r):
        v = S.v; b, i = self.now(it, S)
        return [("a position", ispos(v, b, i)), ("the given one, or the first valid element from it", If(S.s, And(ULE(S.i, i), Or(atend(v, b, i), valid(v, b, i)), gap(v, S.i, i)), And(b == S.b, i == S.i)))] + self.kept(it, S)
class BeginEnd(It):
    def __init__(self, flt, const, fname):
        It.__init__(self, flt, const, fname); self.name = "%s::%s%s" % (self.store[0], fname, " const" if const else ""); self.find = fn_named(fname, cls=self.store[0], cls_args=self.store[1], const=const)
    def setup(self, it, fn):
        c = this_obj(it, *self.store, name="store"); v = it.read(c)
        for l, g in wf(v): it.ctx.assume(g)
        self.S = State(this=c, args=[], v=copy_val(v), c=c); return self.S
    def post(self, it, S, r):
        b, i = r.f["m_block"], r.f["m_idx"]; v = S.v
        pos = And(ispos(v, b, i), Or(atend(v, b, i), valid(v, b, i)), gap(v, lo(v, bv(0)), i)) if self.fname == "begin" else atend(v, b, i)
        return [("the first valid element" if self.fname == "begin" else "behind the last element", pos), ("first of all elements", z3.BoolVal(True) if self.flt or self.fname == "end" else And(b == 0, i == lo(v, b))), ("of this store", z3.BoolVal(r.f["m_container"].lv.c is S.c.c))]
for flt in (False, True):
    for const in (False, True):
        if flt: CONTRACTS += [Search(const, "_advance"), Search(const, "_dec")]
        CONTRACTS += [Step(flt, const, inc, p) for inc in (True, False) for p in (False, True)] + [Deref(flt, const, o) for o in ("operator*", "operator->")] + [Half(flt, const), ICtor(flt, const), BeginEnd(flt, const, "begin"), BeginEnd(flt, const, "end")]
        CONTRACTS += [Cmp(flt, const, o, f) for o, f in (("operator==", lambda a, b: a == b), ("operator!=", lambda a, b: a != b), ("operator<", ULT), ("operator<=", ULE), ("operator>", lambda a, b: ULT(b, a)), ("operator>=", lambda a, b: ULE(b, a)))]

# ---- the simplex store itself and its handles: membership also asks for a valid (not deleted) simplex
DB = ("BlockedArray2", (Type("rec", "dSimplex", (2, Type("float", 64))), U64))
DCALLS = [(fn_named("contains", cls=DB[0], cls_args=DB[1]).all, Contains(False, DB))] + [(fn_named("at", cls=DB[0], cls_args=DB[1], const=c).all, At(False, c, DB)) for c in (False, True)]
def dmember(v, i, need_valid): return exists(1, lambda k: And(ULT(k, nb(v)), inb(v, k, i), valid(v, k, i) if need_valid else z3.BoolVal(True)))
class DMember(Contract):
    """dSimplices::contains / inRange (identifier or simplex, with hint or with the store's own one)"""
    tu = "blocked2"; calls = DCALLS
    modifies = staticmethod(lambda it, this, f: []); modifies_args = (1,)
    def __init__(self, fname, simplex):
        self.fname, self.simplex = fname, simplex; self.unsafe = fname.startswith("unsafe"); self.name = "dSimplices::%s(%s)" % (fname, "simplex" if simplex else "identifier")
        self.find = fn_named(fname, cls="dSimplices", cls_args=DS[1], pred=lambda ast, f: ("dSimplex" in AST.params(f)[0]["type"]["qualType"]) == simplex)
    def setup(self, it, fn):
        c = this_obj(it, *DS, name="store"); v = it.read(c)
        for l, g in wf(v): it.ctx.assume(g)
        a = fresh_args(it, fn); x = it.read(a[0]); S = State(this=c, args=a, v=copy_val(v), i=x.f["id"] if self.simplex else x)
        if not self.unsafe: it.ctx.assume(ULT(z64(it.read(a[1])), nb(v)))
        return S
    def effect(self, v, i, r, h): return [("true exactly for " + ("valid simplices" if "contains" in self.fname else "identifiers") + " of some block", r == dmember(v, i, "contains" in self.fname)), ("hint stays valid", ULT(z64(h), nb(v)))]
    def post(self, it, S, r):
        v = it.read(S.this); h = v.f["m_hint"] if self.unsafe else it.read(S.args[1])
        k = z64(h); it.ctx.oblige("lemma: the identifier is in one block only", forall(1, lambda j: Implies(And(ULT(j, nb(v)), inb(v, k, S.i), inb(v, j, S.i)), j == k)), "lemma")
        return self.effect(v, S.i, to_bool(r), h) + [("store unchanged", same_blocks(v, S.v))]
    def apply(self, it, this, vals, f, n=None):
        v = it.read(this); h = it.read(vals[1]); i = it.read(vals[0])
        for l, g in wf(v): it.ctx.oblige("precondition of %s: %s" % (self.fname, l), g, "pre", n)
        it.ctx.oblige("precondition of %s: hint addresses a block" % self.fname, ULT(z64(h), nb(v)), "pre", n)
        r = it.ctx.fresh("contained", z3.BoolSort()); h2 = it.ctx.fresh("hint", h.sort()); it.write(vals[1], h2)
        for l, g in self.effect(v, i, r, h2): it.ctx.assume(g)
        return r
class Handle(Contract):
    """BlockedArray2Handle: access through the handle's own hint"""
    tu = "blocked2"
    def __init__(self, const, fname, mconst):
        self.const, self.fname = const, fname; self.name = "BlockedArray2Handle<%sdSimplices>::%s%s" % ("const " if const else "", fname, " const" if mconst else "")
        def mine(ast, f):
            q = next(x["type"]["qualType"] for x in owner(ast, f)["inner"] if x["kind"] == "TemplateArgument" and "type" in x); return q.startswith("const ") == const
        self.find = fn_named(fname, cls="BlockedArray2Handle", const=mconst, pred=mine)
        self.calls = DCALLS + [(DMember(m, False).find.all, DMember(m, False)) for m in ("contains", "inRange")]
    def setup(self, it, fn):
        c = this_obj(it, *DS, name="store"); v = it.read(c)
        for l, g in wf(v): it.ctx.assume(g)
        o = this_obj(it, "BlockedArray2Handle", it.ast.spec_args(owner(it.ast, fn)), "handle"); r = it.read(o); r.f["m_container"] = RefV(c); it.write(o, r)
        it.ctx.assume(ULT(z64(r.f["m_hint"]), nb(v))); a = fresh_args(it, fn); return State(this=o, args=a, c=c, v=copy_val(v), i=it.read(a[0]))
    def throws(self, it, S, e):
        if self.fname in ("contains", "inRange"): return None
        return [("throws only for identifiers of no block", Not(member(S.v, S.i)))]
    def post(self, it, S, r):
        v = it.read(S.c); h = z64(it.read(S.this).f["m_hint"]); out = [("store unchanged", same_blocks(v, S.v)), ("hint stays valid", ULT(h, nb(v)))]
        if self.fname in ("contains", "inRange"): return out + [("membership", to_bool(r) == dmember(v, S.i, self.fname == "contains"))]
        p = [s for s in r.p if s[0] == "i" or s[1] in ("m_blocks", "m_data")] if isinstance(r, LVal) and r.c is S.c.c else []
        if [s[0] for s in p] != ["f", "i", "i", "f", "i"]: raise Unsupported("reference result %r" % (r,))
        return out + [("the cell of the identifier", And(inside(v, p[1][1], S.i), p[2][1] == 0, p[4][1] == S.i - lo(v, p[1][1])))]
for f in ("contains", "inRange", "unsafe_contains", "unsafe_inRange"): CONTRACTS += [DMember(f, s) for s in (False, True)]
for const in (False, True): CONTRACTS += [Handle(const, f, m) for f in ("operator[]", "at") for m in (False, True)] + [Handle(const, f, True) for f in ("contains", "inRange")]
