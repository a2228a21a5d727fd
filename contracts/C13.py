from vf.spec import *
TUS = ["geom"]
DRIVER = "C13.cpp"
DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["vertices of the simplices are strictly increasing (the class invariant stated by the property)",
               "isNeighbor is called on two different simplices or on one and the same (its own assertion)"]
def increasing(s):
    v = s.f["vertices"].e
    return And(*[ULT(a, b) for a, b in zip(v, v[1:])])
def member(x, s): return Or(*[x == v for v in s.f["vertices"].e])
def shared(a, b, cond=None):
    """size of the intersection as a 32-bit word"""
    n = bv(0, 32)
    for i, x in enumerate(a.f["vertices"].e):
        for j, y in enumerate(b.f["vertices"].e):
            c = x == y
            if cond is not None: c = And(c, cond(i, j))
            n = n + If(c, bv(1, 32), bv(0, 32))
    return n
def inf(D, x): return ULE(bv((1 << 64) - (1 << D)), x)

class S(Contract):
    tu = "geom"
    def __init__(self, D, fname, **k):
        self.D, self.fname = D, fname; self.name = "dSimplex<%d>::%s" % (D, fname)
        self.find = fn_named(fname, cls="dSimplex", cls_args=(D, DOUBLE), **k)
    def setup(self, it, fn):
        o = this_obj(it, "dSimplex", (self.D, DOUBLE)); a = fresh_args(it, fn)
        s = copy_val(it.read(o)); it.ctx.assume(increasing(s))
        S_ = State(this=o, args=a, s=s, a=[copy_val(it.read(x)) for x in a])
        if a and isinstance(S_.a[0], RecV): it.ctx.assume(increasing(S_.a[0]))
        self.more(it, S_)
        return S_
    def more(self, it, S): pass
    # as callee
    modifies = staticmethod(lambda it, this, f: []); modifies_args = False
    def apply(self, it, this, vals, f, n=None):
        s = it.read(this); it.ctx.oblige("precondition of %s: vertices increasing" % self.fname, increasing(s), "pre", n)
        vs = [it.read(v) for v in vals]
        if isinstance(vs[0], RecV): it.ctx.oblige("precondition of %s: vertices of the argument increasing" % self.fname, increasing(vs[0]), "pre", n)
        return self.result(s, vs)

class Contains(S):
    def __init__(self, D): S.__init__(self, D, "contains")
    def result(self, s, vs): return member(vs[0], s)
    def post(self, it, S, r): return [("true exactly for the vertices", to_bool(r) == member(S.a[0], S.s))]

class Count(S):
    def __init__(self, D):
        S.__init__(self, D, "countSharedVertices"); self.loops = {("countSharedVertices", 0): self.loop}
    def result(self, s, vs): return shared(s, vs[0])
    def loop(self, it, n):
        D1 = self.D + 1
        def inv(L):
            i, j, c, a, b = L.var("i"), L.var("j"), L.var("sharedVertices"), L.this, L.var("a")
            out = [("cursors in range", And(ULE(i, bv(D1, 32)), ULE(j, bv(D1, 32)))),
                   ("counted the matches among the consumed vertices", c == shared(a, b, lambda x, y: And(ULT(bv(x, 32), i), ULT(bv(y, 32), j))))]
            va, vb = a.f["vertices"].e, b.f["vertices"].e
            for x in range(D1):
                for y in range(D1):
                    out.append(("consumed before remaining (%d,%d)" % (x, y), And(Implies(And(ULT(bv(x, 32), i), ULE(j, bv(y, 32))), va[x] != vb[y]), Implies(And(ULE(i, bv(x, 32)), ULT(bv(y, 32), j)), va[x] != vb[y]))))
                    if x or y: pass
            # the last consumed vertex of either side lies below everything remaining on the other
            for x in range(D1):
                for y in range(D1):
                    out.append(("order (%d,%d)" % (x, y), And(Implies(And(ULT(bv(x, 32), i), ULE(j, bv(y, 32))), ULT(va[x], vb[y])), Implies(And(ULE(i, bv(x, 32)), ULT(bv(y, 32), j)), ULT(vb[y], va[x])))))
            return out
        def variant(L): return bv(2 * D1 + 2, 32) - L.var("i") - L.var("j")
        return LoopSpec("merge loop", inv, variant=variant)
    def post(self, it, S, r): return [("size of the intersection of the vertex sets", r == shared(S.s, S.a[0]))]

class Neighbor(S):
    def __init__(self, D):
        S.__init__(self, D, "isNeighbor"); c = Count(D); self.calls = [(c.find.all, c)]
    def more(self, it, S): it.ctx.assume(Or(S.s.f["id"] == S.a[0].f["id"], ULE(shared(S.s, S.a[0]), bv(self.D, 32))))
    def post(self, it, S, r): return [("true exactly when D vertices are shared", to_bool(r) == (shared(S.s, S.a[0]) == self.D))]

class Finite(S):
    def __init__(self, D): S.__init__(self, D, "isFinite", nparams=0)
    def post(self, it, S, r): return [("true exactly when every vertex is finite", to_bool(r) == And(*[Not(inf(self.D, x)) for x in S.s.f["vertices"].e]))]

class EqNb(S):
    def __init__(self, D): S.__init__(self, D, "equalNeighbors")
    def post(self, it, S, r): return [("true exactly when the lists are equal position by position", to_bool(r) == And(*[x == y for x, y in zip(S.s.f["neighbors"].e, S.a[0].f["neighbors"].e)]))]

class Quant(S):
    """containsAll / containsAny over a list of identifiers"""
    def __init__(self, D, fname):
        S.__init__(self, D, fname); c = Contains(D); self.calls = [(c.find.all, c)]; self.loops = {(fname, 0): self.loop}
    def pred(self, it, s, arr, k):
        m = member(z3.Select(arr, k), s)
        return m if self.fname == "containsAll" else Not(m)
    def loop(self, it, n):
        def inv(L):
            p = L.var("p"); i = L.pos()
            return [("position in range", ULE(i, p.size)), ("checked prefix", forall(1, lambda k: Implies(ULT(k, i), self.pred(it, L.this, p.arrs[0], k))))]
        return LoopSpec("scan", inv, variant=lambda L: L.var("p").size - L.pos())
    def more(self, it, S): it.ctx.assume(ULT(S.a[0].size, bv(1 << 48)))
    def post(self, it, S, r):
        r = to_bool(r); p = S.a[0]
        if self.fname == "containsAny": r = Not(r)
        al = forall(1, lambda k: Implies(ULT(k, p.size), self.pred(it, S.s, p.arrs[0], k)))
        return [("only when the condition holds for the whole list", Implies(r, al)), ("whenever the condition holds for the whole list", Implies(al, r))]

CONTRACTS = []
for D in (2, 3): CONTRACTS += [Contains(D), Count(D), Neighbor(D), Finite(D), EqNb(D), Quant(D, "containsAll"), Quant(D, "containsAny")]
