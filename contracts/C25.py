from vf.spec import *
TUS = ["boxes"]
DRIVER = "C25.cpp"; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["coordinates are treated as real numbers and the arithmetic on them as exact", "boxes are non-empty (low <= high)"]
def lo(b): return list(b.f["low"].e)
def hi(b): return list(b.f["high"].e)
def inside(p, b): return And(*[And(l <= x, x <= h) for x, l, h in zip(p, lo(b), hi(b))])
def nonempty(b): return And(*[l <= h for l, h in zip(lo(b), hi(b))])
def within(b, c): return And(*[And(l2 <= l1, h1 <= h2) for l1, h1, l2, h2 in zip(lo(b), hi(b), lo(c), hi(c))])
class BoxFn(Contract):
    tu = "boxes"
    def __init__(self, D, fname):
        self.D, self.fname = D, fname; self.name = "%s<%d>" % (fname, D)
        self.find = fn_named(fname, targs=(D,)) if fname != "makeBoundingBox" else fn_named(fname, pred=lambda ast, f: "dBox<%d" % D in f["type"]["qualType"] or "%dU" % D in f["type"]["qualType"] or ", %d" % D in f["type"]["qualType"])
        self.loops = {("makeBoundingBox", 0): self.loop}
    def setup(self, it, fn):
        D = self.D; a = fresh_args(it, fn); S = State(this=None, args=a)
        if self.fname == "splitBox":
            b, d, s = it.read(a[0]), it.read(a[1]), it.read(a[2]); it.ctx.assume(And(nonempty(b), ULT(d, z3.BitVecVal(D, 32))))
            it.ctx.assume(And(*[Implies(d == i, And(lo(b)[i] <= s, s <= hi(b)[i])) for i in range(D)])); S.b, S.d, S.s = copy_val(b), d, s
        if self.fname == "enlargeBoxAroundVector": S.b = copy_val(it.read(a[0])); S.v = list(it.read(a[1]).e); it.ctx.assume(nonempty(S.b))
        if self.fname.startswith("vecToBox"): S.v = list(it.read(a[0]).e); S.b = copy_val(it.read(a[1])); it.ctx.assume(nonempty(S.b))
        if self.fname == "makeBoundingBox":
            vt = Type("rec", "std::vector", (Type("rec", "std::array", (DOUBLE, D)),)); v = it.fresh_val(vt, "points"); c = Cell(v, "points", vt)
            b, e = it.ctx.fresh("begin", IDX), it.ctx.fresh("end", IDX); it.ctx.assume(And(ULT(b, e), ULE(e, v.size), ULT(v.size, bv(1 << 48))))
            S.vec, S.b, S.e = v, b, e
            for x, i in zip(a, (b, e)): it.write(x, PtrV(LVal(c, (("i", i),)), z3.BoolVal(False)))
            self.S = S
        return S
    def pt(self, i): return list(self.S.vec.get(i).e)
    def seen(self, i, b):
        S = self.S; D = self.D
        return [("every point so far lies in the box", forall(1, lambda j: Implies(And(ULE(S.b, j), ULT(j, i)), inside(self.pt(j), b)), pats=lambda j: [self.pt(j)[0]])) ] + \
               [("a point so far lies on the %s side %d" % (s, d), exists(1, lambda j: And(ULE(S.b, j), ULT(j, i), self.pt(j)[d] == (lo, hi)[s == "high"](b)[d]))) for s in ("low", "high") for d in range(D)]
    def loop(self, it, n):
        S = self.S
        def INV(L):
            i = it.ptr_idx(L.var("vbegin"))
            return [("position", And(ULT(S.b, i), ULE(i, S.e)))] + self.seen(i, L.var("result"))
        return LoopSpec("points", INV, variant=lambda L: S.e - it.ptr_idx(L.var("vbegin")))
    def post(self, it, S, r):
        D = self.D; R = z3.RealSort(); q = [it.ctx.fresh("q_%d" % i, R) for i in range(D)]
        if self.fname == "splitBox":
            L, H = self.tup(r); pos = [Implies(S.d == i, q[i] == S.s) for i in range(D)]
            return [("every point of the box is in a half", Implies(inside(q, S.b), Or(inside(q, L), inside(q, H)))),
                    ("the lower half lies in the box", Implies(inside(q, L), inside(q, S.b))), ("the upper half lies in the box", Implies(inside(q, H), inside(q, S.b))),
                    ("the halves meet only in the plane", Implies(And(inside(q, L), inside(q, H)), And(*pos))),
                    ("the first half is the lower one", And(*[Implies(S.d == i, And(hi(L)[i] == S.s, lo(H)[i] == S.s)) for i in range(D)])), ("no half is empty", And(nonempty(L), nonempty(H)))]
        if self.fname == "enlargeBoxAroundVector":
            b = it.read(S.args[0]); o = it.fresh_val(b.t, "other")
            return [("contains the box", within(S.b, b)), ("contains the point", inside(S.v, b)), ("every box containing both contains it", Implies(And(within(S.b, o), inside(S.v, o)), within(b, o)))]
        if self.fname == "makeBoundingBox":
            o = it.fresh_val(r.t, "other"); k = S.e
            out = [("every point lies in the box", self.seen(k, r)[0][1])]
            return out + [("every side of the box is touched by a point: " + l, g) for l, g in self.seen(k, r)[1:]]
        v, b = S.v, S.b; r = list(r.e); dist = [If(x < l, l - x, If(x > h, x - h, z3.RealVal(0))) for x, l, h in zip(v, lo(b), hi(b))]
        if self.fname == "vecToBox": return [("dimension %d: distance to the box along the axis" % d, r[d] == dist[d]) for d in range(D)]
        strictly = And(*[And(l <= x, x <= h) for x, l, h in zip(v, lo(b), hi(b))])
        near = [If(x - l <= h - x, x - l, h - x) for x, l, h in zip(v, lo(b), hi(b))]      # distance to the nearer face, for a point inside
        one = [And(r[d] == -near[d], *[r[e] == 0 for e in range(D) if e != d], *[near[d] <= near[e] for e in range(D)]) for d in range(D)]
        return [("outside: distance to the box along each axis", Implies(Not(strictly), And(*[r[d] == dist[d] for d in range(D)]))),
                ("inside: the distance to the nearest face, along its axis and negative", Implies(strictly, Or(*one)))]
    def tup(self, r):
        if isinstance(r, LVal): r = None
        f = r.f; ks = list(f); return f[ks[0]], f[ks[1]]
CONTRACTS = [BoxFn(D, f) for D in (2, 3) for f in ("splitBox", "enlargeBoxAroundVector", "makeBoundingBox", "vecToBox", "vecToBoxBoundary")]
