from vf.spec import *
TUS = ["boxes"]
DRIVER = "C24.cpp"; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["coordinates and cell widths are treated as real numbers and the arithmetic on them as exact", "cell numbers fit 64 bits with room for the neighbouring cell", "the cell width is positive, as the constructor asserts"]
LIM = 1 << 62
def cell(it, D, name):
    """an arbitrary cell number per dimension"""
    return [it.ctx.fresh("%s_%d" % (name, d), z3.IntSort()) for d in range(D)]
class G(Contract):
    tu = "boxes"
    def __init__(self, D, fname, key=None):
        self.D, self.fname = D, fname; self.name = "Grid<%d>::%s" % (D, fname)
        self.find = fn_named(fname, cls="Grid", cls_args=(D, DOUBLE)) if fname != "intersectsWith" else fn_named(fname, scope=None, pred=lambda ast, f: "Grid<%d" % D in f["type"]["qualType"])
    def obj(self, it):
        o = this_obj(it, "Grid", (self.D, DOUBLE, I64), "grid"); w = it.read(o).f["mCellWidth"]; it.ctx.assume(w > 0); return o, w
    def index(self, it, lv, I):
        v = it.read(lv)
        for d in range(self.D):
            it.ctx.assume(And(I[d] > -LIM, I[d] < LIM)); v.e[d] = it.bv_of_int(I[d], 64)
        it.write(lv, v)
    def setup(self, it, fn):
        if self.fname == "intersectsWith":
            a = fresh_args(it, fn); w = it.read(a[0]).f["mCellWidth"]; it.ctx.assume(w > 0); I = cell(it, self.D, "cell"); self.index(it, a[2], I)
            it.ctx.assume(it.read(a[1]).f["radius"] >= 0)
            return State(this=None, args=a, w=w, I=I)
        if self.fname == "Grid":
            a = fresh_args(it, fn); it.ctx.assume(it.read(a[0]) > 0); o = this_obj(it, "Grid", (self.D, DOUBLE, I64), "grid"); return State(this=o, args=a, w=it.read(a[0]))
        o, w = self.obj(it); a = fresh_args(it, fn); S = State(this=o, args=a, w=w)
        if self.fname in ("boundsOf", "centerOf"):
            S.I = cell(it, self.D, "cell"); self.index(it, a[0], S.I)
        if self.fname == "indexAt":
            for x in it.read(a[0]).e: it.ctx.assume(And(x < w * (LIM - 1), x > -w * (LIM - 1)))
        if self.fname == "fitOneDimension":
            x = it.read(a[0]); it.ctx.assume(And(x < w * (LIM - 1), x > -w * (LIM - 1)))
        return S
    def holds(self, it, I, w, x): return And(z3.ToReal(I) * w <= x, x < (z3.ToReal(I) + 1) * w)
    def post(self, it, S, r):
        D, w, f = self.D, S.w, self.fname
        if f == "Grid": return [("the cell width is kept", it.read(S.this).f["mCellWidth"] == w)]
        if f == "cellWidth": return [("the cell width", r == w)]
        if f == "fitOneDimension":
            x = it.read(S.args[0]); self.quotient(it, w, [x]); return [("the number of the cell the coordinate lies in", self.holds(it, it.int_of_bv(r, True), w, x))]
        if f == "indexAt":
            xs = it.read(S.args[0]).e; self.quotient(it, w, xs)
            return [("dimension %d: the point lies in the cell" % d, self.holds(it, it.int_of_bv(r.e[d], True), w, xs[d])) for d in range(D)]
        if f == "centerOf":
            return [("dimension %d: centre of the cell" % d, 2 * r.e[d] == (2 * z3.ToReal(S.I[d]) + 1) * w) for d in range(D)]
        if f == "boundsOf":
            lo, hi = r.f["low"].e, r.f["high"].e; out = []
            J = cell(it, D, "other"); lv = LVal(Cell(it.fresh_val(Type("rec", "std::array", (I64, D)), "other"), "other")); self.index(it, lv, J)
            q = call_member(it, S.this, "boundsOf", [lv]); p = it.fresh_val(FixArrT(D), "p"); 
            for x in p.e: it.ctx.assume(And(x < w * (LIM - 1), x > -w * (LIM - 1)))
            K = call_member(it, S.this, "indexAt", [LVal(Cell(p, "p"))]); self.quotient(it, w, p.e); Ks = [it.int_of_bv(K.e[d], True) for d in range(D)]
            for d in range(D):
                out += [("dimension %d: bounds of the cell" % d, And(lo[d] == z3.ToReal(S.I[d]) * w, hi[d] == (z3.ToReal(S.I[d]) + 1) * w))]
                # products with the width are monotone
                i, j, k = [z3.ToReal(x[d]) for x in (S.I, J, Ks)]
                for x, y, s in ((i, j, "other cell"), (j, i, "other cell, reversed"), (i, k, "cell of the point"), (k, i, "cell of the point, reversed")):
                    it.ctx.oblige("lemma: multiples of the width are ordered (%s, dimension %d)" % (s, d), Implies(x + 1 <= y, (x + 1) * w <= y * w), "lemma")
                out += [("dimension %d: different cells do not overlap" % d, Implies(S.I[d] != J[d], Or(hi[d] <= q.f["low"].e[d], q.f["high"].e[d] <= lo[d]))),
                        ("dimension %d: consecutive cells share a bound" % d, Implies(J[d] == S.I[d] + 1, hi[d] == q.f["low"].e[d])),
                        ("dimension %d: a coordinate is mapped to the cell exactly when it lies in its bounds" % d, And(lo[d] <= p.e[d], p.e[d] < hi[d]) == (Ks[d] == S.I[d]))]
            return out
        if f == "intersectsWith":
            r = to_bool(r); s = it.read(S.args[1]); c, rad = s.f["center"].e, s.f["radius"]
            lo = [z3.ToReal(i) * w for i in S.I]; hi = [(z3.ToReal(i) + 1) * w for i in S.I]
            near = [If(x < l, l, If(x > h, h, x)) for x, l, h in zip(c, lo, hi)]; d = [x - n for x, n in zip(c, near)]
            t = d[0] * d[0]
            for x in d[1:]: t = t + x * x
            return [("reported only when the nearest point of the cell is within the radius", Implies(r, t <= rad * rad)), ("reported whenever the nearest point of the cell is within the radius", Implies(t <= rad * rad, r))]
    def fn(self, it): return self.find(it.ast)
    def quotient(self, it, w, xs):
        for x in xs:
            I = z3.ToInt(x / w)
            it.ctx.oblige("lemma: the floor of the quotient", And(z3.ToReal(I) <= x / w, x / w < z3.ToReal(I) + 1), "lemma")
            it.ctx.oblige("lemma: quotient times width", (x / w) * w == x, "lemma")
            it.ctx.oblige("lemma: lower bound of the cell", z3.ToReal(I) * w <= (x / w) * w, "lemma")
            it.ctx.oblige("lemma: upper bound of the cell", (x / w) * w < (z3.ToReal(I) + 1) * w, "lemma")
def FixArrT(D): return Type("rec", "std::array", (DOUBLE, D))
CONTRACTS = [G(D, f) for D in (2, 3) for f in ("Grid", "cellWidth", "fitOneDimension", "indexAt", "centerOf", "boundsOf", "intersectsWith")]
