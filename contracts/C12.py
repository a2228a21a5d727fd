from vf.spec import *
TUS = ["geom"]
DRIVER = "C12.cpp"
DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["floating-point arithmetic of the box tests is treated as exact real arithmetic (finite coordinates)", "boxes are non-empty (low <= high) and radii non-negative"]

def inside(p, b): return And(*[And(lo <= x, x <= hi) for x, lo, hi in zip(p.e, b.f["low"].e, b.f["high"].e)])
def nonempty(b): return And(*[lo <= hi for lo, hi in zip(b.f["low"].e, b.f["high"].e)])
def sq(xs): return sum([x * x for x in xs[1:]], xs[0] * xs[0])

class BoxC(Contract):
    tu = "geom"
    def __init__(self, D, what):
        self.D, self.what = D, what
        self.name = "dBox<%d>::%s" % (D, what)
        fn, key = what.split(" ")
        self.find = fn_named(fn, cls="dBox", cls_args=(D, DOUBLE), pred=lambda ast, f: {"point": "array", "box": "dBox", "sphere": "dSphere"}[key] in repr(ast.type_of(ast.params(f)[0])))
    def setup(self, it, fn):
        o = this_obj(it, "dBox", (self.D, DOUBLE)); a = fresh_args(it, fn)
        it.ctx.assume(nonempty(it.read(o)))
        v = it.read(a[0])
        if self.what == "contains box": it.ctx.assume(nonempty(v))
        if "sphere" in self.what: it.ctx.assume(v.f["radius"] >= 0)
        return State(this=o, args=a, b=copy_val(it.read(o)), v=copy_val(v))
    def post(self, it, S, r):
        r = to_bool(r); b, v, D = S.b, S.v, self.D
        q = it.fresh_val(it.ast.type_of_name("dVector") if False else FixArrT(D), "q")
        if self.what == "contains point":
            return [("true only inside", Implies(r, inside(v, b))), ("true for every point inside", Implies(inside(v, b), r))]
        if self.what == "contains box":
            return [("true only when every point of the box is inside", Implies(And(r, inside(q, v)), inside(q, b))),
                    ("true when the corners are inside", Implies(And(inside(v.f["low"], b), inside(v.f["high"], b)), r))]
        c, rad = v.f["center"], v.f["radius"]
        if self.what == "contains sphere":
            faces = And(*[And(x - lo >= rad, hi - x >= rad) for x, lo, hi in zip(c.e, b.f["low"].e, b.f["high"].e)])
            return [("true only when the center is inside and no face is closer than the radius", Implies(r, And(inside(c, b), faces))),
                    ("true when the center is inside and no face is closer than the radius", Implies(And(inside(c, b), faces), r))]
        near = [If(x < lo, lo, If(x > hi, hi, x)) for x, lo, hi in zip(c.e, b.f["low"].e, b.f["high"].e)]
        d = [x - n for x, n in zip(c.e, near)]
        for i in range(D):
            # the clamped point is the nearest one, coordinate by coordinate
            it.ctx.oblige("lemma: clamping is nearest in dimension %d" % i, Implies(inside(q, b), (q.e[i] - c.e[i]) * (q.e[i] - c.e[i]) >= d[i] * d[i]), "lemma")
        return [("true only when some point of the box is within the radius", Implies(r, sq(d) <= rad * rad)),
                ("true when the nearest point is within the radius", Implies(sq(d) <= rad * rad, r)),
                ("every other point of the box is at least as far", Implies(inside(q, b), sq([x - y for x, y in zip(q.e, c.e)]) >= sq(d)))]
def FixArrT(D): return Type("rec", "std::array", (DOUBLE, D))

CONTRACTS = [BoxC(D, w) for D in (2, 3) for w in ("contains point", "contains box", "contains sphere", "intersects sphere")]
