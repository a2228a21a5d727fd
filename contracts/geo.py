"""Shared by C17 and C18: the geometric core over exact real arithmetic.  Points are given relative to the first
vertex (s_i = s_0 + v_i, a bijective change of variables) so that polynomial identities stay small."""
from vf.spec import *
TUS = ["geocore"]
DRIVER_SRCS = ["src/lib/Geometry.cpp", "src/utils/Predicates.cpp", "src/utils/System.cpp", "src/utils/Logger.cpp", "src/utils/ccolor.cpp", "src/utils/Timings.cpp"]
ASSUME = ["coordinates are treated as real numbers and the arithmetic on them as exact", "the simplex is not degenerate (its vertices are affinely independent)"]

def vec(p): return list(p.f["coords"].e)
def sub(a, b): return [x - y for x, y in zip(a, b)]
def dot(a, b): return sum([x * y for x, y in zip(a[1:], b[1:])], a[0] * b[0])
def det(rows):
    if len(rows) == 1: return rows[0][0]
    if len(rows) == 2: return rows[0][0] * rows[1][1] - rows[0][1] * rows[1][0]
    out = None
    for j, x in enumerate(rows[0]):
        m = x * det([r[:j] + r[j + 1:] for r in rows[1:]])
        out = m if out is None else (out + m if j % 2 == 0 else out - m)
    return out
def zero(D): return [z3.RealVal(0)] * D

class Frame:
    """coordinates relative to the first vertex: v[0..D-1] the other vertices, p the query point"""
    def __init__(self, it, D, query=True):
        self.D = D; R = z3.RealSort(); f = it.ctx.fresh
        self.o = [f("s0_%d" % i, R) for i in range(D)]
        self.v = [[f("v%d_%d" % (j + 1, i), R) for i in range(D)] for j in range(D)]
        self.p = [f("p_%d" % i, R) for i in range(D)] if query else None
        self.pts = [self.o] + [[a + b for a, b in zip(self.o, v)] for v in self.v]
        self.q = [a + b for a, b in zip(self.o, self.p)] if query else None
        self.O = det(self.v)                                                            # signed volume
        # Cramer numerators of the barycentric coordinates of p
        self.num = [det(self.v[:j] + [self.p] + self.v[j + 1:]) for j in range(D)] if query else None
        it.ctx.assume(self.O != 0)
    def put(self, val, c):
        val.f["coords"].e[:] = c
        return val

def place(it, fn, F, S):
    """arguments of fn: the vertices s0.. and the query point p, by name"""
    a = fresh_args(it, fn)
    for x, d in zip(a, AST.params(fn)):
        v = it.read(x); n = d.get("name")
        if not isinstance(v, RecV): continue
        if n == "p": F.put(v, F.q)
        elif n in ("s0", "s1", "s2", "s3"): F.put(v, F.pts[int(n[1])])
        it.write(x, v)
    return a

def sign_of(what, D):
    """contract assumed of the adaptive predicates (property C16): the result has exactly the sign of the determinant"""
    def h(it, args, n):
        P = []
        for v in args:
            p = it.rv(v); P.append([it.real(it.read(it.deref(it.ptr_add(p, idx(i)), n))) for i in range(D)])
        if len(P) != D + (1 if what == "orient" else 2): raise Unsupported("number of points given to %s" % what)
        rows = [sub(x, P[-1]) for x in P[:-1]]
        d = det(rows) if what == "orient" else det([r + [dot(r, r)] for r in rows])
        r = it.ctx.fresh(what, z3.RealSort())
        it.ctx.assume((r > 0) == (d > 0)); it.ctx.assume((r < 0) == (d < 0))
        it.ctx.runner.note("%s of dimension %d returns the exact sign (property C16)" % (what, D))
        return r
    return h
def predicates(D): return {w: sign_of(w, D) for w in ("orient", "insphere")}

class G(Contract):
    tu = "geocore"; dups = False; query = True
    def __init__(self, D, fname, names=None, **k):
        self.D, self.fname = D, fname; self.name = "GeometryCore<%d>::%s" % (D, fname)
        self.find = fn_named(fname, cls="GeometryCore", cls_args=(D, DOUBLE), **k); self.free = predicates(D)
    def setup(self, it, fn):
        F = Frame(it, self.D, self.query); it.ctx.nonzero = [F.O]
        return State(this=None, args=place(it, fn, F, None), F=F)

# ---- the members of the simplex class that pass its vertices on, for a vector of points
def geom(pts, p=None):
    """volume and Cramer numerators of absolute points"""
    D = len(pts) - 1; v = [sub(x, pts[0]) for x in pts[1:]]; O = det(v)
    if p is None: return O, None, v
    q = sub(p, pts[0])
    return O, [det(v[:j] + [q] + v[j + 1:]) for j in range(D)], v
def power(pts, p):
    """numerator I of the power of the point: I = O * (|c - s_0|^2 - |c - p|^2)"""
    O, num, v = geom(pts, p); q = sub(p, pts[0])
    return O, sum([n * dot(x, x) for n, x in zip(num[1:], v[1:])], num[0] * dot(v[0], v[0])) - O * dot(q, q)

class CoreContract:
    """contracts of GeometryCore used by its callers (each proved of the bodies in C17 / C18)"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def __init__(self, what): self.what = what
    def apply(self, it, this, vals, f, n=None):
        P = [vec(it.read(v)) for v in vals]
        q, pts = (None, P) if self.what == "circumsphere" else (P[0], P[1:])
        if self.what == "inSphere":
            O, I = power(pts, q)
            return Or(And(O > 0, I >= 0), And(O < 0, I <= 0))
        if self.what == "inSimplex":
            O, num, v = geom(pts, q)
            return Or(And(O > 0, *[x >= 0 for x in num], O - sum(num[1:], num[0]) >= 0), And(O < 0, *[x <= 0 for x in num], O - sum(num[1:], num[0]) <= 0))
        r = it.fresh_val(Type("rec", "dSphere", (len(q or P[0]), DOUBLE)), "sphere"); c, rad = list(r.f["center"].e), r.f["radius"]
        it.ctx.assume(rad >= 0)
        for s in pts: it.ctx.assume(rad * rad == dot(sub(c, s), sub(c, s)))
        return r

class Member(Contract):
    tu = "geocore"
    def __init__(self, D, what):
        self.D, self.what = D, what; self.name = "dSimplex<%d>::%s" % (D, what)
        self.find = fn_named(what, cls="dSimplex", cls_args=(D, DOUBLE), pred=lambda ast, f: "vector" in repr(ast.type_of(ast.params(f)[-1])))
        self.calls = [(fn_named(what, cls="GeometryCore", cls_args=(D, DOUBLE)).all, CoreContract(what))]
    def setup(self, it, fn):
        o = this_obj(it, "dSimplex", (self.D, DOUBLE)); a = fresh_args(it, fn)
        s = it.read(o); pv = it.read(a[-1])
        vs = s.f["vertices"].e
        for k in vs: it.ctx.assume(ULT(k, pv.size))
        pts = [vec(pv.get(k)) for k in vs]
        O, _, v = geom(pts); it.ctx.assume(O != 0)
        return State(this=o, args=a, pts=pts, O=O, p=vec(it.read(a[0])) if len(a) > 1 else None)
    def post(self, it, S, r):
        if self.what == "circumsphere":
            r = it.read(r) if isinstance(r, LVal) else r
            c, rad = list(r.f["center"].e), r.f["radius"]
            return [("the sphere passes through vertex %d" % i, And(rad >= 0, rad * rad == dot(sub(c, s), sub(c, s)))) for i, s in enumerate(S.pts)]
        r = to_bool(r); xO = it.ctx.fresh("volume", z3.RealSort())
        if self.what == "inSphere":
            O, I = power(S.pts, S.p); xI = it.ctx.fresh("insphere_det", z3.RealSort())
            it.ctx.oblige_over("true exactly for points in the closed circumsphere of the vertices", r == (xO * xI >= 0), [(O, xO), (I, xI)], facts=[xO != 0])
        else:
            O, num, v = geom(S.pts, S.p); rest = O - sum(num[1:], num[0])
            xs = [it.ctx.fresh("bary", z3.RealSort()) for _ in range(self.D + 1)]
            it.ctx.oblige_over("true exactly for points of the closed simplex of the vertices", r == And(*[x * xO >= 0 for x in xs]), [(O, xO)] + list(zip(num + [rest], xs)), facts=[xO != 0])
        return []
