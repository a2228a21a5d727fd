from contracts.geo import *
from contracts import geo
TUS = geo.TUS
DRIVER = "C18.cpp"; DRIVER_SRCS = geo.DRIVER_SRCS; DRIVER_LIBS = ["-ltbb", "-lgmpxx", "-lgmp"]
ASSUMPTIONS = geo.ASSUME + ["the square root is exact"]

class Circum(G):
    query = False
    def __init__(self, D): G.__init__(self, D, "circumsphere")
    def post(self, it, S, r):
        F, D = S.F, self.D
        r = it.read(r) if isinstance(r, LVal) else r
        c = list(r.f["center"].e); rad = r.f["radius"]
        out = []
        it.ctx.nonzero = [F.O]
        d0 = dot(sub(c, F.pts[0]), sub(c, F.pts[0]))
        for j in range(1, D + 1):
            s = F.pts[j]
            it.ctx.ring("the center is at the same distance from vertices 0 and %d" % j, dot(sub(c, s), sub(c, s)), d0, [F.O], kind="post", node=None)
        arg = [x for q, x in getattr(it, "sqrts", []) if q.eq(rad)]
        if not arg: return [("the radius is the distance of the center to the vertices", And(rad >= 0, rad * rad == d0))]
        it.ctx.ring("the radius is the distance of the center to the vertices", arg[-1], d0, [F.O], kind="post")
        return [("the radius is not negative", rad >= 0)]
CONTRACTS = [Circum(2), Circum(3), Member(2, "circumsphere"), Member(3, "circumsphere")]
