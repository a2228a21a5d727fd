from contracts.geo import *
from contracts import geo
TUS = geo.TUS
DRIVER = "C17.cpp"; DRIVER_SRCS = geo.DRIVER_SRCS; DRIVER_LIBS = ["-ltbb", "-lgmpxx", "-lgmp"]
ASSUMPTIONS = geo.ASSUME + ["the adaptive predicates return the exact sign of their determinant (property C16)"]

class InSphere(G):
    def __init__(self, D): G.__init__(self, D, "inSphere")
    def post(self, it, S, r):
        F, D = S.F, self.D; r = to_bool(r)
        # any point c at the same distance from all vertices (relative to the first): |c|^2 = |c - v_i|^2
        c = [it.ctx.fresh("c_%d" % i, z3.RealSort()) for i in range(D)]
        B = 2 * dot(F.p, c) - dot(F.p, F.p)                                        # |c|^2 - |p - c|^2
        it.ctx.ring("lemma: the difference of the squared distances is 2p.c - p.p", dot(c, c) - dot(sub(F.p, c), sub(F.p, c)), B)
        L = [2 * dot(v, c) - dot(v, v) for v in F.v]
        for l, v in zip(L, F.v): it.ctx.ring("lemma: equidistance is linear", dot(c, c) - dot(sub(v, c), sub(v, c)), l)
        # I = O * B for the equidistant c, by Cramer's rule
        I = sum([n * dot(v, v) for n, v in zip(F.num[1:], F.v[1:])], F.num[0] * dot(F.v[0], F.v[0])) - F.O * dot(F.p, F.p)
        it.ctx.ring("lemma: the in-sphere determinant is the volume times the power of the point", F.O * B - I, sum([n * l for n, l in zip(F.num[1:], L[1:])], F.num[0] * L[0]))
        xO, xI, xB = [it.ctx.fresh(n, z3.RealSort()) for n in ("volume", "insphere_det", "power")]
        for t, lab in ((F.O, "volume"), (I, "in-sphere determinant")):
            pts = F.pts
            it.ctx.ring("lemma: the contract used by callers states the same %s" % lab, t, geom(pts)[0] if lab == "volume" else power(pts, F.q)[1])
        it.ctx.oblige_over("true exactly for points strictly inside or on the circumsphere", r == (xB >= 0), [(F.O, xO), (I, xI)], facts=[xO != 0, xO * xB == xI])
        return []

class InSimplex(G):
    def __init__(self, D): G.__init__(self, D, "inSimplex")
    def post(self, it, S, r):
        F, D = S.F, self.D; r = to_bool(r)
        lam = [n / F.O for n in F.num]; rest = 1 - sum(lam[1:], lam[0])
        for i in range(D):
            it.ctx.ring("lemma: the barycentric coordinates reproduce coordinate %d of the point" % i, sum([l * v[i] for l, v in zip(lam[1:], F.v[1:])], lam[0] * F.v[0][i]), F.p[i], [F.O])
        ls = [it.ctx.fresh("l", z3.RealSort()) for _ in range(D)]
        comb = [sum([l * v[i] for l, v in zip(ls[1:], F.v[1:])], ls[0] * F.v[0][i]) for i in range(D)]
        for j in range(D):
            it.ctx.ring("lemma: the barycentric coordinate %d is unique" % j, det(F.v[:j] + [comb] + F.v[j + 1:]), ls[j] * F.O)
        xs = [it.ctx.fresh("bary", z3.RealSort()) for _ in range(D + 1)]
        it.ctx.oblige_over("true exactly for convex combinations of the vertices", r == And(*[x >= 0 for x in xs]), list(zip(lam, xs[:D])) + [(rest, xs[D])], known=[F.O], facts=[sum(xs[1:], xs[0]) == 1])
        return []

CONTRACTS = [InSphere(2), InSphere(3), InSimplex(2), InSimplex(3)] + [Member(D, w) for D in (2, 3) for w in ("inSphere", "inSimplex")]
