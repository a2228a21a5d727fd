from vf.spec import *
TUS = ["geom"]
DRIVER = "C14.cpp"
DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["the vertices of one simplex are pairwise different"]

class G(Contract):
    """genFingerprint: same value for every order of the vertices, whatever the other fields (relational)"""
    tu = "geom"
    def __init__(self, D): self.D = D; self.name = "dSimplex<%d>::genFingerprint" % D; self.find = fn_named("genFingerprint", cls="dSimplex", cls_args=(D, DOUBLE))
    def setup(self, it, fn):
        o = this_obj(it, "dSimplex", (self.D, DOUBLE), "a"); return State(this=o, args=[], s=copy_val(it.read(o)))
    def post(self, it, S, r):
        out = []
        o = it.read(S.this)
        out.append(("the stored fingerprint is the returned one", o.f["vFingerprint"] == r))
        for f in ("id", "vertices", "neighbors", "mark"): out.append(("%s unchanged" % f, eq_val(o.f[f], S.s.f[f])))
        same = this_obj(it, "dSimplex", (self.D, DOUBLE), "b"); it.read(same).f["vertices"] = copy_val(S.s.f["vertices"])
        out.append(("independent of neighbors, identifier, mark and old fingerprint", call_member(it, same, "genFingerprint", []) == r))
        # adjacent transpositions generate every permutation
        for k in range(self.D):
            b = this_obj(it, "dSimplex", (self.D, DOUBLE), "b"); v = copy_val(S.s.f["vertices"]); v.e[k], v.e[k + 1] = v.e[k + 1], v.e[k]
            it.read(b).f["vertices"] = v
            out.append(("invariant under exchanging vertices %d and %d" % (k, k + 1), call_member(it, b, "genFingerprint", []) == r))
        fp = call_member(it, S.this, "fingerprint", [])
        out.append(("fingerprint() is the stored value", fp == r))
        return out

class F(Contract):
    """faceFingerprint of two simplices whose vertex sets without vertex i / vertex j agree"""
    tu = "geom"
    def __init__(self, D, i): self.D, self.i = D, i; self.name = "dSimplex<%d>::faceFingerprint(%d)" % (D, i); self.find = fn_named("faceFingerprint", cls="dSimplex", cls_args=(D, DOUBLE))
    def setup(self, it, fn):
        o = this_obj(it, "dSimplex", (self.D, DOUBLE), "a")
        call_member(it, o, "genFingerprint", [])
        return State(this=o, args=[LVal(Cell(bv(self.i, 32), "i"))], s=copy_val(it.read(o)))
    def post(self, it, S, r):
        out = [("a face fingerprint is never zero", r != 0)]
        v = S.s.f["vertices"].e; face = v[:self.i] + v[self.i + 1:]
        for j in range(self.D + 1):
            for pm in itertools.permutations(range(self.D)):
                b = this_obj(it, "dSimplex", (self.D, DOUBLE), "b")
                w = [face[k] for k in pm]; w.insert(j, it.ctx.fresh("opposite", IDX)); it.read(b).f["vertices"].e = w
                call_member(it, b, "genFingerprint", [])
                q = call_member(it, b, "faceFingerprint", [bv(j, 32)])
                out.append(("equal from the other side, opposite vertex at %d, order %s" % (j, pm), q == r))
        return out

CONTRACTS = [G(2), G(3)] + [F(D, i) for D in (2, 3) for i in range(D + 1)]
