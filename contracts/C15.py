from vf.spec import *
from contracts.C13 import increasing
TUS = ["geom"]
DRIVER = "C15.cpp"
DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["vertices are strictly increasing and the stored fingerprints are the generated ones (genFingerprint was called after the last change of the vertices), as the class requires"]
NOID = bv((1 << 64) - 1)
class E(Contract):
    tu = "geom"
    def __init__(self, D, fname):
        self.D = D; self.fname = fname; self.name = "dSimplex<%d>::%s" % (D, fname)
        self.find = fn_named(fname, cls="dSimplex", cls_args=(D, DOUBLE), pred=lambda ast, f: "dSimplex" in repr(ast.type_of(ast.params(f)[0])))
    def setup(self, it, fn):
        o = this_obj(it, "dSimplex", (self.D, DOUBLE), "a"); p = this_obj(it, "dSimplex", (self.D, DOUBLE), "b")
        for x in (o, p):
            it.ctx.assume(increasing(it.read(x))); call_member(it, x, "genFingerprint", [])
        return State(this=o, args=[p], a=copy_val(it.read(o)), b=copy_val(it.read(p)))
    def post(self, it, S, r):
        r = to_bool(r); a, b = S.a, S.b
        same = eq_val(a.f["vertices"], b.f["vertices"]); ia, ib = a.f["id"], b.f["id"]
        if self.fname == "operator<": return [("order of the identifiers", r == ULT(ia, ib))]
        if self.fname == "equalVertices": out = [("true exactly for the same vertices", r == same)]
        else:
            out = [("two identified simplices are equal exactly when the identifiers are", Implies(And(ia != NOID, ib != NOID), r == (ia == ib))),
                   ("identified and unidentified are equal exactly for the same vertices", Implies((ia == NOID) != (ib == NOID), r == same))]
        q = to_bool(call_member(it, S.args[0], self.fname, [S.this], pred=lambda ast, f: "dSimplex" in repr(ast.type_of(ast.params(f)[0]))))
        return out + [("symmetric", q == r)]
class EqId(Contract):
    tu = "geom"
    def __init__(self, D):
        self.D = D; self.name = "dSimplex<%d>::operator==(id)" % D
        self.find = fn_named("operator==", cls="dSimplex", cls_args=(D, DOUBLE), pred=lambda ast, f: "dSimplex" not in repr(ast.type_of(ast.params(f)[0])))
    def setup(self, it, fn): return State(this=this_obj(it, "dSimplex", (self.D, DOUBLE), "a"), args=fresh_args(it, fn))
    def post(self, it, S, r): return [("compares the identifier", to_bool(r) == (it.read(S.this).f["id"] == it.read(S.args[0])))]
CONTRACTS = [E(D, f) for D in (2, 3) for f in ("operator==", "equalVertices", "operator<")] + [EqId(2), EqId(3)]
