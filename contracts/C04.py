from vf.spec import *
DRIVER = "C04.cpp"
ASSUMPTIONS = ["verified in the instance Container = std::vector<std::string> (the only one used)"]
Int = z3.IntSort(); Str = z3.StringSort()
P = z3.Function("piece_start", Int, Int)            # start of the k-th piece
W = z3.Function("piece", Int, Str)                  # text of the k-th piece
LAST = z3.Function("piece_is_last", Int, z3.BoolSort())
KEEP = z3.Function("piece_is_kept", Int, z3.BoolSort())
C = z3.Function("kept_before", Int, IDX)            # number of kept pieces before the k-th
J = z3.Function("joined_before", Int, Str)          # the pieces before the k-th, each followed by the delimiter
class Split(Contract):
    """pieces are defined by recursion on their number; instances of that definition are assumed as needed"""
    tu = "utils"
    def __init__(self, join): self.join = join; self.find = fn_named("split"); self.name = "split<std::vector<std::string>>" + (" (joining)" if join else ""); self.loops = {("split", 0): self.loop}
    def setup(self, it, fn):
        a = fresh_args(it, fn); s, d, e = [it.read(x) for x in a[1:]]
        self.s, self.d, self.all = s, z3.StrFromCode(z3.BV2Int(d)), e == 0
        it.ctx.assume(Or(e == 0, e == 1))
        it.ctx.assume(And(P(0) == 0, C(0) == 0, J(0) == z3.StringVal("")))
        return State(this=None, args=a)
    def define(self, it, k):
        i = z3.IndexOf(self.s, self.d, P(k))
        it.ctx.assume(And(LAST(k) == (i < 0), P(k + 1) == i + 1, W(k) == z3.SubString(self.s, P(k), If(i < 0, z3.Length(self.s), i) - P(k)),
                          KEEP(k) == Or(self.all, z3.Length(W(k)) > 0), C(k + 1) == C(k) + If(KEEP(k), bv(1), bv(0))))
        if self.join: it.ctx.assume(J(k + 1) == z3.Concat(J(k), W(k), self.d))
    def stored(self, o, k):
        a = o.arrs[0]
        def q(j): return Implies(And(j >= 0, j < k, KEEP(j)), And(ULT(C(j), C(k)), z3.Select(a, C(j)) == W(j)))
        return [("the kept pieces are stored in order and nothing else", And(o.size == C(k), forall(1, q, sort=Int, pats=lambda j: [C(j)])))]
    def loop(self, it, n):
        def inv(L):
            k, ss, o = L.ghost["k"], L.var("ss"), L.var("result"); eof = ss.f["eof"]
            out = [("pieces read so far", And(k >= 0, ss.f["buf"] == self.s, If(eof, And(k >= 1, LAST(k - 1)), And(ss.f["pos"] == P(k), Not(ss.f["fail"]), P(k) >= 0, P(k) <= z3.Length(self.s)))))]
            if self.join: return out + [("joined pieces", If(eof, z3.Concat(J(k - 1), W(k - 1)) == self.s, J(k) == z3.SubString(self.s, 0, P(k))))]
            return out + [("no piece before the last one ends the input", forall(1, lambda j: Implies(And(j >= 0, j < If(eof, k - 1, k)), Not(LAST(j))), sort=Int, pats=lambda j: [LAST(j)]))] + self.stored(o, k)
        def variant(L):
            ss = L.var("ss"); return If(ss.f["eof"], z3.IntVal(0), z3.Length(self.s) - ss.f["pos"] + 1)
        def start(L): self.define(L.it, L.ghost["k"])
        def end(L): L.ghost["k"] = L.ghost["k"] + 1
        return LoopSpec("piece loop", inv, variant=variant, body_start=start, body_end=end, ghost=dict(k=z3.IntVal(0)))
    def post(self, it, S, r):
        k = it.ghost["k"]; o = it.read(S.args[0])
        if self.join: return [("joining the pieces with the delimiter gives the input", z3.Concat(J(k - 1), W(k - 1)) == self.s)]
        if not isinstance(r, LVal) or not z3.is_true(z3.simplify(same_loc(it, r, S.args[0]))): raise Unsupported("result reference")
        return [("the pieces end with the last one", And(k >= 1, LAST(k - 1), forall(1, lambda j: Implies(And(j >= 0, j < k - 1), Not(LAST(j))), sort=Int, pats=lambda j: [LAST(j)])))] + self.stored(o, k)
CONTRACTS = [Split(False), Split(True)]
