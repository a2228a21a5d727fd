from contracts.runrec import *
from contracts.C22 import same_map, Meas, fnp, MAPS, Accessor
DRIVER = "C23.cpp"; DRIVER_SRCS = ["src/utils/Timings.cpp", "src/utils/System.cpp"]; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["the sum of the measurements of a name fits in 64 bits", "maps are finite partial functions; single-threaded histories", "the sum is defined by recursion on the number of measurements"]
W = 72
SUM = z3.Function("sum_of_first", IDX, z3.BitVecSort(W))     # exact sum of the first i measurements
def wide(x): return z3.ZeroExt(W - 64, x)
class Avg(Run):
    name = "ExperimentRun::avgMeasurement"
    def __init__(self):
        Run.__init__(self); self.find = fn_named("avgMeasurement", cls="ExperimentRun"); self.loops = {("avgMeasurement", 0): self.loop}
    def setup(self, it, fn):
        o = self.rec(it); a = fresh_args(it, fn); m = it.read(o).f["m_measurements"]; k = it.read(a[0]); v = m.f["$val"].get(k); self.v = v
        it.ctx.assume(ULT(v.size, bv(1 << 48)))
        i = qv("i")
        it.ctx.assume(SUM(bv(0)) == 0)
        # the definition of the sum; partial sums of naturals do not exceed the whole sum, which fits 64 bits
        it.ctx.assume(z3.ForAll([i], Implies(ULT(i, v.size), And(SUM(i + 1) == SUM(i) + wide(v.arrs[0][i]), ULE(SUM(i), z3.BitVecVal(2**64 - 1, W)), ULE(SUM(i + 1), z3.BitVecVal(2**64 - 1, W)))), patterns=[v.arrs[0][i]]))
        return State(this=o, args=a, m=m, k=k, v=v, o0=copy_val(it.read(o)))
    def loop(self, it, n):
        def inv(L):
            i = L.pos()
            return [("position", ULE(i, self.v.size)), ("sum of the visited measurements", And(L.var("avg") == z3.Extract(63, 0, SUM(i)), z3.Extract(W - 1, 64, SUM(i)) == 0))]
        return LoopSpec("summation", inv, variant=lambda L: self.v.size - L.pos())
    def unchanged(self, it, S): return [("%s unchanged" % x, same_map(it.read(S.this).f[x], S.o0.f[x])) for x in MAPS]
    def post(self, it, S, r):
        n = S.v.size; s = SUM(n)
        return [("the name has measurements recorded", has(S.m)[S.k]), ("the mean, rounded down", Implies(n != 0, r == z3.UDiv(z3.Extract(63, 0, s), n))), ("the sum is not cut off", s == wide(z3.Extract(63, 0, s))),
                ("zero when there are none", Implies(n == 0, r == 0))] + self.unchanged(it, S)
    def throws(self, it, S, e):
        if "out_of_range" not in repr(e.t): return None
        return [("only for names not recorded", Not(has(S.m)[S.k]))] + self.unchanged(it, S)
CONTRACTS = [Avg(), Meas("ExperimentRun::addMeasurement", fnp("addMeasurement"), "m_measurements"), Accessor("addMeasurement")]
TUS = ["timings"]
