from vf.spec import *
TUS = ["utils"]
DRIVER = "C03.cpp"
W = (8, 16, 32, 64)

class H(Contract):
    tu = "utils"; unroll = 70
    def __init__(self, fname, w):
        self.w = w; self.fname = fname; self.name = "%s<uint%d_t>" % (fname, w)
        self.find = fn_named(fname, targs=(IntT(w, False),))
    def setup(self, it, fn):
        a = fresh_args(it, fn)
        vals = [it.read(x) for x in a]
        S = State(this=None, args=a, x=vals[0])
        if self.fname == "isPowN": S.n = vals[1]; it.ctx.assume(S.n != 0)
        if self.fname in ("log2", "logN"): it.ctx.assume(S.x != 0)
        if self.fname == "logN":
            n = vals[1]
            it.ctx.assume(Or(*[n == (1 << k) for k in range(1, self.w)]))
            for k in range(1, self.w):
                if k == self.w - 1 or it.ctx.branch(n == (1 << k)): break
            S.k = k; it.write(a[1], bv(1 << k, self.w))
        return S
    def post(self, it, S, r):
        w, x = self.w, S.x
        one = bv(1, w)
        if z3.is_bool(r): r = If(r, one, bv(0, w))
        if self.fname == "isPowN":
            # the remainder of non-negative numbers does not depend on the width it is computed in
            rem = z3.SRem(z3.ZeroExt(32 - w, x), z3.ZeroExt(32 - w, S.n)) if w < 32 else z3.URem(x, S.n)
        if self.fname == "isPow2": return [("non-zero exactly for powers of two", (r != 0) == Or(*[x == (1 << k) for k in range(w)]))]
        if self.fname == "isPowN": return [("exact remainder test", (r != 0) == And(x != 0, rem == 0))]
        if self.fname == "nextPow2":
            fits = And(x != 0, ULE(x, bv(1 << (w - 1), w)))
            return [("power of two", Implies(fits, Or(*[r == (1 << k) for k in range(w)]))), ("not below the argument", Implies(fits, ULE(x, r))),
                    ("smallest such power", Implies(fits, ULT(z3.LShR(r, 1), x))), ("zero when no power fits", Implies(Not(fits), r == 0))]
        if self.fname == "log2": return [("index of the highest set bit", And(ULT(r, bv(w, w)), z3.LShR(x, r) == 1))]
        if self.fname == "logN":
            k = S.k      # base 2^k: base^r <= x < base^(r+1)
            return [("largest exponent not exceeding the argument", Or(*[And(r == e, ULE(bv(1 << (k*e), w), x), (ULT(x, bv(1 << (k*(e+1)), w)) if k*(e+1) < w else z3.BoolVal(True))) for e in range(w) if k*e < w]))]
        if self.fname == "popcount":
            s = bv(0, w)
            bits = [z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]
            while len(bits) > 1: bits = [bits[i] + bits[i+1] for i in range(0, len(bits), 2)]
            return [("number of set bits", r == bits[0])]

CONTRACTS = [H(f, w) for f in ("isPow2", "isPowN", "nextPow2", "log2", "logN", "popcount") for w in W]
