from vf.spec import *
from vf.streams import text
DRIVER = "C28.cpp"
ASSUMPTIONS = ["texts of numbers are uninterpreted (the stream's default format)", "the variadic function is verified in eight instances with 0 to 9 fields of strings, integers, floating-point numbers, characters and booleans"]
SEP = z3.StringVal(" ")
class Csv(Contract):
    tu = "text"
    def __init__(self, k): self.k = k; self.name = "CSV::csv instance %d" % k
    def find(self, ast):
        fs = sorted(fn_named("csv", cls="CSV").all(ast), key=lambda f: int(f["id"], 16))
        if len(fs) <= self.k: raise ExtractError("instances of CSV::csv")
        return fs[self.k]
    def setup(self, it, fn):
        a = fresh_args(it, fn); return State(this=None, args=a, v=[(it.read(x), x.c.t) for x in a])
    def post(self, it, S, r):
        e = z3.StringVal("")
        for i, (v, t) in enumerate(S.v): e = z3.Concat(e, SEP, text(it, v, t)) if i else text(it, v, t)
        return [("the fields in order, one separator between consecutive fields", r == e)]
CONTRACTS = [Csv(k) for k in range(8)]
