from vf.spec import *
TUS = ["utils"]
DRIVER = "C01.cpp"
DRIVER_FLAGS = ["-O2", "-D_GLIBCXX_ASSERTIONS"]
D = z3.Range("0", "9")
SIGN = z3.Option(z3.Union(z3.Re("+"), z3.Re("-")))
INT = z3.Concat(SIGN, z3.Plus(D))
EXP = z3.Concat(z3.Union(z3.Re("e"), z3.Re("E")), SIGN, z3.Plus(D))
MANT = z3.Union(z3.Plus(D), z3.Concat(z3.Plus(D), z3.Re("."), z3.Star(D)), z3.Concat(z3.Star(D), z3.Re("."), z3.Plus(D)))
FLT = z3.Concat(SIGN, MANT, z3.Option(EXP))
ASSUMPTIONS = ["std::regex_match of the C++ library terminates and decides its pattern for strings of every length (libstdc++ recurses once per character, see known_findings.json)"]

class Rec(Contract):
    tu = "utils"
    def __init__(self, fname, lang):
        self.fname, self.lang = fname, lang; self.name = fname
        self.find = fn_named(fname)
    def setup(self, it, fn):
        s = it.ctx.fresh("s", z3.StringSort())
        it.ctx.assume(z3.InRe(s, z3.Star(z3.Range(chr(0), chr(255)))))
        return State(this=None, args=[LVal(Cell(s, "s"))], s=s)
    def post(self, it, S, r):
        r = to_bool(r)
        return [("accepts only strings of the grammar", Implies(r, z3.InRe(S.s, self.lang))), ("accepts every string of the grammar", Implies(z3.InRe(S.s, self.lang), r))]

CONTRACTS = [Rec("is_int", INT), Rec("is_float", FLT)]
