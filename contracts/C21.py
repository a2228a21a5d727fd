from contracts.runrec import *
from contracts.C22 import ctors, one
from vf.streams import text
from vf.interp import Obl
DRIVER = "C21.cpp"; DRIVER_SRCS = ["src/utils/Timings.cpp", "src/utils/System.cpp"]; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["default separators", "no name followed by the inner separator contains it earlier and no value followed by the trait separator contains it earlier (the names and values contain no separator)", "texts are shorter than 2^62 characters; maps are finite partial functions with some enumeration of their keys",
    "the text of a record is defined by recursion from its last entry"]
SEP, INNER = sv("   "), sv(": ")
R = z3.Function("text_from", IDX, Str)          # text of the entries i, i+1, ...
L_ = z3.Length
def lemmas(it):
    """facts about strings, each proved once with arbitrary strings"""
    p, k, v, r = [it.ctx.fresh(x, Str) for x in "pkvr"]
    Ls = [("end of a name", [z3.IndexOf(z3.Concat(k, INNER), INNER, 0) == L_(k)], z3.IndexOf(z3.Concat(p, k, INNER, r), INNER, L_(p)) == L_(p) + L_(k)),
          ("end of a value", [z3.IndexOf(z3.Concat(v, SEP), SEP, 0) == L_(v)], z3.IndexOf(z3.Concat(p, v, SEP, r), SEP, L_(p)) == L_(p) + L_(v)),
          ("end of the last value", [z3.IndexOf(z3.Concat(v, SEP), SEP, 0) == L_(v)], z3.IndexOf(z3.Concat(p, v), SEP, L_(p)) == -1),
          ("middle part", [], z3.SubString(z3.Concat(p, v, r), L_(p), L_(v)) == v),
          ("rest", [], z3.SubString(z3.Concat(p, v), L_(p), L_(p) + L_(v)) == v)]
    out = {}
    for nm, hs, g in Ls:
        if it.ctx.live: it.ctx.runner.add_obl(Obl(fn=it.ctx.runner.cname, name="lemma: " + nm, hyps=list(hs), goal=g, kind="lemma", line=None, inputs=[], path=[], hints=[]))
        f = Implies(And(*hs), g) if hs else g
        out[nm] = lambda f=f, **w: z3.substitute(f, *[(x, w[str(n)]) for x, n in zip((p, k, v, r), "pkvr") if n in w])
    return out
class Text(Run):
    def entries(self, it, src):
        """definition of the text of a record"""
        self.src = src; self.K, self.pos, self.n = K, pos, n = maps.enum(it, src)
        i = qv("i")
        it.ctx.assume(R(n) == sv(""))
        self.sep = lambda i: If(i == 0, sv(""), SEP)
        self.k = lambda i: K[i]; self.v = lambda i: val(src, K[i])
    def unfold(self, it, i):
        it.ctx.assume(Implies(ULT(i, self.n), R(i) == z3.Concat(self.sep(i), self.k(i), INNER, self.v(i), R(i + 1))))
class Write(Text):
    name = "ExperimentRun::str"
    def __init__(self, meas):
        Run.__init__(self); self.meas = meas; self.find = fn_named("str", cls="ExperimentRun"); self.loops = {("str", 0): self.traits_loop, ("str", 1): self.meas_loop}
        if meas: self.name += " with measurements"; self.calls = [(fn_named("avgMeasurement", cls="ExperimentRun").all, AvgCall())]
    def setup(self, it, fn):
        o = self.rec(it); a = fresh_args(it, fn, values={"_traitSep": SEP, "_innerSep": INNER, "printMeas": z3.BoolVal(self.meas)})
        self.entries(it, self.traits(it, o)); self.o0 = copy_val(it.read(o)); it.ctx.assume(self.n != 0)
        if self.meas:
            self.m = self.o0.f["m_measurements"]; self.MK, _, self.mn = maps.enum(it, self.m)
            it.ctx.assume(M(self.mn) == sv(""))
        return State(this=o, args=a)
    def traits_loop(self, it, n):
        def inv(L):
            i = L.range_it()[0].f["i"]; ss = L.var("ss")
            return [("position", ULE(i, self.n)), ("written so far", z3.Concat(ss.f["buf"], R(i)) == R(bv(0))), ("separator", L.var("sep") == If(i == 0, sv(""), SEP))]
        return LoopSpec("traits", inv, variant=lambda L: self.n - L.range_it()[0].f["i"], head=lambda L: self.unfold(it, L.range_it()[0].f["i"]))
    def meas_loop(self, it, n):
        self.T = None
        def inv(L):
            i = L.range_it()[0].f["i"]; ss = L.var("ss")
            return [("position", ULE(i, self.mn)), ("written so far", z3.Concat(ss.f["buf"], M(i)) == z3.Concat(R(bv(0)), M(bv(0)))), ("separator", L.var("sep") == SEP)]
        def head(L):
            i = L.range_it()[0].f["i"]
            it.ctx.assume(Implies(ULT(i, self.mn), M(i) == z3.Concat(SEP, self.MK[i], INNER, text(it, AVG(self.MK[i]), IntT(64, False)), M(i + 1))))
        return LoopSpec("measurements", inv, variant=lambda L: self.mn - L.range_it()[0].f["i"], head=head)
    def post(self, it, S, r): return [("the text is every trait with its value, separated, and nothing else", r == (z3.Concat(R(bv(0)), M(bv(0))) if self.meas else R(bv(0))))]
M = z3.Function("measurement_text_from", IDX, Str); AVG = z3.Function("average_of", Str, IDX)
class AvgCall(Contract):
    """avgMeasurement (property C23): a function of the name, for names with measurements"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def apply(self, it, this, vals, f, n=None):
        v = vals[0]; k = it.read(v) if isinstance(v, LVal) else it.val(v); m = it.read(this).f["m_measurements"]
        it.ctx.oblige("the name given to avgMeasurement has measurements", has(m)[k], "pre", n); return AVG(k)
class Read(Text):
    name = "ExperimentRun::ExperimentRun(text)"
    def __init__(self):
        Run.__init__(self); self.find = lambda ast: one([f for f in ctors(ast) if len(AST.params(f)) == 3]); self.loops = {("ExperimentRun", 0): self.loop}
    def setup(self, it, fn):
        src = self.rec(it, "src"); m = copy_val(self.traits(it, src)); self.entries(it, m); self.lem = lemmas(it)
        it.ctx.assume(self.n != 0)
        a = fresh_args(it, fn, values={"run": R(bv(0)), "_traitSep": SEP, "_innerSep": INNER}); it.ctx.assume(L_(R(bv(0))) < 2**62)
        t = Type("rec", "ExperimentRun", ())
        return State(this=LVal(Cell(RecV(t, {}), "run", t)), args=a)
    def obl(self, it, name, hyps, goal):
        if it.ctx.live: it.ctx.runner.add_obl(Obl(fn=it.ctx.runner.cname, name=name, hyps=list(hyps), goal=goal, kind="lemma", line=None, inputs=[], path=list(it.ctx.dec), hints=[]))
    def good(self, it, i):
        k, v = self.k(i), self.v(i)
        it.ctx.assume(Implies(ULT(i, self.n), And(z3.IndexOf(z3.Concat(k, INNER), INNER, 0) == L_(k), z3.IndexOf(z3.Concat(v, SEP), SEP, 0) == L_(v))))
    def seplen(self, i): return If(i == 0, z3.IntVal(0), z3.IntVal(3))
    def loop(self, it, n):
        run = R(bv(0)); K, N = self.K, self.n; own = [sv("host"), sv("git-rev")]
        def inv(L):
            i, pre = L.ghost["i"], L.ghost["pre"]; c = it.uview(L.var("currPos")); m = L.this.f["m_traits"]; q = z3.Const("k!rd", Str)
            isown = Or(*[q == x for x in own]); taken = And(has(self.src)[q], ULT(self.pos[q], i), Not(ign(q)))
            return [("position", ULE(i, N)), ("the text read so far is the first entries", And(run == z3.Concat(pre, R(i)), If(ULT(i, N), c == L_(pre) + self.seplen(i), c >= L_(run)), c < 2**63)),
                    ("recorded names", z3.ForAll([q], has(m)[q] == Or(isown, taken))), ("recorded values", z3.ForAll([q], Implies(taken, val(m, q) == val(self.src, q))))]
        def head(L):
            self.unfold(it, L.ghost["i"]); self.unfold(it, L.ghost["i"] + 1); self.good(it, L.ghost["i"])
        def start(L):
            i, pre = L.ghost["i"], L.ghost["pre"]; c = it.ctx; k, v, s = self.k(i), self.v(i), self.sep(i); lem = self.lem
            nx = i + 1; rest = R(nx); p1 = z3.Concat(pre, s); p2 = z3.Concat(pre, s, k, INNER); tail = z3.Concat(self.k(nx), INNER, self.v(nx), R(nx + 1))
            c.oblige("lemma: lies before the end", ULT(i, N), "lemma")
            c.oblige("lemma: shape of the text", run == z3.Concat(pre, s, k, INNER, v, rest), "lemma")
            c.oblige("lemma: what follows", If(ULT(nx, N), rest == z3.Concat(SEP, tail), rest == sv("")), "lemma")
            P1, P2, T1, T2, T = [c.fresh(x, Str) for x in ("p1", "p2", "t1", "t2", "t")]; b, e = L_(P1), L_(P2)
            defs = [P1 == p1, P2 == p2, T1 == z3.Concat(v, rest), T2 == rest, T == tail]
            for d in defs: c.assume(d)
            # each step from the facts it needs only
            def step(name, hyps, goal): self.obl(it, "lemma: " + name, hyps, goal); c.assume(goal)
            shape = run == z3.Concat(pre, s, k, INNER, v, rest); g0 = L_(P1) == L_(pre) + self.seplen(i)
            step("start of the entry", defs, g0)
            g1 = run == z3.Concat(P1, k, INNER, T1); g2 = run == z3.Concat(P2, v, T2); g3 = P2 == z3.Concat(P1, k, INNER); g4 = If(ULT(nx, N), T2 == z3.Concat(SEP, T), T2 == sv("")); g5 = e == b + L_(k) + 2
            step("entry from its name on", defs + [shape], g1); step("entry from its value on", defs + [shape], g2); step("the name ends before the value", defs, g3); step("value start", [g3], g5)
            step("what follows the value", defs + [If(ULT(nx, N), rest == z3.Concat(SEP, tail), rest == sv(""))], g4)
            l1, l2, l3 = lem["end of a name"](p=P1, k=k, r=T1), lem["end of a value"](p=P2, v=v, r=T), lem["end of the last value"](p=P2, v=v)
            ok = [z3.IndexOf(z3.Concat(k, INNER), INNER, 0) == L_(k), z3.IndexOf(z3.Concat(v, SEP), SEP, 0) == L_(v)]
            for x in (l1, l2, l3): c.assume(x)
            self.obl(it, "lemma: separators do not occur", [Implies(ULT(i, N), And(*ok)), ULT(i, N)], And(*ok)); c.assume(And(*ok))
            step("the inner separator is found", [g1, l1, ok[0]], z3.IndexOf(run, INNER, b) == b + L_(k))
            step("the end of an inner value is found", [g2, g4, l2, ok[1]], Implies(ULT(nx, N), z3.IndexOf(run, SEP, e) == e + L_(v)))
            step("no end of the last value", [g2, g4, l3, ok[1]], Implies(Not(ULT(nx, N)), z3.IndexOf(run, SEP, e) == -1))
            m1, m2, m3 = lem["middle part"](p=P1, v=k, r=z3.Concat(INNER, T1)), lem["middle part"](p=P2, v=v, r=T2), lem["rest"](p=P2, v=v)
            for x in (m1, m2, m3): c.assume(x)
            step("the name", [g1, m1], z3.SubString(run, b, L_(k)) == k); step("the value", [g2, m2], z3.SubString(run, e, L_(v)) == v)
        def end(L):
            i = L.ghost["i"]; L.ghost["pre"] = z3.Concat(L.ghost["pre"], self.sep(i), self.k(i), INNER, self.v(i)); L.ghost["i"] = i + 1
        return LoopSpec("parsing", inv, variant=lambda L: N - L.ghost["i"], head=head, body_start=start, body_end=end, ghost={"i": bv(0), "pre": sv("")})
    def post(self, it, S, r):
        o = it.read(S.this).f["m_traits"]; w = it.ctx.fresh("k", Str); src = self.src
        return [("every trait that is not ignored is restored with its value", Implies(And(has(src)[w], Not(ign(w))), And(has(o)[w], val(o, w) == val(src, w)))),
                ("nothing else is recorded but host and revision", Implies(And(has(o)[w], w != sv("host"), w != sv("git-rev")), And(has(src)[w], Not(ign(w)))))]
CONTRACTS = [Write(False), Write(True), Read()]
TUS = ["timings"]
