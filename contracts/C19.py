from contracts.geo import vec
from contracts import lp
from contracts.C11 import inf
from vf.spec import *
from vf import streams
DRIVER = "C19.cpp"; DRIVER_LIBS = ["-ltbb", "-lgmpxx", "-lgmp"]
from contracts.geo import DRIVER_SRCS
ASSUMPTIONS = ["coordinates are treated as real numbers of double range; the midpoint is the exact one", "tbb::parallel_for executes the body on sub-ranges that together cover the range, tbb::enumerable_thread_specific gives every thread its own, initially default-constructed copy and combine folds all copies",
    "point containers hold fewer than 2^48 points and offsets are below 2^60", "infinite points are ignored (the default of both functions)"]
LPS = lp.SET[1]
class Pts:
    """the point container and the identifier sequence lo <= position < hi"""
    def __init__(self, it, D, points):
        self.D = D; self.v = points; self.vec = points.f["__vec"]; self.off = points.f["m_offset"]
        it.ctx.assume(And(ULT(self.vec.size, bv(1 << 48)), ULT(self.off, bv(1 << 60))))
        for d in range(D):
            it.ctx.assume(forall(1, lambda k: And(self.vec.arrs[d][k] <= it.fmax(), self.vec.arrs[d][k] >= -it.fmax()), pats=lambda k: [self.vec.arrs[d][k]]))
    def coord(self, i, d): return self.vec.arrs[d][i - self.off]
    def stored(self, i): return And(ULT(self.off, i), ULT(i - self.off, self.vec.size))
class IntSeq:
    def elem(self, p): return p
    def valid(self, p): return z3.BoolVal(True)
class SlotSeq:
    def __init__(self, table): self.t = table
    def elem(self, p): return lp.arr(self.t)[p]
    def valid(self, p): return lp.arr(self.t)[p] != 0
class Facts:
    """what the statistics must say about a range of positions"""
    def __init__(self, it, P, seq, lo, hi): self.it, self.P, self.seq, self.lo, self.hi = it, P, seq, lo, hi
    def member(self, p): return And(ULE(self.lo, p), ULT(p, self.hi), self.seq.valid(p), Not(inf(self.P.D, self.seq.elem(p))))
    def cover(self, s, d, a, b):
        mn, mx = s.f["min"].f["coords"].e[d] if "coords" in s.f["min"].f else s.f["min"].e[d], None
        return None
def mins(s): return vals_of(s.f["min"])
def maxs(s): return vals_of(s.f["max"])
def mids(s): return vals_of(s.f["mid"])
def vals_of(v):
    while isinstance(v, RecV): v = list(v.f.values())[0]
    return v.e
class F2(Facts):
    def covers(self, s, d, a, b):
        """every considered point with position in [a, b) lies between the statistics"""
        return forall(1, lambda p: Implies(And(self.member(p), ULE(a, p), ULT(p, b)), And(mins(s)[d] <= self.P.coord(self.seq.elem(p), d), self.P.coord(self.seq.elem(p), d) <= maxs(s)[d])))
    def attained(self, x, d, neutral):
        return Or(x == neutral, exists(1, lambda p: And(self.member(p), self.P.coord(self.seq.elem(p), d) == x)))
    def sound(self, s, d):
        m = self.it.fmax()
        return And(self.attained(mins(s)[d], d, m), self.attained(maxs(s)[d], d, -m))
    def final(self, s, ds):
        out = []
        for d in ds:
            out += [("dimension %d: no considered point outside [min, max]" % d, self.covers(s, d, self.lo, self.hi)),
                    ("dimension %d: the minimum occurs" % d, exists(1, lambda p: And(self.member(p), self.P.coord(self.seq.elem(p), d) == mins(s)[d]))),
                    ("dimension %d: the maximum occurs" % d, exists(1, lambda p: And(self.member(p), self.P.coord(self.seq.elem(p), d) == maxs(s)[d]))),
                    ("dimension %d: mid is the midpoint" % d, mids(s)[d] * 2 == mins(s)[d] + maxs(s)[d])]
        return out
ADV = lp.Advance(LPS)

class Base(Contract):
    tu = "stats"; dups = False
    def points(self, it, lv):
        P = Pts(it, self.D, it.read(lv)); return P
    def nonempty(self, it, F):
        p = it.ctx.fresh("some", IDX); it.ctx.assume(F.member(p))
        it.ctx.assume(forall(1, lambda q: Implies(And(ULE(F.lo, q), ULT(q, F.hi), F.seq.valid(q), Not(inf(self.D, F.seq.elem(q)))), F.P.stored(F.seq.elem(q)))))
        it.ctx.assume(forall(1, lambda q: Implies(And(ULE(F.lo, q), ULT(q, F.hi), F.seq.valid(q)), F.seq.elem(q) != 0)))
    def table(self, it, name="ids"):
        t = LVal(Cell(it.fresh_val(Type("rec", "LP_Set", (U64, 1)), name), name)); v = it.read(t)
        it.ctx.assume(And(*[g for _, g in lp.shape(v)])); return t

class SeqStats(Base):
    def __init__(self, D, ids):
        self.D, self.ids = D, ids; self.name = "getPointStatsSeq<%d, %s>" % (D, "Point_Ids iterator" if ids else "identifier")
        def p(ast, f):
            q = f["type"]["qualType"]; return ("iterator" in q) == bool(ids)
        self.find = fn_named("getPointStatsSeq", targs=(D, DOUBLE), pred=p)
        self.loops = {("getPointStatsSeq", 1): self.loop}
        self.calls = lp.BASE + [(ADV.finder(), ADV)]
    def setup(self, it, fn):
        a = fresh_args(it, fn); P = self.points(it, a[2])
        if self.ids:
            t = self.table(it); tv = it.read(t); seq = SlotSeq(tv)
            for x in a[:2]:
                r = it.read(x); r.f["m_container"] = RefV(t); it.write(x, r)
            lo, hi = it.read(a[0]).f["m_idx"], it.read(a[1]).f["m_idx"]; S = lp.size(tv)
            for x in (lo, hi): it.ctx.assume(And(ULE(x, S), Implies(ULT(x, S), seq.valid(x))))
        else: lo, hi = it.read(a[0]), it.read(a[1]); seq = IntSeq()
        it.ctx.assume(ULE(lo, hi)); it.ctx.assume(to_bool(it.read(a[3])))
        F = F2(it, P, seq, lo, hi); self.nonempty(it, F); self.F = F
        return State(this=None, args=a, F=F)
    def pos(self, L):
        v = L.var("it"); return v.f["m_idx"] if self.ids else v
    def loop(self, it, n):
        F = self.F
        def INV(L):
            s = L.var("stats"); d = cint(L.var("dim")); p = self.pos(L); S0 = L.pre("stats") if hasattr(L, "pre") else None
            out = [("position", And(ULE(F.lo, p), ULE(p, F.hi), *([Implies(ULT(p, lp.size(F.seq.t)), F.seq.valid(p))] if self.ids else []))),
                   ("visited points lie between the statistics", F.covers(s, d, F.lo, p)), ("statistics occur", F.sound(s, d))]
            q = L.pre("stats")
            out.append(("finished dimensions kept", And(*[x(s)[k] == x(q)[k] for x in (mins, maxs, mids) for k in range(d)]) if d else z3.BoolVal(True)))
            return out
        return LoopSpec("scan", INV, variant=lambda L: F.hi - self.pos(L))
    def post(self, it, S, r): return S.F.final(r, range(self.D))

class ParStats(Base):
    def __init__(self, D, ids):
        self.D, self.ids = D, ids; self.name = "getPointStats<%d, %s>" % (D, "Point_Ids" if ids else "all points")
        def p(ast, f): return ("LP_Set" in f["type"]["qualType"] or "Point_Ids" in f["type"]["qualType"]) == bool(ids)
        self.find = fn_named("getPointStats", targs=(D, DOUBLE), pred=p)
        self.loops = {("operator()", 0): self.loop}
        self.calls = lp.BASE + [(ADV.finder(), ADV)]
        self.free = {"parallel_for": self.par}
        ets = "tbb::enumerable_thread_specific"
        self.constructors = {}; self.methods = {}; self.default_objs = {}
        for k in (ets, "tbb::detail::d1::enumerable_thread_specific", "tbb::interface6::enumerable_thread_specific"):
            self.default_objs[k] = lambda it, t: OpaqueV(t); self.constructors[k] = lambda it, t, args, n: OpaqueV(t)
            self.methods[(k, "local")] = self.local; self.methods[(k, "combine")] = self.combine
        for k in ("tbb::blocked_range", "tbb::detail::d1::blocked_range"):
            self.constructors[k] = self.mkrange
            self.methods[(k, "begin")] = lambda it, this, args, n: it.read(this).d["lo"]
            self.methods[(k, "end")] = lambda it, this, args, n: it.read(this).d["hi"]
    def mkrange(self, it, t, args, n):
        x = [it.rv(a) for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if len(x) == 1: return x[0]
        return OpaqueV(t, {"lo": x[0], "hi": x[1]})
    def setup(self, it, fn):
        a = fresh_args(it, fn); 
        if not self.ids: a[0] = a[1]
        P = self.points(it, a[1])
        if self.ids:
            t = self.table(it); a[0] = t; tv = copy_val(it.read(t)); seq = SlotSeq(tv); lo, hi = bv(0), lp.size(tv); self.t = t
        else: seq = IntSeq(); lo, hi = P.off + 1, P.off + P.vec.size; it.ctx.assume(P.vec.size != 0)
        it.ctx.assume(to_bool(it.read(a[2])))
        F = F2(it, P, seq, lo, hi); self.nonempty(it, F); self.F = F; self.cur = None
        return State(this=None, args=a, F=F)
    def fresh_stats(self, it, name): return it.fresh_val(Type("rec", "dPointStats", (self.D, DOUBLE)), name)
    def local(self, it, this, args, n): return self.cur
    def rng(self, it, v):
        """bounds of a range value and a fresh sub-range of it"""
        if self.ids: return v.f["m_begin"].f["m_idx"], v.f["m_end"].f["m_idx"]
        return v.d["lo"], v.d["hi"]
    def par(self, it, args, n):
        F = self.F; rng = it.rv(args[0]); cl = it.rv(args[1]); D = self.D
        lo, hi = self.rng(it, rng)
        # the range given to parallel_for holds every considered position
        p = it.ctx.fresh("p", IDX)
        it.ctx.oblige("the range covers every point", forall(1, lambda q: Implies(F.member(q), And(ULE(lo, q), ULT(q, hi)))), "post", n)
        if it.ctx.choose("first use of a thread's copy"):
            s = it.default_val(Type("rec", "dPointStats", (D, DOUBLE)), "copy")
            for d in range(D): it.ctx.oblige("dimension %d: a new copy is neutral" % d, F.sound(s, d), "post", n)
            raise PathEnd()
        if it.ctx.choose("one execution of the body"):
            s0 = self.fresh_stats(it, "local"); self.cur = LVal(Cell(copy_val(s0), "local"))
            for d in range(D): it.ctx.assume(F.sound(s0, d))
            a, b = it.ctx.fresh("sub_begin", IDX), it.ctx.fresh("sub_end", IDX)
            it.ctx.assume(And(ULE(lo, a), ULE(a, b), ULE(b, hi))); self.a, self.b, self.s0 = a, b, s0
            sub = copy_val(rng)
            if self.ids:
                for x in (a, b): it.ctx.assume(Implies(ULT(x, F.hi), F.seq.valid(x)))
                sub.f["m_begin"].f["m_idx"] = a; sub.f["m_end"].f["m_idx"] = b
            else: sub = OpaqueV(rng.t, {"lo": a, "hi": b})
            it.call_closure(cl, [LVal(Cell(sub, "r"))], n)
            s = it.read(self.cur)
            for d in range(D):
                it.ctx.oblige("dimension %d: statistics of a thread occur" % d, F.sound(s, d), "post", n)
                it.ctx.oblige("dimension %d: the points of the sub-range are covered" % d, F.covers(s, d, a, b), "post", n)
                it.ctx.oblige("dimension %d: what was covered stays covered" % d, And(mins(s)[d] <= mins(s0)[d], maxs(s)[d] >= maxs(s0)[d]), "post", n)
            raise PathEnd()
        self.cur = None
        return None
    def combine(self, it, this, args, n):
        F = self.F; D = self.D; cl = it.rv(args[0])
        if it.ctx.choose("combination of two copies"):
            x, y = self.fresh_stats(it, "x"), self.fresh_stats(it, "y")
            for d in range(D): it.ctx.assume(And(F.sound(x, d), F.sound(y, d)))
            r = it.call_closure(cl, [LVal(Cell(x, "x")), LVal(Cell(y, "y"))], n); r = it.read(r) if isinstance(r, LVal) else r
            for d in range(D):
                it.ctx.oblige("dimension %d: combined statistics occur" % d, F.sound(r, d), "post", n)
                it.ctx.oblige("dimension %d: combined statistics cover both" % d, And(mins(r)[d] <= mins(x)[d], mins(r)[d] <= mins(y)[d], maxs(r)[d] >= maxs(x)[d], maxs(r)[d] >= maxs(y)[d]), "post", n)
            raise PathEnd()
        r = self.fresh_stats(it, "combined")
        for d in range(D): it.ctx.assume(And(F.sound(r, d), F.covers(r, d, F.lo, F.hi)))
        return r
    def pos(self, L):
        v = L.var("it"); return v.f["m_idx"] if self.ids else v
    def loop(self, it, n):
        if self.cur is None: return None      # the combination: a loop over the dimensions
        F = self.F; D = self.D
        def INV(L):
            s = L.var("stats"); p = self.pos(L)
            out = [("position", And(ULE(self.a, p), ULE(p, self.b), *([Implies(ULT(p, F.hi), F.seq.valid(p))] if self.ids else [])))]
            for d in range(D):
                out += [("dimension %d: visited points lie between the statistics" % d, F.covers(s, d, self.a, p)), ("dimension %d: statistics occur" % d, F.sound(s, d)),
                        ("dimension %d: statistics only widen" % d, And(mins(s)[d] <= mins(self.s0)[d], maxs(s)[d] >= maxs(self.s0)[d]))]
            return out
        return LoopSpec("scan of a sub-range", INV, variant=lambda L: self.b - self.pos(L))
    def post(self, it, S, r): return S.F.final(r, range(self.D))

class SplitCall(Contract):
    """split(fields, line, separator) (property C28), for a line of D fields"""
    def __init__(self, D): self.D = D
    @staticmethod
    def modifies(it, this, f): return []
    modifies_args = (0,)
    def apply(self, it, this, vals, f, n=None):
        v = it.havoc_val(it.read(vals[0]), "fields"); v.size = bv(self.D); it.write(vals[0], v); return None
class LoadFile(Base):
    """the box returned by loadFromFile is the bounding box of the points it appended"""
    def __init__(self, D):
        self.D = D; self.name = "dPoints<%d>::loadFromFile" % D
        self.find = fn_named("loadFromFile", cls="dPoints", cls_args=(D, DOUBLE)); self.loops = {("loadFromFile", 0): self.loop}
        self.free = {"getline": self.getline, "stod": self.stod}; self.calls = [(fn_named("split").all, SplitCall(D))]
        self.default_objs, self.constructors, self.methods = {}, {}, {}
        self.globals = {"cerr": lambda it: streams.new(it, Type("rec", "std::ostringstream", ()))}
        for k in ("std::ifstream", "std::basic_ifstream"):
            self.default_objs[k] = lambda it, t: OpaqueV(t); self.constructors[k] = lambda it, t, args, n: OpaqueV(t)
            for m in ("open", "close"): self.methods[(k, m)] = lambda it, this, args, n: None
            self.methods[(k, "is_open")] = lambda it, this, args, n: it.ctx.fresh("is_open", z3.BoolSort())
    def getline(self, it, args, n):
        it.lv(args[1]); it.write(it.lv(args[1]), it.ctx.fresh("line", z3.StringSort()))
        it.ctx.runner.note("the file holds any sequence of lines of D numbers each"); return it.ctx.fresh("more", z3.BoolSort())
    def stod(self, it, args, n):
        it.rv(args[0]); x = it.ctx.fresh("number", z3.RealSort()); it.ctx.assume(And(x <= it.fmax(), x >= -it.fmax())); return x
    def setup(self, it, fn):
        o = this_obj(it, "dPoints", (self.D, DOUBLE)); a = fresh_args(it, fn); self.v0 = copy_val(it.read(o)); self.n0 = self.v0.f["__vec"].size
        it.ctx.assume(ULT(self.n0, bv(1 << 47)))
        return State(this=o, args=a)
    def inside(self, v, lo, hi, d):
        n = v.f["__vec"].size; c = v.f["__vec"].arrs[d]
        return forall(1, lambda k: Implies(And(ULE(self.n0, k), ULT(k, n)), And(lo[d] <= c[k], c[k] <= hi[d])))
    def occurs(self, v, x, d):
        n = v.f["__vec"].size; c = v.f["__vec"].arrs[d]
        return exists(1, lambda k: And(ULE(self.n0, k), ULT(k, n), c[k] == x))
    def kept(self, v): return forall(1, lambda k: Implies(ULT(k, self.n0), And(*[v.f["__vec"].arrs[d][k] == self.v0.f["__vec"].arrs[d][k] for d in range(self.D)])))
    def loop(self, it, n):
        def INV(L):
            v = L.this; b = L.var("bounds"); lo, hi = vals_of(b.f["low"]), vals_of(b.f["high"]); m = it.fmax(); s = v.f["__vec"].size
            it.ctx.assume(ULT(s, bv(1 << 48)))       # the file fits the memory
            out = [("points are appended", ULE(self.n0, s)), ("earlier points kept", self.kept(v))]
            if "oldSize" in L.frame["names"]: out.append(("line counter", L.var("lc") == s - self.n0))
            for d in range(self.D):
                out += [("dimension %d: appended points lie in the box" % d, self.inside(v, lo, hi, d)),
                        ("dimension %d: box bounds are neutral or occur" % d, If(s == self.n0, And(lo[d] == m, hi[d] == -m), And(self.occurs(v, lo[d], d), self.occurs(v, hi[d], d))))]
            return out
        return LoopSpec("reading loop", INV)
    def post(self, it, S, r):
        v = it.read(S.this); s = v.f["__vec"].size; lo, hi = vals_of(r.f["low"]), vals_of(r.f["high"])
        out = [("earlier points kept", And(ULE(self.n0, s), self.kept(v)))]
        for d in range(self.D):
            out += [("dimension %d: appended points lie in the box" % d, self.inside(v, lo, hi, d)), ("dimension %d: the bounds occur" % d, Implies(s != self.n0, And(self.occurs(v, lo[d], d), self.occurs(v, hi[d], d))))]
        return out

class Split(Base):
    """range of a table: splitting at an occupied slot or the end"""
    dups = True
    name = "range_type<Point_Ids>::range_type(split)"
    def __init__(self):
        def p(ast, f): return "split" in f["type"]["qualType"]
        self.find = lambda ast: self.pick(ast, "range_type", p); self.calls = lp.BASE + [(ADV.finder(), ADV)]
    def mine(self, ast, f):
        a = ast.spec_args(owner(ast, f))[0]; return isinstance(a, Type) and a.a[0] == "LP_Set" and repr(tuple(a.a[1])) == repr((U64, 1))
    def pick(self, ast, name, p):
        fs = [f for f in fn_named(name, cls="range_type", pred=p).all(ast) if self.mine(ast, f)]
        if len(fs) != 1: raise ExtractError("%d splitting constructors" % len(fs))
        return fs[0]
    def setup(self, it, fn):
        t = self.table(it); self.t = copy_val(it.read(t)); c = owner(it.ast, fn); ty = Type("rec", "range_type", tuple(it.ast.spec_args(c)))
        r = LVal(Cell(it.fresh_val(ty, "r"), "r", ty)); v = it.read(r)
        for k in ("m_begin", "m_end", "m_midpoint"): v.f[k].f["m_container"] = RefV(t)
        v.f["m_container"] = RefV(t); it.write(r, v); self.seq = SlotSeq(self.t)
        b, m, e = [v.f[k].f["m_idx"] for k in ("m_begin", "m_midpoint", "m_end")]; self.b, self.m, self.e = b, m, e
        for x in (b, m, e): it.ctx.assume(self.pos_ok(x))
        it.ctx.assume(And(ULE(b, e), ULT(b, m), ULT(m, e)))       # is_divisible
        o = LVal(Cell(RecV(ty, {}), "obj", ty)); a = fresh_args(it, fn); a[0] = r
        return State(this=o, args=a, r=r)
    def pos_ok(self, x): return And(ULE(x, lp.size(self.t)), Implies(ULT(x, lp.size(self.t)), self.seq.valid(x)))
    def post(self, it, S, r):
        o, v = it.read(S.this), it.read(S.r); P = lambda x, k: x.f[k].f["m_idx"]
        return [("the two parts together are the range, without overlap", And(P(o, "m_begin") == self.b, P(o, "m_end") == self.m, P(v, "m_begin") == self.m, P(v, "m_end") == self.e)),
                ("middle positions are occupied slots or the end", And(self.pos_ok(P(o, "m_midpoint")), self.pos_ok(P(v, "m_midpoint"))))]

TUS = ["stats"]
CONTRACTS = [SeqStats(D, i) for D in (2, 3) for i in (0, 1)] + [ParStats(D, i) for D in (2, 3) for i in (0, 1)] + [LoadFile(2), LoadFile(3), Split()]
