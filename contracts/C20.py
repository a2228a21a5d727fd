from vf.spec import *
from contracts import lp
from contracts.C11 import inf
from contracts.C19 import Pts, vals_of, LPS, ADV
from contracts.geo import DRIVER_SRCS
DRIVER = "C20.cpp"; DRIVER_LIBS = ["-ltbb", "-lgmpxx", "-lgmp"]; DRIVER_SRCS = DRIVER_SRCS + ["src/lib/Partitioner.cpp"]
ASSUMPTIONS = ["coordinates are treated as real numbers", "insertion into the identifier sets is used through its contract (properties C07 and, for one concurrent insertion at a time, C32); iteration over the given set through the contract of C07",
    "tbb::parallel_for executes the body on sub-ranges that together are the range; insertions of different sub-ranges commute", "logging is silent", "the statistics bound every given finite point (what C19 establishes)",
    "point containers hold fewer than 2^48 points and offsets are below 2^60"]
SETS = z3.ArraySort(IDX, z3.BoolSort())
def lpset(it, t, name):
    c = it.ast.find_class(t); r = RecV(t, {})
    for fn, ft, _ in it.ast.fields(c): r.f[fn] = it.fresh_val(ft, name + "." + fn, 1)
    r.f["$mem"] = it.ctx.fresh(name + ".mem", SETS); return r
def cset(it, t, name): return RecV(t, {"$mem": it.ctx.fresh(name + ".mem", SETS), "$cap": it.ctx.fresh(name + ".cap", IDX)})
def mem(v): return v.f["$mem"]

class NewSet(Contract):
    """a new table is empty"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def apply(self, it, this, vals, f, n=None):
        t = it.read(this).t; v = it.fresh_val(t, "table"); v.f["$mem"] = z3.K(IDX, z3.BoolVal(False))
        if "$cap" in v.f: v.f["$cap"] = it.read(vals[0])
        it.write(this, v); return None
class ConvertSet(Contract):
    """conversion of a concurrent table keeps the keys"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = (0,)
    def apply(self, it, this, vals, f, n=None):
        o = it.read(vals[0]); v = it.fresh_val(it.read(this).t, "converted"); v.f["$mem"] = mem(o)
        it.write(this, v); it.write(vals[0], it.fresh_val(o.t, "moved")); return None
class MoveSet(Contract):
    """moving a table keeps the keys"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = (0,)
    def apply(self, it, this, vals, f, n=None):
        o = it.read(vals[0]); it.write(this, copy_val(o)); it.write(vals[0], it.fresh_val(o.t, "moved")); return None
class NewHash(Contract):
    """the multiplier of a hash function is arbitrary"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def apply(self, it, this, vals, f, n=None): it.write(this, it.fresh_val(it.read(this).t, "hash")); return None
class InsertSet(Contract):
    """insert adds exactly the key and tells whether it was new"""
    modifies = staticmethod(lambda it, this, f: [this]); modifies_args = ()
    def __init__(self, con, conc): self.con, self.conc = con, conc
    def apply(self, it, this, vals, f, n=None):
        v = copy_val(it.read(this)); k = it.read(vals[0]); m = mem(v)
        it.ctx.oblige("precondition of insert: not the reserved identifier", k != 0, "pre", n)
        if self.conc:
            S = self.con.S
            it.ctx.oblige("precondition of insert: room for every given point", ULE(S.n, v.f["$cap"]), "pre", n)
            it.ctx.oblige("precondition of insert: only given points", mem(S.ids)[k], "pre", n)
            new = Not(m[k]); v.f["$mem"] = z3.Store(m, k, z3.BoolVal(True)); it.write(this, v)
            r = RecV(Type("rec", "InsertReturn", ()), {"m_state": z3.If(new, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))})
            return r
        w = it.fresh_val(v.t, "table"); w.f["$mem"] = z3.Store(m, k, z3.BoolVal(True)); it.write(this, w)
        return Not(m[k])
def conv_pred(ast, f): return "Concurrent_LP_Set" in f["type"]["qualType"]
def move_pred(ast, f): return "LP_Set" in f["type"]["qualType"] and "Concurrent" not in f["type"]["qualType"] and "&&" in f["type"]["qualType"]
def size_pred(ast, f): return "Hasher" in f["type"]["qualType"] and "size" in f["type"]["qualType"]

class S_(Contract):
    tu = "part"; dups = False
    abstract = {"LP_Set": lpset, "Concurrent_LP_Set": cset}
    def __init__(self):
        self.calls = lp.BASE + [(ADV.finder(), ADV), (fn_named("Hasher", cls="Hasher", nparams=0).all, NewHash()), (fn_named("LP_Set", cls="LP_Set", cls_args=(U64, 1), pred=size_pred).all, NewSet()), (fn_named("Concurrent_LP_Set", cls="Concurrent_LP_Set", cls_args=(U64, 0), pred=size_pred).all, NewSet()),
            (fn_named("LP_Set", cls="LP_Set", cls_args=(U64, 1), pred=conv_pred).all, ConvertSet()), (fn_named("LP_Set", cls="LP_Set", cls_args=(U64, 1), pred=move_pred).all, MoveSet()), (fn_named("insert", cls="LP_Set", cls_args=(U64, 1)).all, InsertSet(self, False)),
            (fn_named("insert", cls="Concurrent_LP_Set", cls_args=(U64, 0)).all, InsertSet(self, True))]
        self.free = {"parallel_for": self.par, "getInstance": self.logger}
    def logger(self, it, args, n):
        it.ctx.runner.note("logging is silent")
        v = it.fresh_val(Type("rec", "Logger", ()), "logger")
        v.f["logLevel"] = z3.BitVecVal(0, v.f["logLevel"].size()) if "logLevel" in v.f else None
        return LVal(Cell(v, "logger"))
    def givens(self, it, idsv, P):
        """the given identifiers: slots, membership and the slot of every member agree"""
        S = self.S = State(); S.ids = idsv; S.n = idsv.f["m_items"]; S.P = P
        m = mem(idsv); A, s = lp.arr(idsv), lp.size(idsv); S.slot = it.ctx.fresh("slot_of", z3.ArraySort(IDX, IDX))
        it.ctx.assume(And(*[g for _, g in lp.shape(idsv)]))
        it.ctx.assume(forall(1, lambda k: Implies(m[k], And(k != 0, ULT(S.slot[k], s), A[S.slot[k]] == k)), pats=lambda k: [m[k]]))
        it.ctx.assume(forall(1, lambda j: Implies(And(ULT(j, s), A[j] != 0), And(m[A[j]], S.slot[A[j]] == j)), pats=lambda j: [A[j]]))
        it.ctx.assume(And(S.n != 0, ULE(S.n, s)))
        it.ctx.assume(forall(1, lambda k: Implies(self.fin(k), P.stored(k)), pats=lambda k: [m[k]]))
        return S
    def fin(self, k): return And(mem(self.S.ids)[k], Not(inf(self.D, k)))
    def coords(self, k): return [self.S.P.coord(k, d) for d in range(self.D)]

class Strategy(S_):
    def __init__(self, cls, D, nparts):
        self.cls, self.D, self.N = cls, D, nparts; self.name = "%s<%d>::partition" % (cls, D)
        S_.__init__(self)
        self.find = fn_named("partition", cls=cls, cls_args=(D, DOUBLE), nparams=5)
        self.loops = {("partition", i): self.loop for i in range(8)}; self.loops[("operator()", 0)] = self.body_loop
    def setup(self, it, fn):
        o = self.object(it); a = fresh_args(it, fn); P = Pts(it, self.D, it.read(a[2])); ids = it.read(a[1]); S = self.givens(it, ids, P)
        st = it.read(a[0]); self.mn, self.mx, self.md = [vals_of(st.f[k]) for k in ("min", "max", "mid")]
        it.ctx.assume(forall(1, lambda k: Implies(self.fin(k), And(*[And(self.mn[d] <= c, c <= self.mx[d]) for d, c in enumerate(self.coords(k))])), pats=lambda k: [mem(ids)[k]]))
        S.this, S.args, S.ign = o, a, to_bool(it.read(a[4])); self.conc = None; self.inlambda = False
        return S
    def object(self, it):
        t = Type("rec", self.cls, (self.D, DOUBLE))
        o = LVal(Cell(it.default_val(t, "obj") if self.cls == "dWayPartitioner" else it.fresh_val(t, "obj"), "obj", t))
        if self.cls == "OneDimPartitioner": it.ctx.assume(ULT(it.read(o).f["k"], z3.BitVecVal(self.D, 32)))
        return o
    # ---- the statement
    def part(self, v, i):
        x = v.f["__vec"] if isinstance(v, RecV) else v
        return x.get(bv(i))
    def size(self, v): return (v.f["__vec"] if isinstance(v, RecV) else v).size
    def inbox(self, p, k):
        lo, hi = vals_of(p.f["bounds"].f["low"]), vals_of(p.f["bounds"].f["high"]); c = self.coords(k)
        return And(*[And(lo[d] <= c[d], c[d] <= hi[d]) for d in range(self.D)])
    def one_of(self, bs):
        return And(Or(*bs), *[Not(And(x, y)) for i, x in enumerate(bs) for y in bs[:i]])
    def assigned(self, ms, given):
        """every identifier with given(k) is in exactly one of the sets, and nothing else is in any"""
        return [("every given finite point is in exactly one partition", forall(1, lambda k: Implies(given(k), self.one_of([m[k] for m in ms])), pats=None)),
                ("no other identifier is in a partition", forall(1, lambda k: Implies(Or(*[m[k] for m in ms]), given(k))))]
    def visited(self, i, frm=None): return lambda k: And(self.fin(k), ULT(self.S.slot[k], i), *([ULE(frm, self.S.slot[k])] if frm is not None else []))
    def pos_ok(self, i): return And(ULE(i, lp.size(self.S.ids)), Implies(ULT(i, lp.size(self.S.ids)), lp.arr(self.S.ids)[i] != 0))
    def loop(self, it, n):
        if n["kind"] != "CXXForRangeStmt": return None
        S = self.S; box = {}
        def INV(L):
            v = L.var("partitioning"); i = L.range_it()[0].f["m_idx"]; ps = [self.part(v, j) for j in range(self.N)]
            if "p" not in box: box["p"] = [self.part(L.pre("partitioning"), j) for j in range(self.N)]
            out = [("position", self.pos_ok(i)), ("number of partitions", self.size(v) == self.N),
                   ("bounds and numbers kept", And(*[And(p.f["id"] == q.f["id"], eq_val(p.f["bounds"], q.f["bounds"])) for p, q in zip(ps, box["p"])]))]
            out += self.assigned([mem(p.f["points"]) for p in ps], self.visited(i))
            for j, p in enumerate(ps): out.append(("points of partition %d lie in its bounds" % j, forall(1, lambda k: Implies(mem(p.f["points"])[k], self.inbox(p, k)))))
            return out
        return LoopSpec("distribution", INV, variant=lambda L: lp.size(S.ids) - L.range_it()[0].f["m_idx"])
    # ---- distribution in parallel
    def side(self, k, j):
        """what the bounds need: the splitting dimension q, points of part 0 at most / of part 1 at least the midpoint"""
        c = self.coords(k)
        return And(*[Implies(self.q == d, c[d] <= self.md[d] if j == 0 else c[d] >= self.md[d]) for d in range(self.D)])
    def sets(self, it): return [self.vec(it).get(bv(j)) for j in range(2)]
    def vec(self, it): return it.read(self.conc)
    def par(self, it, args, n):
        S = self.S; rng = it.rv(args[0]); cl = it.rv(args[1])
        lo, hi = rng.f["m_begin"].f["m_idx"], rng.f["m_end"].f["m_idx"]
        names = it.fr["names"]
        self.conc = names.get("cPartPoints")
        if self.conc is None: raise VarMissing("cPartPoints")
        kk = names.get("k")
        if kk is None: raise VarMissing("k")
        self.q = z64(it.read(kk)); it.ctx.oblige("the splitting dimension exists", ULT(self.q, bv(self.D)), "post", n)
        it.ctx.oblige("the range covers every given point", forall(1, lambda k: Implies(self.fin(k), And(ULE(lo, S.slot[k]), ULT(S.slot[k], hi)))), "post", n)
        it.ctx.oblige("two sets of points", self.size(self.vec(it)) == 2, "post", n)
        for j, s in enumerate(self.sets(it)):
            it.ctx.oblige("set %d is empty before the distribution" % j, forall(1, lambda k: Not(mem(s)[k])), "post", n)
            it.ctx.oblige("set %d has room for every given point" % j, ULE(S.n, s.f["$cap"]), "post", n)
        if it.ctx.choose("one execution of the body"):
            a, b = it.ctx.fresh("sub_begin", IDX), it.ctx.fresh("sub_end", IDX); self.a, self.b = a, b
            it.ctx.assume(And(ULE(lo, a), ULE(a, b), ULE(b, hi), self.pos_ok(a), self.pos_ok(b)))
            # other sub-ranges may have been distributed before
            pre = [z3.Const("before%d" % j, SETS) for j in range(2)]; self.pre = pre
            self.put(it, pre)
            for m in pre: it.ctx.assume(forall(1, lambda k: Implies(m[k], And(self.fin(k), Not(And(ULE(a, S.slot[k]), ULT(S.slot[k], b)))))))
            sub = copy_val(rng); sub.f["m_begin"].f["m_idx"] = a; sub.f["m_end"].f["m_idx"] = b
            self.inlambda = True
            it.call_closure(cl, [LVal(Cell(sub, "r"))], n)
            for l, g in self.state(it, b): it.ctx.oblige("sub-range: " + l, g, "post", n)
            raise PathEnd()
        ms = [it.ctx.fresh("distributed%d" % j, SETS) for j in range(2)]; self.put(it, ms)
        for l, g in self.assigned(ms, self.fin): it.ctx.assume(g)
        for j, m in enumerate(ms): it.ctx.assume(forall(1, lambda k: Implies(m[k], self.side(k, j)), pats=lambda k: [m[k]]))
        return None
    def put(self, it, ms):
        v = copy_val(self.vec(it))
        for j, m in enumerate(ms):
            s = copy_val(v.get(bv(j))); s.f["$mem"] = m; v.put(bv(j), s)
        it.write(self.conc, v)
    def state(self, it, i):
        """after distributing the slots from a to i"""
        S = self.S; ms = [mem(s) for s in self.sets(it)]; pre = self.pre; given = self.visited(i, self.a)
        out = [("every point of the sub-range is in exactly one set", forall(1, lambda k: Implies(given(k), self.one_of([m[k] for m in ms]))))]
        for j in range(2):
            out += [("set %d gains only points of the sub-range" % j, forall(1, lambda k: Implies(And(ms[j][k], Not(pre[j][k])), And(given(k), self.side(k, j))))),
                    ("set %d keeps its points" % j, forall(1, lambda k: Implies(pre[j][k], ms[j][k])))]
        return out
    def body_loop(self, it, n):
        if not self.inlambda: return None
        def INV(L):
            i = L.range_it()[0].f["m_idx"]; v = self.vec(it)
            return [("position", And(self.pos_ok(i), ULE(self.a, i), ULE(i, self.b))), ("two sets with room", And(self.size(v) == 2, *[ULE(self.S.n, s.f["$cap"]) for s in self.sets(it)]))] + self.state(it, i)
        return LoopSpec("distribution of a sub-range", INV, variant=lambda L: self.b - L.range_it()[0].f["m_idx"])
    # ---- result
    def post(self, it, S, r):
        ps = [self.part(r, j) for j in range(self.N)]; ms = [mem(p.f["points"]) for p in ps]; D = self.D
        out = [("number of partitions", self.size(r) == self.N)]
        out.append(("every given finite point is in exactly one partition", forall(1, lambda k: Implies(self.fin(k), self.one_of([m[k] for m in ms])))))
        for j, p in enumerate(ps):
            out += [("partition %d is numbered %d" % (j, j), z64(p.f["id"]) == j),
                    ("partition %d: its finite points lie in its bounds" % j, forall(1, lambda k: Implies(And(ms[j][k], Not(inf(D, k))), self.inbox(p, k)))),
                    ("partition %d: the infinite points are added unless ignored" % j, forall(1, lambda k: Implies(inf(D, k), ms[j][k] == Not(S.ign)))),
                    ("partition %d: no other identifier" % j, forall(1, lambda k: Implies(ms[j][k], Or(self.fin(k), inf(D, k)))))]
        return out

TUS = ["part"]
CONTRACTS = []
for D in (2, 3):
    CONTRACTS += [Strategy("dWayPartitioner", D, 1 << D), Strategy("OneDimPartitioner", D, 2), Strategy("CyclePartitioner", D, 2), Strategy("ExtendPartitioner", D, 2)]
