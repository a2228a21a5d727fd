from vf.spec import *
from contracts import lp
from contracts.C11 import inf
from contracts.C20 import S_, mem
DRIVER = "C27.cpp"; DRIVER_LIBS = ["-ltbb", "-lgmpxx", "-lgmp"]
from contracts.geo import DRIVER_SRCS
ASSUMPTIONS = ["fewer than 2^64 - 1 identifiers are dispensed", "std::queue is a first-in first-out queue; tbb::concurrent_queue and std::atomic operations take effect at one instant (sequentially consistent)",
    "only identifiers handed out and not yet given back are released", "insertion into the identifier set of makePointIds is used through its contract (property C08)", "point containers hold fewer than 2^48 points and offsets are below 2^60"]
IDS = z3.ArraySort(IDX, z3.BoolSort())
Q = Type("rec", "$queue", ())
class Handler(Contract):
    """The dispenser with a ghost set of identifiers that are in use. For the concurrent dispenser every atomic operation may be
    preceded by any activity of other threads that keeps the invariant and does not touch the identifiers this thread holds."""
    tu = "ids"; dups = False
    def __init__(self, cls, fname, nparams=None):
        self.cls = cls; self.conc = cls.startswith("Conc"); self.fname = fname; self.name = "%s::%s" % (cls, fname)
        self.find = fn_named(fname, cls=cls) if fname != cls else (lambda ast: self.ctor(ast, nparams))
        if nparams is not None: self.name += "/%d" % nparams
        names = ("std::queue", "tbb::concurrent_queue", "tbb::detail::d2::concurrent_queue", "tbb::detail::d1::concurrent_queue", "tbb::strict_ppl::concurrent_queue")
        self.abstract = {k: self.newq for k in names}; self.default_objs = {k: self.emptyq for k in names}
        self.constructors = {k: (lambda it, t, args, n: self.emptyq(it, t)) for k in names}
        self.methods = {(k, m): getattr(self, "q_" + m) for k in names for m in ("empty", "front", "pop", "push", "try_pop", "size", "unsafe_size")}
        if self.conc: self.methods[("atomic", "*")] = self.atomic
    def ctor(self, ast, k):
        fs = [f for f in ast.funcs if f["kind"] == "CXXConstructorDecl" and f.get("name") == self.cls and AST.body(f) is not None and len(AST.params(f)) == k and f["id"] in ast.defs and "IndexHandler &" not in f["type"]["qualType"]]
        if len(fs) != 1: raise ExtractError("%d constructors" % len(fs))
        return fs[0]
    # the free queue: positions h <= p < t of an array
    def newq(self, it, t, name): return RecV(t, {"$q": z3.Const(str(it.ctx.fresh("free", IDX)), z3.ArraySort(IDX, IDX)), "$h": it.ctx.fresh("head", IDX), "$t": it.ctx.fresh("tail", IDX)})
    def emptyq(self, it, t): v = self.newq(it, t, "q"); v.f["$h"] = v.f["$t"] = bv(0); return v
    def inv(self, it, v, live):
        q = v.f["m_freeIds"]; a, h, t = q.f["$q"], q.f["$h"], q.f["$t"]; m = v.f["m_id"]
        return [("queue bounds", And(ULE(h, t), ULT(t, bv(1 << 62)))),
                ("free identifiers were dispensed before and are not in use", forall(1, lambda p: Implies(And(ULE(h, p), ULT(p, t)), And(ULT(a[p], m), Not(live[a[p]]))))),
                ("no identifier is free twice", forall(2, lambda p, r: Implies(And(ULE(h, p), ULT(p, r), ULT(r, t)), a[p] != a[r]))),
                ("identifiers in use were dispensed before", forall(1, lambda x: Implies(live[x], ULT(x, m))))]
    def state(self, it): return it.read(self.S.this)
    def interfere(self, it):
        """other threads act: anything that keeps the invariant and the identifiers held here"""
        S = self.S
        if not self.conc: return
        v = it.read(S.this); old = S.live; w = copy_val(v); f = self.newq(it, v.f["m_freeIds"].t, "q"); w.f["m_freeIds"] = f; w.f["m_id"] = it.ctx.fresh("m_id", IDX)
        S.live = it.ctx.fresh("live", IDS); it.write(S.this, w)
        it.ctx.assume(And(*[g for _, g in self.inv(it, w, S.live)]))
        for x in S.held: it.ctx.assume(S.live[x])
        it.ctx.assume(ULT(w.f["m_id"], bv(2**64 - 2)))
    def keep(self, it, what):
        if not self.conc: return      # nobody sees the sequential dispenser between two statements: its invariant is due at the end
        for l, g in self.inv(it, it.read(self.S.this), self.S.live): it.ctx.oblige("after %s: %s" % (what, l), g, "inv")
    def take(self, it, x):
        """an identifier passes to this thread"""
        S = self.S
        if not self.conc: return
        it.ctx.oblige("an identifier handed out is not in use", Not(S.live[x]), "post"); S.live = z3.Store(S.live, x, z3.BoolVal(True)); S.held = S.held + [x]
    def atomic(self, it, this, op, do):
        if self.S is None: return do()
        self.interfere(it); v0 = it.read(this); r = do(); v1 = it.read(this)
        # drawing a number: the words passed over belong to this thread
        if op in ("operator++", "operator+=", "fetch_add", "compare_exchange_weak", "compare_exchange_strong"):
            if not z3.is_true(simp(v0 == v1)):
                one = it.ctx.branch(v1 == v0 + 1)
                if one: self.take(it, v0)
        self.keep(it, op); return r
    def q_empty(self, it, this, args, n): self.interfere(it); v = it.read(this); return v.f["$h"] == v.f["$t"]
    def q_size(self, it, this, args, n): self.interfere(it); v = it.read(this); return v.f["$t"] - v.f["$h"]
    q_unsafe_size = q_size
    def q_front(self, it, this, args, n):
        v = it.read(this); it.ctx.oblige("queue is not empty", v.f["$h"] != v.f["$t"], "safety", n); return LVal(Cell(v.f["$q"][v.f["$h"]], "front"))
    def q_pop(self, it, this, args, n):
        v = it.read(this); it.ctx.oblige("queue is not empty", v.f["$h"] != v.f["$t"], "safety", n); x = v.f["$q"][v.f["$h"]]
        it.write(this.sub(("f", "$h")), v.f["$h"] + 1); self.take(it, x); self.keep(it, "taking a free identifier"); return None
    def q_try_pop(self, it, this, args, n):
        self.interfere(it); v = it.read(this)
        if not it.ctx.branch(v.f["$h"] != v.f["$t"]): return z3.BoolVal(False)
        x = v.f["$q"][v.f["$h"]]; it.write(it.lv(args[0]), x); it.write(this.sub(("f", "$h")), v.f["$h"] + 1); self.take(it, x); self.keep(it, "taking a free identifier"); return z3.BoolVal(True)
    def q_push(self, it, this, args, n):
        x = it.val(it.ev(args[0])); self.interfere(it); v = it.read(this); S = self.S
        it.ctx.assume(ULT(v.f["$t"], bv((1 << 62) - 1)))
        it.ctx.oblige("only an identifier in use is given back", S.live[x], "post", n)
        it.write(this.sub(("f", "$q")), z3.Store(v.f["$q"], v.f["$t"], x)); it.write(this.sub(("f", "$t")), v.f["$t"] + 1)
        S.live = z3.Store(S.live, x, z3.BoolVal(False)); S.held = [y for y in S.held if not y.eq(x)]; S.given = x
        self.keep(it, "giving an identifier back"); return None
    def setup(self, it, fn):
        t = Type("rec", self.cls, ()); self.S = S = State(args=fresh_args(it, fn), held=[], given=None)
        if self.fname == self.cls:
            S.this = LVal(Cell(RecV(t, {}), "obj", t)); T = S; self.S = None; return T
        v = it.fresh_val(t, "obj"); S.this = LVal(Cell(v, "obj", t)); S.live = it.ctx.fresh("live", IDS); it.ctx.assume(And(*[g for _, g in self.inv(it, v, S.live)])); it.ctx.assume(ULT(v.f["m_id"], bv(2**64 - 2)))
        if self.fname == "releaseId": x = it.read(S.args[0]); it.ctx.assume(S.live[x]); S.held = [x]; S.x = x
        S.v0 = copy_val(v); S.live0 = S.live
        return S
    def post(self, it, S, r):
        if self.fname == self.cls:
            v = it.read(S.this); st = it.read(S.args[0]) if S.args else bv(0); q = v.f["m_freeIds"]
            return [("no identifier is free", q.f["$h"] == q.f["$t"]), ("dispensing starts at the given number", v.f["m_id"] == st), ("identifiers are reused", to_bool(v.f["m_enabled"]))]
        v = it.read(S.this)
        if not self.conc and self.fname == "getId":
            return [("an identifier handed out is not in use", Not(S.live[r]))] + self.inv(it, v, z3.Store(S.live, r, z3.BoolVal(True)))
        out = self.inv(it, v, S.live)
        if self.fname == "getId":
            return out + [("the returned identifier is the one taken, and only one is taken", And(r == S.held[0]) if len(S.held) == 1 else z3.BoolVal(False))]
        if self.fname == "releaseId": return out + [("the identifier is free afterwards, unless reuse is disabled", z3.BoolVal(True) if S.given is None else S.given == S.x), ("without reuse nothing happens", Implies(Not(to_bool(S.v0.f["m_enabled"])), z3.BoolVal(S.given is None))), ("with reuse the identifier is given back", Implies(to_bool(S.v0.f["m_enabled"]), z3.BoolVal(S.given is not None)))]
        if self.fname == "maxId": x = it.ctx.fresh("x", IDX); return out + [("every identifier in use is below the reported maximum", Implies((S.live0 if not self.conc else S.live)[x], ULT(x, r)))]
        if self.fname == "disable": return out + [("reuse is disabled", Not(to_bool(v.f["m_enabled"])))]
class MakeIds(S_):
    def __init__(self, D):
        self.D = D; self.name = "makePointIds<%d>" % D; S_.__init__(self); self.tu = "ids"; self.find = fn_named("makePointIds", targs=(D, DOUBLE))
        self.loops = {("makePointIds", 0): self.loop}; self.unroll = 20
    tu = "ids"
    def setup(self, it, fn):
        a = fresh_args(it, fn); v = it.read(a[0]); self.n = v.f["__vec"].size; self.off = v.f["m_offset"]
        it.ctx.assume(And(ULT(self.n, bv(1 << 48)), ULT(self.off, bv(1 << 60)), self.n != 0)); return State(this=None, args=a)
    def par(self, it, args, n): raise Unsupported("parallel_for")
    def want(self, k, i): return And(ULT(self.off, k), ULT(k, self.off + i))
    def loop(self, it, n):
        def inv_(L):
            i = L.var("i"); m = mem(L.var("allPoints")); k = qv("k")
            return [("position", And(ULE(bv(1), i), ULE(i, self.n))), ("inserted so far", z3.ForAll([k], m[k] == self.want(k, i)))]
        return LoopSpec("finite points", inv_, variant=lambda L: self.n - L.var("i"))
    def post(self, it, S, r):
        r = it.val(r) if isinstance(r, LVal) else r; k = it.ctx.fresh("k", IDX)
        return [("exactly the stored finite points and every infinite point", mem(r)[k] == Or(self.want(k, self.n), inf(self.D, k)))]
CONTRACTS = [Handler(c, f) for c in ("IndexHandler", "Concurrent_IndexHandler") for f in ("getId", "releaseId", "maxId", "disable")] + [Handler(c, c, k) for c in ("IndexHandler", "Concurrent_IndexHandler") for k in (0, 1)] + [MakeIds(2), MakeIds(3)]
TUS = ["ids"]
