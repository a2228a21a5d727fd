from contracts.runrec import *
from vf.streams import text
DRIVER = "C22.cpp"; DRIVER_SRCS = ["src/utils/Timings.cpp", "src/utils/System.cpp"]; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["maps are finite partial functions with some enumeration of their keys; single-threaded histories", "texts of numbers are uninterpreted (the stream's default format)"]
def fnp(name, key=None, nt=None, **k):
    def p(ast, f):
        q = f["type"]["qualType"]
        return key is None or key(q)
    return fn_named(name, cls="ExperimentRun", pred=p, **k)
MAPS = ("m_traits", "m_measurements", "m_counters")
def same_map(a, b, skip=None):
    """equal as partial functions, except possibly at one key"""
    k = qv("k", has(a).sort().domain())
    body = And(has(a)[k] == has(b)[k], Implies(has(a)[k], And(*[z3.Select(x, k) == z3.Select(y, k) for x, y in zip(a.f["$val"].arrs, b.f["$val"].arrs)])))
    return z3.ForAll([k], body if skip is None else Implies(k != skip, body))
class Op(Run):
    """an update: one map changes, at one name only"""
    which = "m_traits"
    def __init__(self, name, find, which="m_traits"):
        Run.__init__(self); self.name = name; self.find = find; self.which = which
    def setup(self, it, fn):
        o = self.rec(it); a = fresh_args(it, fn)
        return State(this=o, args=a, o0=copy_val(it.read(o)), k=it.read(a[0]), v=[it.read(x) for x in a[1:]], t=[x.c.t for x in a])
    def value(self, it, S, old_has, old): raise NotImplementedError
    def post(self, it, S, r):
        o, p = it.read(S.this), S.o0; m, q = o.f[self.which], p.f[self.which]
        return [("the name is recorded", has(m)[S.k]), ("its value", self.value(it, S, m, q)), ("no other name changes", same_map(m, q, S.k))] + [("%s unchanged" % x, same_map(o.f[x], p.f[x])) for x in MAPS if x != self.which]
class Add(Op):
    def value(self, it, S, m, q): return val(m, S.k) == If(has(q)[S.k], val(q, S.k), text(it, S.v[0], S.t[1]))
class Update(Op):
    def value(self, it, S, m, q): return val(m, S.k) == text(it, S.v[0], S.t[1])
class Inc(Op):
    def value(self, it, S, m, q): return val(m, S.k) == If(has(q)[S.k], val(q, S.k), bv(0)) + S.v[0]
class Meas(Op):
    def setup(self, it, fn):
        S = Op.setup(self, it, fn); q = S.o0.f["m_measurements"].f["$val"].get(S.k); it.ctx.assume(ULT(q.size, bv(1 << 47))); return S
    def value(self, it, S, m, q):
        a, b = m.f["$val"].get(S.k), q.f["$val"].get(S.k); n0 = If(has(q)[S.k], b.size, bv(0))
        return And(a.size == n0 + 1, a.arrs[0][n0] == S.v[0], forall(1, lambda i: Implies(ULT(i, n0), a.arrs[0][i] == b.arrs[0][i])))
class Look(Run):
    """a lookup: the recorded value, or an out_of_range exception when there is none"""
    def __init__(self, name, find, which="m_traits", total=False):
        Run.__init__(self); self.name = name; self.find = find; self.which = which; self.total = total
    setup = Op.setup
    def unchanged(self, it, S): return [("%s unchanged" % x, same_map(it.read(S.this).f[x], S.o0.f[x])) for x in MAPS]
    def post(self, it, S, r):
        q = S.o0.f[self.which]
        if self.total: return [("true exactly when the name is recorded", to_bool(r) == has(q)[S.k])] + self.unchanged(it, S)
        r = it.val(r) if isinstance(r, (LVal, RefV)) else r
        same = And(*[x == y for x, y in zip(leaves(r), leaves(q.f["$val"].get(S.k)))])
        return [("the name is recorded", has(q)[S.k]), ("the recorded value is returned", same)] + self.unchanged(it, S)
    def throws(self, it, S, e):
        if self.total or "out_of_range" not in repr(e.t): return None
        return [("only for names not recorded", Not(has(S.o0.f[self.which])[S.k]))] + self.unchanged(it, S)
class Ctor(Run):
    name = "ExperimentRun::ExperimentRun()"
    def __init__(self): Run.__init__(self); self.find = lambda ast: one([f for f in ctors(ast) if not AST.params(f)])
    def setup(self, it, fn):
        t = Type("rec", "ExperimentRun", ()); return State(this=LVal(Cell(RecV(t, {}), "run", t)), args=[])
    def post(self, it, S, r):
        o = it.read(S.this); m = o.f["m_traits"]; h, g = z3.Const("hostname", Str), z3.Const("git_commit", Str)
        return [("host and revision are recorded", And(has(m)[sv("host")], has(m)[sv("git-rev")], val(m, sv("host")) == h, val(m, sv("git-rev")) == g)),
                ("nothing else is recorded", z3.ForAll([z3.Const("k!c", Str)], Implies(And(z3.Const("k!c", Str) != sv("host"), z3.Const("k!c", Str) != sv("git-rev")), Not(has(m)[z3.Const("k!c", Str)]))))] + \
               [("no %s" % x, z3.ForAll([z3.Const("k!d", Str)], Not(has(o.f[x])[z3.Const("k!d", Str)]))) for x in MAPS[1:]]
def one(l):
    if len(l) != 1: raise ExtractError("%d candidates" % len(l))
    return l[0]
def ctors(ast):
    return [f for f in ast.funcs if f["kind"] == "CXXConstructorDecl" and f.get("name") == "ExperimentRun" and AST.body(f) is not None and f["id"] in ast.defs]
class Equal(Run):
    name = "ExperimentRun::operator=="
    def __init__(self):
        Run.__init__(self); self.find = fn_named("operator==", cls="ExperimentRun")
        self.loops = {("operator==", 0): self.first, ("operator==", 1): self.second}
    def setup(self, it, fn):
        o = self.rec(it); p = self.rec(it, "o"); self.a, self.b = self.traits(it, o), self.traits(it, p)
        return State(this=o, args=[p], o0=copy_val(it.read(o)), p0=copy_val(it.read(p)))
    def agree_at(self, k, missing=False):
        return Implies(Not(ign(k)), has(self.b)[k])
    def differs(self, k): return And(Not(ign(k)), has(self.a)[k], has(self.b)[k], val(self.a, k) != val(self.b, k))
    def first(self, it, n):
        K, pos, N = maps.enum(it, self.a)
        def inv(L):
            x, e = L.range_it(); i = x.f["i"]; eq = to_bool(L.var("eq"))
            return [("position", ULE(i, N)), ("visited names are in the other record", forall(1, lambda j: Implies(And(ULT(j, i), Not(ign(K[j]))), has(self.b)[K[j]]), pats=lambda j: [K[j]])),
                    ("values agree so far", Implies(eq, forall(1, lambda j: Implies(ULT(j, i), Not(self.differs(K[j]))), pats=lambda j: [K[j]]))),
                    ("values differ somewhere", Implies(Not(eq), exists(1, lambda j: And(ULT(j, i), self.differs(K[j])))))]
        return LoopSpec("own traits", inv, variant=lambda L: N - L.range_it()[0].f["i"])
    def second(self, it, n):
        K, pos, N = maps.enum(it, self.b)
        def inv(L):
            i = L.range_it()[0].f["i"]
            return [("position", ULE(i, N)), ("visited names are in this record", forall(1, lambda j: Implies(And(ULT(j, i), Not(ign(K[j]))), has(self.a)[K[j]]), pats=lambda j: [K[j]]))]
        return LoopSpec("other traits", inv, variant=lambda L: N - L.range_it()[0].f["i"])
    def post(self, it, S, r):
        k = z3.Const("k!eq", Str); w = it.ctx.fresh("k", Str); r = to_bool(r); a, b = self.a, self.b
        ok = lambda k: Implies(Not(ign(k)), And(has(a)[k] == has(b)[k], Implies(has(a)[k], val(a, k) == val(b, k))))
        return [("true only when all other traits agree", Implies(r, ok(w))), ("false only when some other trait differs", Implies(Not(r), z3.Exists([k], Not(ok(k))))),
                ("the ignored traits are the documented ones", z3.BoolVal(sorted(ignored_names(it.ast)) == sorted(EXPECTED)))] + \
               [("%s unchanged" % x, And(same_map(it.read(S.this).f[x], S.o0.f[x]), same_map(it.read(S.args[0]).f[x], S.p0.f[x]))) for x in MAPS]
str2 = lambda q: q.count("std::string &") + q.count("basic_string") >= 2 or q.count("string") >= 2
def inst(name, ty): return fn_named(name, cls="ExperimentRun", pred=lambda ast, f: AST.params(f)[1]["type"]["qualType"].replace(" ", "") in ["const" + t + "&" for t in ty])
ULONG, DBL, STRS = ("tMeasurement", "ulong", "unsignedlong", "ExperimentRun::tMeasurement"), ("double",), ("std::string",)
class Accessor(Run):
    """the profiler accessor forwards to the current run, if any"""
    def __init__(self, what): Run.__init__(self); self.what = what; self.name = "ExperimentRunAccessor::" + what; self.find = fn_named(what, cls="ExperimentRunAccessor")
    def setup(self, it, fn):
        run = self.rec(it); null = it.ctx.fresh("no_run", z3.BoolSort()); t = Type("rec", "ExperimentRunAccessor", ())
        acc = LVal(Cell(RecV(t, {"m_run": PtrV(run, null, None)}), "acc", t)); a = fresh_args(it, fn)
        o0 = copy_val(it.read(run)); q = o0.f["m_measurements"].f["$val"].get(it.read(a[0])); it.ctx.assume(ULT(q.size, bv(1 << 47)))
        return State(this=acc, args=a, run=run, null=null, o0=o0, k=it.read(a[0]), v=[it.read(a[1])], t=[x.c.t for x in a])
    def post(self, it, S, r):
        con = METH[self.what]; T = State(this=S.run, args=S.args, o0=S.o0, k=S.k, v=S.v, t=S.t); o = it.read(S.run)
        return [("with a run: " + l, Implies(Not(S.null), g)) for l, g in con.post(it, T, None)] + [("without a run: %s unchanged" % x, Implies(S.null, same_map(o.f[x], S.o0.f[x]))) for x in MAPS]
METH = {"incCounter": Inc("ExperimentRun::incCounter", fnp("incCounter"), "m_counters"), "addMeasurement": Meas("ExperimentRun::addMeasurement", fnp("addMeasurement"), "m_measurements")}
CONTRACTS = [Ctor(), Add("ExperimentRun::addTrait", inst("addTrait", STRS)), Add("ExperimentRun::addTrait<unsigned long>", inst("addTrait", ULONG)), Add("ExperimentRun::addTrait<double>", inst("addTrait", DBL)),
             Update("ExperimentRun::updateTrait", inst("updateTrait", STRS)), Update("ExperimentRun::updateTrait<unsigned long>", inst("updateTrait", ULONG)), METH["incCounter"], METH["addMeasurement"],
             Look("ExperimentRun::hasTrait", fnp("hasTrait"), total=True), Look("ExperimentRun::getTrait", fnp("getTrait", lambda q: "string" in q.split("(")[0])), Look("ExperimentRun::counter", fnp("counter"), "m_counters"), Look("ExperimentRun::measurements", fnp("measurements", nparams=1), "m_measurements"),
             Equal(), Accessor("incCounter"), Accessor("addMeasurement")]
TUS = ["timings"]
