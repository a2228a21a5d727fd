from vf.spec import *
from vf.models import Models
TUS = ["gener", "sorter"]
DRIVER = "C29.cpp"; DRIVER_LIBS = ["-ltbb", "-lgmp", "-lmpfr"]; DRIVER_SRCS = ["src/lib/SpatialSort.cpp", "src/utils/System.cpp", "src/utils/Timings.cpp"]
ASSUMPTIONS = ["coordinates are treated as real numbers and the arithmetic on them as exact", "a uniform draw lies between the bounds of its distribution; a normal draw is any finite number and the draws of one direction are not all zero", "loops that reject points outside the box terminate (they do with probability one)",
    "fewer than 2^40 points; boxes have positive extent", "CGAL's spatial sort permutes the points of the range it is given", "PatchBubbleGenerator and MaliciousBubbleGenerator are only run by the driver, not proved"]
R = z3.RealSort()
def lo(b): return list(b.f["low"].e)
def hi(b): return list(b.f["high"].e)
def inside(p, b): return And(*[And(l <= x, x <= h) for x, l, h in zip(p, lo(b), hi(b))])
class Gen(Contract):
    """points 1..n are set to positions inside the box, nothing else changes"""
    tu = "gener"; dups = False; modifies = staticmethod(lambda it, this, f: []); modifies_args = (0,)
    def __init__(self, D, cls=None, nparams=4):
        self.D, self.cls = D, cls
        if cls is None: return
        self.name = "%s<%d>::_gen" % (cls, D) + ("/skew" if nparams == 5 else ""); self.find = fn_named("_gen", cls=cls, cls_args=(D, DOUBLE), nparams=nparams); self.np = nparams
        ds = ("std::uniform_real_distribution", "std::normal_distribution")
        self.constructors = {k: (lambda it, t, args, n: RecV(t, {"p": it.real(it.rv(args[0])), "q": it.real(it.rv(args[1]))})) for k in ds}
        self.free = {"bind": lambda it, args, n: RecV(it.ty(n), {"dist": copy_val(it.rv(args[0]))}), "generate": self.generate}
        self.methods = {("op", "operator()"): self.draw}
        self.calls = []
        if cls == "SkewLinePointGenerator" and nparams == 4: self.calls = [(fn_named("_gen", cls=cls, cls_args=(D, DOUBLE), nparams=5).all, Gen(D))]
        self.calls = self.calls + [(BoxIn(D).find.all, BoxIn(D))]
        self.unroll = 2**D + 1; self.loops = {("_gen", k): self.loop for k in range(12)}
    def draw(self, it, this, args, n):
        v = it.read(this); d = v.f["dist"] if "dist" in v.f else v; x = it.ctx.fresh("draw", R)
        if "uniform" in d.t.a[0]: it.ctx.assume(And(d.f["p"] <= x, x <= d.f["q"])); it.ctx.oblige("distribution is well formed", d.f["p"] <= d.f["q"], "safety", n)
        else: self.S.normal.append(x)
        if self.cls == "EllipsoidPointGenerator" and len(self.S.normal) == self.D: it.ctx.assume(Or(*[y != 0 for y in self.S.normal])); self.S.normal = []
        return x
    def generate(self, it, args, n):
        """std::generate over a vector: one run of the generator for an arbitrary element"""
        b = it.rv(args[0])
        if isinstance(b, PtrV) and b.lv is not None:
            base = LVal(b.lv.c, b.lv.p[:-1]); v = it.read(base)
            if isinstance(v, DynArr):
                e = it.rv(args[1]); it.ctx.oblige("generate fills the whole vector", And(it.ptr_idx(b) == 0, it.ptr_idx(e) == v.size), "safety", n)
                c = it.rv(args[2]); x = it.call_closure(c, [], n); x = it.val(x) if isinstance(x, (LVal, RefV)) else x
                it.ctx.oblige("a generated center keeps the radius from every side", self.center(list(x.e)), "inv", n)
                w = it.fresh_dyn(v.et, "centers", "vec"); w.size = v.size; it.ctx.assume(forall(1, lambda j: self.center([a[j] for a in w.arrs]), pats=lambda j: [w.arrs[0][j]])); it.write(base, w); return None
        return it.models.algorithm(it, "generate", args, n)
    def center(self, x):
        S = self.S; r = S.radius
        return And(*[And(l + r <= y, y <= h - r) for y, l, h in zip(x, lo(S.box), hi(S.box))])
    def vecof(self, p): return p.f["__vec"]
    def pre(self, p, n, b): return [("slots for every point", self.vecof(p).size == n + 1), ("identifiers start at one", p.f["m_offset"] == 0), ("number of points", ULT(n, bv(1 << 40))), ("the box has positive extent", And(*[l < h for l, h in zip(lo(b), hi(b))]))]
    def setup(self, it, fn):
        D = self.D; a = fresh_args(it, fn); S = self.S = State(args=a, normal=[]); S.this = this_obj(it, self.cls, (D, DOUBLE)); S.p0 = copy_val(it.read(a[0])); S.n = it.read(a[1]); S.box = copy_val(it.read(a[2]))
        it.ctx.assume(And(*[g for _, g in self.pre(S.p0, S.n, S.box)]))
        if self.np == 5: x = it.real(it.read(a[4])); it.ctx.assume(And(0 <= x, x <= 1))
        if self.cls == "UnboundBubbleGenerator":
            v = it.read(S.this); S.radius = v.f["mBubbleRadius"]; it.ctx.assume(And(S.radius >= 0, v.f["mNumBubbles"] != 0, ULT(v.f["mNumBubbles"], bv(1 << 20)))); it.ctx.assume(And(*[h - l >= 2 * S.radius for l, h in zip(lo(S.box), hi(S.box))]))
        return S
    def pt(self, v, j): return [v.arrs[d][j] for d in range(self.D)]
    def done(self, p, i):
        """points 1 .. i-1 are inside"""
        v, S = self.vecof(p), self.S
        return [("slots stay", And(v.size == S.n + 1, p.f["m_offset"] == 0)), *self.isin(v, lambda j: ULT(j, i))]
    def isin(self, v, rng):
        return [("points so far are inside, dimension %d" % d, forall(1, lambda j, d=d: Implies(And(ULE(bv(1), j), rng(j)), And(lo(self.S.box)[d] <= v.arrs[d][j], v.arrs[d][j] <= hi(self.S.box)[d])), pats=lambda j, d=d: [v.arrs[d][j]])) for d in range(self.D)]
    def loop(self, it, n):
        S = self.S
        def counter(L, nm):
            try: return L.var(nm)
            except Exception: return None
        if n["kind"] == "DoStmt": return LoopSpec("draw until inside", lambda L: [("anything", z3.BoolVal(True))])
        src = it.ast.src(n) if hasattr(it.ast, "src") else None
        names = declared(n)
        t = names.get("i")
        if t is None or t not in (64,): return None
        z = 0 if self.cls == "UnboundBubbleGenerator" else 1
        def inv_(L):
            i = L.var("i"); p = it.read(S.args[0]); out = self.done(p, i + (1 - z))
            if self.cls == "BubblePointGenerator": return [("position", And(ULE(bv(1), i), ULE(i, S.n + 1)))] + out
            if self.cls == "SkewLinePointGenerator": return [("position", And(ULE(bv(1), i), ULE(i, S.n + 2), z3.Extract(0, 0, i) == 1))] + [out[0]] + self.isin(self.vecof(p), lambda j: And(ULT(j, i), ULE(j, S.n)))
            return [("position", And(ULE(bv(z), i), ULE(i, S.n + z)))] + out
        return LoopSpec("points", inv_, variant=lambda L: S.n + 2 - L.var("i"))
    def post(self, it, S, r):
        p = it.read(S.args[0]); v = self.vecof(p); j = it.ctx.fresh("j", IDX)
        return [("number of slots stays", And(v.size == S.n + 1, p.f["m_offset"] == 0)), ("every point lies inside the box", Implies(And(ULE(bv(1), j), ULE(j, S.n)), inside(self.pt(v, j), S.box)))]
    def apply(self, it, this, vals, f, n=None):
        p = it.read(vals[0]); k = it.read(vals[1]); b = it.read(vals[2])
        for l, g in self.pre(p, k, b): it.ctx.oblige("precondition of _gen: " + l, g, "pre", n)
        if len(vals) > 4: x = it.real(it.read(vals[4])); it.ctx.oblige("precondition of _gen: skew", And(0 <= x, x <= 1), "pre", n)
        w = copy_val(p); w.f["__vec"] = it.fresh_dyn(self.vecof(p).et, "points", "vec"); v = w.f["__vec"]; it.ctx.assume(v.size == k + 1)
        it.ctx.assume(forall(1, lambda j: Implies(And(ULE(bv(1), j), ULE(j, k)), inside(self.pt(v, j), b)), pats=lambda j: [v.arrs[0][j]])); it.write(vals[0], w)
def declared(n):
    out = {}
    ini = n["inner"][0] if n["kind"] == "ForStmt" else None
    if ini and ini.get("kind") == "DeclStmt":
        for d in ini["inner"]:
            q = d.get("type", {}); q = q.get("desugaredQualType", q.get("qualType", "")); out[d.get("name")] = 64 if "long" in q or "tIdType" in q or "size_t" in q else 32
    return out
class BoxIn(Contract):
    """dBox::contains(point) (proved in C12)"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def __init__(self, D): self.find = fn_named("contains", cls="dBox", cls_args=(D, DOUBLE), pred=lambda ast, f: "array" in repr(ast.type_of(ast.params(f)[0])))
    def apply(self, it, this, vals, f, n=None): return inside(list(it.read(vals[0]).e), it.read(this))
class Generate(Gen):
    """generate: n points with identifiers 1..n inside the box, whatever distribution fills them"""
    def __init__(self, D, fname):
        Gen.__init__(self, D); self.fname = fname; self.name = "PointGenerator<%d>::%s" % (D, fname); self.find = fn_named(fname, cls="PointGenerator", cls_args=(D, DOUBLE)); self.cls = "PointGenerator"
        self.methods = {("PointGenerator", "_gen"): lambda it, this, args, n: Gen(D).apply(it, this, [it.ev(x) if it.ty(x).k != "int" else LVal(Cell(it.rv(x), "n")) for x in args], None, n), ("CGALSpatialSorter", "sort"): self.sorted}
        self.calls = []; self.unroll = D + 1
    def sorted(self, it, this, args, n):
        """the points 1..n are permuted"""
        lv = it.lv(args[0]); p = it.read(lv); w = copy_val(p); v = self.vecof(p); u = w.f["__vec"] = it.fresh_dyn(v.et, "sorted", "vec"); it.ctx.assume(u.size == v.size)
        src = z3.Function("source_%d" % it.ctx.runner.paths if hasattr(it.ctx.runner, "paths") else "source", IDX, IDX)
        it.ctx.assume(forall(1, lambda j: Implies(And(ULE(bv(1), j), ULT(j, u.size)), And(ULE(bv(1), src(j)), ULT(src(j), v.size), *[a[j] == b[src(j)] for a, b in zip(u.arrs, v.arrs)])), pats=lambda j: [u.arrs[0][j]]))
        it.write(lv, w); return None
    def setup(self, it, fn):
        a = fresh_args(it, fn); S = self.S = State(args=a); S.this = this_obj(it, self.cls, (self.D, DOUBLE))
        if self.fname == "_init": S.n = it.read(a[0])
        elif self.fname == "_sort": S.p0 = copy_val(it.read(a[0])); S.n = self.vecof(S.p0).size - 1; it.ctx.assume(self.vecof(S.p0).size != 0); return S
        else: S.n = it.read(a[0]); S.box = copy_val(it.read(a[1])); it.ctx.assume(And(*[l < h for l, h in zip(lo(S.box), hi(S.box))]))
        it.ctx.assume(ULT(S.n, bv(1 << 40))); return S
    def post(self, it, S, r):
        p = (it.read(r) if isinstance(r, LVal) else r) if self.fname != "_sort" else it.read(S.args[0]); v = self.vecof(p); j = it.ctx.fresh("j", IDX)
        out = [("one slot per identifier", v.size == S.n + 1)]
        if self.fname == "_sort":
            i = z3.BitVec("i", 64); o = self.vecof(S.p0)
            return out + [("the identifiers keep their start", p.f["m_offset"] == S.p0.f["m_offset"]), ("every point is one of the given ones", Implies(And(ULE(bv(1), j), ULE(j, S.n)), z3.Exists([i], And(ULE(bv(1), i), ULE(i, S.n), *[a[j] == b[i] for a, b in zip(v.arrs, o.arrs)]))))]
        out += [("identifiers start at one", p.f["m_offset"] == 0)]
        return out + ([("every point lies inside the box", Implies(And(ULE(bv(1), j), ULE(j, S.n)), inside(self.pt(v, j), S.box)))] if self.fname == "generate" else [])
class Sorter(Gen):
    """the spatial sort only moves the points 1..n"""
    tu = "sorter"
    def __init__(self, D):
        Gen.__init__(self, D); self.cls = "CGALSpatialSorter"; self.name = "CGALSpatialSorter<%d>::sort" % D; self.find = fn_named("sort", cls=self.cls, cls_args=(D, DOUBLE)); self.calls = []; self.free = {"spatial_sort": self.spatial}; self.methods = {}
    def spatial(self, it, args, n):
        S = self.S; b, e = it.rv(args[0]), it.rv(args[1]); base = LVal(b.lv.c, b.lv.p[:-1]); v = it.read(base); S.calls += 1
        it.ctx.oblige("the sorted range is the points 1 to n", And(it.ptr_idx(b) == 1, it.ptr_idx(e) == v.size, z3.BoolVal(base.c is S.args[0].c)), "post", n); return None
    def setup(self, it, fn):
        a = fresh_args(it, fn); S = self.S = State(args=a, calls=0); S.this = this_obj(it, self.cls, (self.D, DOUBLE)); S.p0 = copy_val(it.read(a[0])); it.ctx.assume(self.vecof(S.p0).size != 0); return S
    def post(self, it, S, r): return [("sorted once", z3.BoolVal(S.calls == 1)), ("nothing else changes", And(*[x == y for x, y in zip(leaves(it.read(S.args[0])), leaves(S.p0))]))]
CL = ("UniformPointGenerator", "NormalPointGenerator", "BubblePointGenerator", "EllipsoidPointGenerator", "UnboundBubbleGenerator")
CONTRACTS = [Gen(D, c) for D in (2, 3) for c in CL] + [Gen(D, "SkewLinePointGenerator", k) for D in (2, 3) for k in (4, 5)] + [Generate(D, f) for D in (2, 3) for f in ("_init", "_sort", "generate")] + [Sorter(D) for D in (2, 3)]
