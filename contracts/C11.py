from vf.spec import *
DRIVER = "C11.cpp"
DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["point containers hold fewer than 2^48 finite points and offsets are below 2^60 (identifier ranges do not reach the infinite identifiers)",
               "verified in both build configurations (with and without NDEBUG)"]
T = lambda D: Type("rec", "dPoint", (D, DOUBLE))
def inf(D, x): return ULE(bv((1 << 64) - (1 << D)), x)
def infno(D, x): return x & bv((1 << D) - 1)

class P(Contract):
    """static classification"""
    def __init__(self, D, fname, tu): self.D, self.fname, self.tu = D, fname, tu; self.name = "dPoint<%d>::%s" % (D, fname); self.find = fn_named(fname, cls="dPoint", cls_args=(D, DOUBLE))
    def setup(self, it, fn):
        a = fresh_args(it, fn); x = it.read(a[0])
        if self.fname == "infIndex": it.ctx.assume(inf(self.D, x))
        return State(this=None, args=a, x=x)
    def post(self, it, S, r):
        if self.fname == "isFinite": return [("finite exactly when not one of the 2^D highest identifiers", to_bool(r) == Not(inf(self.D, S.x)))]
        y = it.ctx.fresh("other", IDX); it.ctx.assume(inf(self.D, y))
        r2 = it.call(it.ctx.runner.fn, None, [LVal(Cell(y, "y"))], it.ctx.runner.fn)
        return [("infinite identifiers are numbered 0 .. 2^D-1", ULT(r, bv(1 << self.D))), ("different infinite identifiers get different numbers", Implies(S.x != y, r != r2))]

class VA(Contract):
    def __init__(self, D, fname, cls, tu, **k):
        self.D, self.fname, self.cls, self.tu = D, fname, cls, tu
        self.args_ = (T(D),) if cls == "VectorAdapter2" else (D, DOUBLE)
        self.name = "%s<%d>::%s%s%s" % (cls, D, fname, " const" if k.get("const") else "", " [NDEBUG]" if "NDEBUG" in tu else "")
        self.find = fn_named(fname, cls=cls, cls_args=self.args_, **k)
    def obj(self, it, name="obj"):
        o = this_obj(it, self.cls, self.args_, name); v = it.read(o)
        it.ctx.assume(And(ULT(v.f["__vec"].size, bv(1 << 48)), ULT(v.f["m_offset"], bv(1 << 60))))
        return o
    def stored(self, v, i):
        """stored finite identifier"""
        return And(ULE(v.f["m_offset"], i), ULT(i - v.f["m_offset"], v.f["__vec"].size), Not(inf(self.D, i)))

class Contains(VA):
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); return State(this=o, args=a, v=copy_val(it.read(o)), i=it.read(a[0]))
    def post(self, it, S, r):
        e = Or(self.stored(S.v, S.i), inf(self.D, S.i))
        if self.cls == "dPoints": e = Or(And(self.stored(S.v, S.i), S.i != S.v.f["m_offset"]), inf(self.D, S.i))
        return [("true exactly for the stored finite and the infinite identifiers", to_bool(r) == e)]

class Access(VA):
    """own cell per identifier, the same through every accessor; no exception for stored identifiers"""
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); v = copy_val(it.read(o)); i = it.read(a[0])
        it.ctx.assume(Or(self.stored(v, i), inf(self.D, i)))
        return State(this=o, args=a, v=v, i=i)
    def post(self, it, S, r):
        if not isinstance(r, LVal): raise Unsupported("reference result")
        it.bounds(r, it.ctx.runner.fn, "result addresses an element")
        if self.tag(it, r) == "__vec": loc_fin = self.idx_of(r)
        j = it.ctx.fresh("j", IDX); it.ctx.assume(And(j != S.i, Or(self.stored(S.v, j), inf(self.D, j))))
        oth = call_member(it, S.this, "operator[]", [j], const=False)
        ref = call_member(it, S.this, "operator[]", [S.i], const=False)
        return [("different identifiers, different cells", Not(self.same(it, r, oth))), ("same cell through every accessor", self.same(it, r, ref)),
                ("finite identifiers address the finite points, infinite ones the infinite points", (inf(self.D, S.i)) == (self.tag(it, r) != "__vec")),
                ("container unchanged", And(it.read(S.this).f["__vec"].size == S.v.f["__vec"].size, it.read(S.this).f["m_offset"] == S.v.f["m_offset"], *[x == y for x, y in zip(it.read(S.this).f["__vec"].arrs, S.v.f["__vec"].arrs)]))]
    def tag(self, it, lv): return [s[1] for s in lv.p if s[0] == "f"][0]
    def idx_of(self, lv): return [s[1] for s in lv.p if s[0] == "i"][0]
    def same(self, it, a, b):
        if self.tag(it, a) != self.tag(it, b): return z3.BoolVal(False)
        return same_loc(it, a, b)

class Grow(VA):
    """emplace_back / resize / reserveUpToIdx keep the stored points and make the requested identifiers available"""
    def setup(self, it, fn):
        o = self.obj(it); a = fresh_args(it, fn); v = copy_val(it.read(o)); S = State(this=o, args=a, v=v)
        x = it.read(a[0])
        if self.fname != "emplace_back": it.ctx.assume(ULT(x, bv(1 << 48)))
        if self.fname == "reserveUpToIdx": it.ctx.assume(ULE(v.f["m_offset"], x))
        S.x = copy_val(x); return S
    def post(self, it, S, r):
        w = it.read(S.this); v = S.v; vec, old = w.f["__vec"], v.f["__vec"]
        out = [("offset unchanged", w.f["m_offset"] == v.f["m_offset"]), ("infinite points unchanged", eq_val(w.f["m_infinites"], v.f["m_infinites"]))]
        k = it.ctx.fresh("k", IDX)
        lim = old.size
        if self.fname == "emplace_back": out += [("one more point", vec.size == old.size + 1), ("the new point is the last one", eq_val(vec.get(old.size), S.x))]
        elif self.fname == "resize": out += [("requested size", vec.size == S.x)]; lim = vec.size
        else: out += [("identifiers below the bound become available", ULE(S.x - v.f["m_offset"], vec.size)), ("never shrinks", ULE(old.size, vec.size))]
        out.append(("stored points unchanged", Implies(And(ULT(k, old.size), ULT(k, lim)), eq_val(vec.get(k), old.get(k)))))
        return out

class Ctor(VA):
    """a new point container holds the reserved zero entry only"""
    def setup(self, it, fn):
        t = Type("rec", self.cls, self.args_); o = LVal(Cell(RecV(t, {}), "obj", t)); return State(this=o, args=fresh_args(it, fn))
    def post(self, it, S, r):
        v = it.read(S.this)
        return [("only the reserved entry is stored", And(v.f["__vec"].size == 1, v.f["m_offset"] == 0)), ("reserved entry is the origin", And(*[x == 0 for x in leaves(v.f["__vec"].get(idx(0)))]))]

def byref(ast, f):
    ps = AST.params(f); return len(ps) == 1 and "const dPoint" in ps[0]["type"]["qualType"]

CONTRACTS = []
for tu in ("geom", "geom -DNDEBUG"):
    for D in (2, 3):
        if tu == "geom": CONTRACTS += [P(D, "isFinite", tu), P(D, "infIndex", tu)]
        CONTRACTS += [Contains(D, "contains", "VectorAdapter2", tu), Contains(D, "contains", "dPoints", tu)]
        for f in ("operator[]", "at"):
            for c in (False, True): CONTRACTS.append(Access(D, f, "VectorAdapter2", tu, const=c))
        if tu == "geom":
            CONTRACTS += [Grow(D, f, "VectorAdapter2", tu, **(dict(pred=byref) if f == "emplace_back" else {})) for f in ("emplace_back", "resize", "reserveUpToIdx")]
            CONTRACTS.append(Ctor(D, "dPoints", "dPoints", tu, nparams=0))
