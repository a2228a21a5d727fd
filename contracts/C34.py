from vf.spec import *
TUS = ["archive"]
DRIVER = "C34.cpp"; DRIVER_SRCS = ["src/lib/Geometry.cpp", "src/utils/Predicates.cpp", "src/utils/System.cpp", "src/utils/Logger.cpp", "src/utils/ccolor.cpp", "src/utils/Timings.cpp"]
DRIVER_LIBS = ["-ltbb", "-lboost_serialization", "-lgmpxx", "-lgmp"]; DRIVER_TIMEOUT = 400
ASSUMPTIONS = ["Boost.Serialization restores numbers, std::array, std::vector and arrays as they were, in the order they were written, and calls the serialization functions of nested objects",
               "the store is verified for 64-bit elements (the code is parametric in the element type)", "allocation succeeds, fewer than 2^48 blocks"]
# ---- model of an archive: a position and, for every type, the values of that type by position
TAGS = {}
def tag_of(key): return bv(TAGS.setdefault(key, len(TAGS) + 1))
def strip(t):
    while t.k == "ref": t = t.a[0]
    return t
WRAP = Type("rec", "$array", ())
def new_archive(it, t, name): return RecV(t, {"pos": it.ctx.fresh(name + ".pos", IDX), "tag": z3.Const(str(it.ctx.fresh(name + ".tag", z3.BoolSort())), z3.ArraySort(IDX, IDX))})
def parts(it, lv, t):
    v = it.read(lv)
    if isinstance(v, RecV): return [lv.sub(("f", k)) for k in it.fresh_val(t, "shape").f]
    return [lv]
def shelf(it, ar, key, i, proto):
    """the array of the values of one part of one type"""
    f = "items:%s:%d" % (key, i); v = ar.c.v
    if f not in v.f: v.f[f] = mk_shelf(it, f, proto)
    return ar.sub(("f", f))
def mk_shelf(it, f, proto):
    return DynArr(Type("rec", "$item", ()), copy_val(proto), [z3.Const(str(it.ctx.fresh(f, z3.BoolSort())), z3.ArraySort(IDX, l.sort())) for l in leaves(proto)], idx(0), z3.BoolVal(False), "vec")
def base_object(it, args, n):
    o = it.ev(args[0]); t = strip(it.ty(n)); o = it.read(o).lv if isinstance(it.read(o), RefV) else o
    if t.k == "rec" and t.a[0] in ("std::vector",): return o.sub(("f", "__vec"))
    return o
def make_array(it, args, n):
    p = it.rv(args[0]); k = it.conv_int(it.rv(args[1]), it.int_ty(args[1]), U64)
    return RecV(WRAP, {"ptr": p, "n": k})
def operand(it, a):
    v = it.ev(a)
    if isinstance(v, LVal) and isinstance(it.peek(v), RefV): v = it.peek(v).lv
    if isinstance(v, RefV): v = v.lv
    if not isinstance(v, LVal): v = LVal(Cell(v, "tmp"))
    return v, strip(it.ty(a))
def source(it, w, n, what):
    """the array a pointer and a count denote"""
    p = w.f["ptr"]
    if not (p.lv.p and p.lv.p[-1][0] == "i"): raise Unsupported("array without storage")
    arr = LVal(p.lv.c, p.lv.p[:-1]); d = it.read(arr)
    it.ctx.oblige("%s: the array is allocated and long enough" % what, And(p.lv.p[-1][1] == idx(0), ULE(w.f["n"], d.size), Not(d.null)), "safety", n)
    return arr, d
def step(it, ar, key, n):
    it.ctx.runner.note("archive model: values are read back in the order they were written, by type; nested objects are written and read by their own serialization functions (each under contract or a library type)")
    p = it.read(ar).f["pos"]; it.write(ar.sub(("f", "pos")), it.s(p + 1)); return p
def put(it, ar, a, n):
    x, t = operand(it, a); v = it.read(x)
    if isinstance(v, RecV) and v.t == WRAP:
        arr, d = source(it, v, n, "writing"); key = "array of %r" % (d.et,)
        p = step(it, ar, key, n); vals = [DynArr(d.et, d.proto, list(d.arrs), v.f["n"], z3.BoolVal(False), "vec")]
    else:
        key = repr(t); vals = [it.read(q) for q in parts(it, x, t)]; p = step(it, ar, key, n)
    it.write(ar.sub(("f", "tag")), z3.Store(it.read(ar).f["tag"], p, tag_of(key)))
    for i, y in enumerate(vals):
        s = shelf(it, ar, key, i, y); it.write(s.sub(("i", p)), copy_val(y))
    return ar
def take(it, ar, a, n):
    x, t = operand(it, a); v = it.read(x); wrap = isinstance(v, RecV) and v.t == WRAP
    if wrap: arr, d = source(it, v, n, "reading"); key = "array of %r" % (d.et,)
    else: key = repr(t)
    p = step(it, ar, key, n)
    it.ctx.oblige("the archive holds a value of type %s here" % key, it.read(ar).f["tag"][p] == tag_of(key), "post", n)
    if wrap:
        got = it.read(shelf(it, ar, key, 0, DynArr(d.et, d.proto, list(d.arrs), d.size, d.null, "vec"))).get(p); k = v.f["n"]
        it.ctx.oblige("the archive holds an array of this length here", got.size == k, "post", n)
        new = [z3.Const(str(it.ctx.fresh("read", z3.BoolSort())), q.sort()) for q in d.arrs]
        for q, g, o in zip(new, got.arrs, d.arrs): it.ctx.assume(forall(1, lambda j: q[j] == If(ULT(j, k), g[j], o[j]), pats=lambda j: [q[j]]))
        it.write(arr, DynArr(d.et, d.proto, new, d.size, d.null, d.kind)); return ar
    for i, q in enumerate(parts(it, x, t)):
        g = it.read(shelf(it, ar, key, i, it.read(q))).get(p); it.write(q, copy_val(g))
    return ar
def both(it, this, args, n): return (put if it.read(this).t.a[0] == "OutArchive" else take)(it, this, args[0], n)
class Trip(Contract):
    """write an object, read it into another one: both bodies are executed; the two are equal afterwards and all that was written is read"""
    tu = "archive"; feas_ms = 300
    def __init__(self, name, wr, rd):
        self.name, self.find, self.rd = name, wr, rd
        self.abstract = {"OutArchive": new_archive, "InArchive": new_archive}; self.free = {"base_object": base_object, "make_array": make_array}
        self.methods = {("op", "operator<<"): lambda it, this, args, n: put(it, this, args[0], n), ("op", "operator>>"): lambda it, this, args, n: take(it, this, args[0], n), ("op", "operator&"): both}
    def objs(self, it, fn): raise NotImplementedError
    def prepare(self, it, S): pass
    def same_val(self, x, y):
        if isinstance(x, DynArr): return And(x.size == y.size, *[p == q for p, q in zip(x.arrs, y.arrs)])
        return eq_val(x, y)
    def equal(self, it, a, b): return [("%s is restored" % k, self.same_val(x, y)) for k, (x, y) in ((k, (a.f[k], b.f[k])) for k in a.f)]
    def invoke(self, it, fn, o, ar):
        ps = AST.params(fn); v = LVal(Cell(z3.BitVecVal(0, 32), "version"))
        if len(ps) == 3: return it.exec_fn(fn, None, [ar, o, v])
        return it.exec_fn(fn, o, [ar, v])
    def execute(self, it, fn):
        rd = self.rd(it.ast); S = State(); self.S = S; S.a, S.b = self.objs(it, fn); S.a0 = copy_val(it.read(S.a))
        S.ar = LVal(Cell(new_archive(it, Type("rec", "OutArchive", ()), "archive"), "archive")); S.p0 = it.read(S.ar).f["pos"]; it.ctx.assume(ULT(S.p0, bv(1 << 60)))
        self.prepare(it, S)
        it.ctx.runner.cover(it, "precondition is satisfiable")
        self.invoke(it, fn, S.a, S.ar)
        w = it.read(S.ar); S.p1 = w.f["pos"]
        S.ri = LVal(Cell(RecV(Type("rec", "InArchive", ()), dict(copy_val(w).f, pos=S.p0)), "archive"))
        self.invoke(it, rd, S.b, S.ri)
        it.ctx.runner.cover(it, "a returning path is feasible")
        for l, g in self.equal(it, S.a0, it.read(S.b)): it.ctx.oblige(l, g, "post", rd, assume=False)
        for l, g in self.equal(it, S.a0, it.read(S.a)): it.ctx.oblige("writing changes nothing: " + l.replace(" is restored", ""), g, "post", fn, assume=False)
        it.ctx.oblige("everything written is read", it.read(S.ri).f["pos"] == S.p1, "post", rd, assume=False)
def free_fn(arch, ty): return fn_named("serialize", pred=lambda ast, f: "(%s &, %s &," % (arch, ty) in f["type"]["qualType"])
class Plain(Trip):
    """a record: every data member"""
    def __init__(self, cls, D): Trip.__init__(self, "serialize(%s<%d>)" % (cls, D), free_fn("OutArchive", "%s<%dU, double>" % (cls, D)), free_fn("InArchive", "%s<%dU, double>" % (cls, D))); self.cls, self.D = cls, D
    def objs(self, it, fn): return [this_obj(it, self.cls, (self.D, DOUBLE), x) for x in ("written", "target")]
class Member(Trip):
    def __init__(self, cls, cargs, wr, rd, skip=()):
        Trip.__init__(self, "%s::%s" % (cls, "save/load" if wr != rd else "serialize") + ("<%s>" % cargs[0] if isinstance(cargs[0], int) else ""), fn_named(wr, cls=cls, cls_args=cargs, pred=lambda ast, f: "OutArchive" in f["type"]["qualType"]), fn_named(rd, cls=cls, cls_args=cargs, pred=lambda ast, f: "InArchive" in f["type"]["qualType"]))
        self.cls, self.cargs, self.skip = cls, cargs, skip
    def objs(self, it, fn): return [this_obj(it, self.cls, self.cargs, x) for x in ("written", "target")]
    def equal(self, it, a, b): return [(l, g) for l, g in Trip.equal(self, it, a, b) if l.split()[0] not in self.skip]
class BlockTrip(Member):
    def __init__(self): Member.__init__(self, "Block", (U64, U64), "save", "load")
    def objs(self, it, fn):
        a, b = Member.objs(self, it, fn); o = it.read(a); d = o.f["m_data"]
        it.ctx.assume(And(ULE(o.f["m_min"], o.f["m_max"]), d.size == o.f["m_max"] - o.f["m_min"], Not(d.null), ULT(d.size, bv(1 << 48)))); return a, b
    def equal(self, it, a, b):
        d, e = a.f["m_data"], b.f["m_data"]
        return [("the first identifier is restored", a.f["m_min"] == b.f["m_min"]), ("the end of the range is restored", a.f["m_max"] == b.f["m_max"]), ("the block is allocated with its range", And(Not(e.null), d.size == e.size)),
                ("every element is restored", forall(1, lambda i: Implies(ULT(i, d.size), d.arrs[0][i] == e.arrs[0][i])))]
class StoreTrip(Member):
    def __init__(self): Member.__init__(self, "BlockedArray2", (U64, U64), "save", "load"); self.loops = {("save", 0): self.saving, ("load", 0): self.loading}
    def objs(self, it, fn):
        a, b = Member.objs(self, it, fn); v = it.read(a).f["m_blocks"]
        it.ctx.assume(And(ULT(v.size, bv(1 << 48)), forall(1, lambda k: Implies(ULT(k, v.size), self.held(it.read(a), k))))); return a, b
    def held(self, o, k): p = o.f["m_blocks"].get(k); return And(Not(p.null), p.size == 1)
    def block(self, o, k): return o.f["m_blocks"].get(k).get(idx(0))
    def prepare(self, it, S):
        t = Type("rec", "_detail::Block", (U64, U64)); b = self.block(S.a0, idx(0)); self.key = repr(b.t); tag_of(self.key)
        for i, (k, x) in enumerate(b.f.items()): shelf(it, S.ar, self.key, i, x)
        shelf(it, S.ar, repr(U64), 0, bv(0))
    def kept(self, ar, o, p, k):
        b = self.block(o, k); items = [leaves(ar.f["items:%s:%d" % (self.key, i)].get(p)) for i in range(len(b.f))]
        return And(ar.f["tag"][p] == tag_of(self.key), *[x == y for l, f in zip(items, b.f) for x, y in zip(l, leaves(b.f[f]))])
    def saving(self, it, n):
        S = self.S
        def inv(L):
            i = L.pos(); ar = L.var("ar")
            return [("position", And(ULE(i, S.a0.f["m_blocks"].size), ar.f["pos"] == S.p0 + 1 + i)), ("the number of blocks stays in the archive", And(ar.f["tag"][S.p0] == tag_of(repr(U64)), ar.f["items:%s:0" % repr(U64)].get(S.p0) == S.a0.f["m_blocks"].size)),
                    ("the blocks so far are in the archive", forall(1, lambda k: Implies(ULT(k, i), self.kept(ar, S.a0, S.p0 + 1 + k, k))))]
        return LoopSpec("blocks written", inv, variant=lambda L: S.a0.f["m_blocks"].size - L.pos())
    def same(self, a, b, n): return forall(1, lambda k: Implies(ULT(k, n), And(self.held(b, k), *[x == y for x, y in zip(leaves(self.block(a, k)), leaves(self.block(b, k)))])))
    def loading(self, it, n):
        S = self.S
        def inv(L):
            i = L.var("i"); ar = L.var("ar"); o = L.this
            return [("position", And(ULE(i, S.a0.f["m_blocks"].size), L.var("n") == S.a0.f["m_blocks"].size, ar.f["pos"] == S.p0 + 1 + i, o.f["m_blocks"].size == i)), ("the hint is the first block", o.f["m_hint"] == 0),
                    ("the blocks so far are restored", self.same(S.a0, o, i)), ("what is left in the archive", forall(1, lambda k: Implies(ULT(k, S.a0.f["m_blocks"].size), self.kept(ar, S.a0, S.p0 + 1 + k, k))))]
        def start(L):
            i = L.var("i"); it.ctx.assume(Implies(ULT(i, S.a0.f["m_blocks"].size), self.kept(L.var("ar"), S.a0, S.p0 + 1 + i, i)))      # the last part of the invariant, at i
        return LoopSpec("blocks read", inv, variant=lambda L: S.a0.f["m_blocks"].size - L.var("i"), body_start=start)
    def equal(self, it, a, b):
        out = [("the number of blocks is restored", a.f["m_blocks"].size == b.f["m_blocks"].size), ("every block is restored", self.same(a, b, a.f["m_blocks"].size))]
        return out + ([("the lookup hint addresses a block (is restored)", b.f["m_hint"] == 0)] if b is it.read(self.S.b) else [])
CONTRACTS = [BlockTrip(), StoreTrip()] + [Plain(c, D) for D in (2, 3) for c in ("dPoint", "dSimplex", "dBox", "dSphere", "dPointStats", "dPoints")] + \
            [Member("VectorAdapter2", (Type("rec", "dPoint", (D, DOUBLE)),), "serialize", "serialize") for D in (2, 3)] + [Member("dSimplices", (D, DOUBLE), "serialize", "serialize", ("mark",)) for D in (2, 3)]
