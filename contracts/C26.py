from vf.spec import *
from vf.runner import Obl
TUS = ["aabb"]
DRIVER = "C26.cpp"; DRIVER_LIBS = ["-ltbb"]; DRIVER_SRCS = ["src/utils/System.cpp", "src/utils/Timings.cpp"]
ASSUMPTIONS = ["coordinates are treated as real numbers and the arithmetic on them as exact", "inserted boxes are cells of the grid whose width the tree was built with", "the recursion of insert terminates (the driver runs into a time limit otherwise)", "the query ball has a non-negative radius"]
R = z3.RealSort(); B = z3.BoolSort()
A = z3.Function("on_grid", R, B); C = z3.Function("cell_side", R, R, B)
H = {D: z3.Function("ball_meets_box_%d" % D, *([R] * (2 * D)), B) for D in (2, 3)}
cs = z3.Real("cell_width")
def lo(b): return list(b.f["low"].e)
def hi(b): return list(b.f["high"].e)
def within(b, c): return And(*[And(l2 <= l1, h1 <= h2) for l1, h1, l2, h2 in zip(lo(b), hi(b), lo(c), hi(c))])
def same(b, c): return And(*[And(l2 == l1, h1 == h2) for l1, h1, l2, h2 in zip(lo(b), hi(b), lo(c), hi(c))])
def grid(b): return And(*[And(A(l), A(h), l <= h) for l, h in zip(lo(b), hi(b))])
def cell(b): return And(*[C(l, h) for l, h in zip(lo(b), hi(b))])
def meets(b): return H[len(lo(b))](*lo(b), *hi(b))
def clamp(b, c): return [If(l - x >= 0, l - x, z3.RealVal(0)) + If(x - h >= 0, x - h, z3.RealVal(0)) for l, h, x in zip(lo(b), hi(b), c)]
M1 = z3.BitVecVal(2**32 - 1, 32)
def k32(k): return z3.BitVecVal(k % 2**32, 32)

class Tree(Contract):
    """A node with the ghost flag $hit: some inserted cell meets one fixed, arbitrary ball."""
    tu = "aabb"; dups = False
    def __init__(self, D):
        self.D = D; self.nt = Type("rec", "TreeNode", (D, DOUBLE))
        self.abstract = {"TreeNode": self.node}
        self.methods = {}
    def node(self, it, t, name):
        bt = Type("rec", "dBox", (self.D, DOUBLE))
        return RecV(t, {"bounds": it.fresh_val(bt, name + ".bounds"), "cell_size": it.ctx.fresh(name + ".cell", R), "nChildren": it.ctx.fresh(name + ".n", z3.BitVecSort(32)), "$hit": it.ctx.fresh(name + ".hit", B)})
    def lemmas(self, it):
        """the facts about grid lines and balls that the argument uses, each proved from its definition first"""
        D = self.D; w = z3.Real("w"); k, m, j = z3.Ints("k m j"); r = z3.ToReal; a, b, c, d, x = z3.Reals("a b c d x"); obl = []
        def lem(nm, hs, g): it.ctx.runner.add_obl(Obl(fn=it.ctx.runner.cname, name="lemma: " + nm, hyps=list(hs), goal=g, kind="lemma", line=None, inputs=[], path=[], hints=[]))
        lem("a grid line does not cut a cell", [w > 0, Or(r(m) - r(k) <= 0, r(m) - r(k) - 1 >= 0)], Or((r(k) + 1) * w <= r(m) * w, r(m) * w <= r(k) * w))
        lem("integers have no value in between", [], Or(r(m) - r(k) <= 0, r(m) - r(k) - 1 >= 0))
        lem("a cell inside a cell is that cell", [w > 0, r(k) * w <= r(m) * w, (r(m) + 1) * w <= (r(k) + 1) * w], r(m) * w == r(k) * w)
        lem("a cell has positive width", [w > 0], r(k) * w < (r(k) + 1) * w)
        l1, h1, l2, h2, p = [z3.Reals(" ".join("%s%d" % (n, i) for i in range(D))) for n in ("l", "h", "L", "G", "p")]; rad = z3.Real("rad")
        bx = lambda l, h: RecV(None, {"low": FixArr(DOUBLE, l), "high": FixArr(DOUBLE, h)})
        e1, e2 = clamp(bx(l1, h1), p), clamp(bx(l2, h2), p); f1, f2 = z3.Reals(" ".join("f%d" % i for i in range(D))), z3.Reals(" ".join("g%d" % i for i in range(D)))
        win = And(*[And(L <= l, h <= G) for l, h, L, G in zip(l1, h1, l2, h2)])
        lem("the distance to a larger box is not larger", [win], And(*[And(0 <= y, y <= x) for x, y in zip(e1, e2)]))
        for i in range(D): lem("squares are monotone %d" % i, [0 <= f2[i], f2[i] <= f1[i]], f2[i] * f2[i] <= f1[i] * f1[i])
        s1, s2 = z3.Reals(" ".join("s%d" % i for i in range(D))), z3.Reals(" ".join("t%d" % i for i in range(D)))
        lem("a larger box is met as well", [And(*[x2 <= x1 for x1, x2 in zip(s1, s2)]), sum(s1) <= rad], sum(s2) <= rad)
        F = lambda vs, body, pat: z3.ForAll(vs, body, patterns=[pat])
        it.ctx.assume(cs > 0)
        it.ctx.assume(F([a, b, c], Implies(And(A(a), C(b, c)), Or(c <= a, a <= b)), z3.MultiPattern(A(a), C(b, c))))
        it.ctx.assume(F([a, b, c, d], Implies(And(C(a, b), C(c, d), c <= a, b <= d), And(a == c, b == d)), z3.MultiPattern(C(a, b), C(c, d))))
        it.ctx.assume(F([a, b], Implies(C(a, b), And(a < b, A(a), A(b))), C(a, b)))
        it.ctx.assume(z3.ForAll(l1 + h1 + l2 + h2, Implies(And(win, H[D](*l1, *h1)), H[D](*l2, *h2)), patterns=[z3.MultiPattern(H[D](*l1, *h1), H[D](*l2, *h2))]))
    def inv(self, v):
        """abstract node"""
        b = v.f["bounds"]; n = v.f["nChildren"]; h = v.f["$hit"]
        return [("the bounds lie on the grid", grid(b)), ("cell width", v.f["cell_size"] == cs), ("a hit is inside the bounds", Implies(h, meets(b))), ("a leaf is one cell that was inserted", Implies(n == M1, And(cell(b), h == meets(b)))),
                ("an empty node has no hit", Implies(n == 0, Not(h))), ("a node with children is larger than a cell", Or(n == 0, n == M1, Not(cell(b))))]
    def kids(self, v): return [c.get(bv(0)) for c in v.f["children"].e]
    def hit(self, v):
        if "$hit" in v.f: return v.f["$hit"]
        n = v.f["nChildren"]; ks = self.kids(v)
        return If(n == M1, meets(v.f["bounds"]), Or(*[And(z3.UGT(n, k32(i)), n != M1, c.f["$hit"]) for i, c in enumerate(ks)]))
    def leafmode(self, v): return And(*[Implies(And(v.f["nChildren"] != M1, z3.UGT(v.f["nChildren"], k32(i))), c.f["nChildren"] == M1) for i, c in enumerate(self.kids(v))])
    def quadrants(self, v, mid=None):
        """the children are the 2^D boxes around a point on the grid"""
        D = self.D; b = v.f["bounds"]; ks = self.kids(v)
        mid = [ks[0].f["bounds"].f["high"].e[d] for d in range(D)] if mid is None else mid
        out = [v.f["nChildren"] == 2**D] + [And(A(m), l <= m, m <= h) for m, l, h in zip(mid, lo(b), hi(b))]
        for i, c in enumerate(ks):
            for d in range(D):
                up = i >> d & 1; cb = c.f["bounds"]
                out += [lo(cb)[d] == (mid[d] if up else lo(b)[d]), hi(cb)[d] == (hi(b)[d] if up else mid[d])]
        return And(*out)
    def cinv(self, v):
        """node with its children"""
        D = self.D; b = v.f["bounds"]; n = v.f["nChildren"]; w = RecV(v.t, {"bounds": b, "cell_size": v.f["cell_size"], "nChildren": n, "$hit": self.hit(v)})
        out = self.inv(w) + [("number of children", Or(n == M1, z3.ULE(n, k32(2**D))))]
        for i, c in enumerate(self.kids(v)):
            on = And(n != M1, z3.UGT(n, k32(i)))
            out += [("child %d exists" % i, Implies(on, Not(v.f["children"].e[i].null))), ("child %d: %s" % (i, "consistent"), Implies(on, And(within(c.f["bounds"], b), *[g for _, g in self.inv(c)])))]
        return out + [("children are cells or quadrants", Or(self.leafmode(v), self.quadrants(v)))]
    def allinv(self, v): return self.inv(v) if "$hit" in v.f else self.cinv(v)
    def concrete(self, it, modes=None):
        D = self.D; t = self.nt; opts = [(-1, "leaf"), (0, "leaf")] + [(k, "leaf") for k in range(1, 2**D + 1)] + [(2**D, "quad")]
        if modes: opts = [o for o in opts if o in modes]
        k, mode = opts[-1]
        for o in opts[:-1]:
            if it.ctx.choose("shape"): k, mode = o; break
        bt = Type("rec", "dBox", (D, DOUBLE)); pt = Type("rec", "std::unique_ptr", (t,)); ch = []
        for i in range(2**D):
            c = it.fresh_dyn(t, "child%d" % i, "ubox"); c.size = bv(1); c.null = z3.BoolVal(i >= k) if i >= max(k, 0) else z3.BoolVal(False); ch.append(c)
        v = RecV(t, {"bounds": it.fresh_val(bt, "bounds"), "cell_size": cs, "children": FixArr(pt, ch), "nChildren": k32(k)})
        it.ctx.assume(And(*[g for l, g in self.cinv(v) if not l.startswith("children are")])); it.ctx.assume(self.leafmode(v) if mode == "leaf" else self.quadrants(v))
        return v

class HitC(Contract):
    """dBox::intersects with the fixed ball"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def __init__(self, con): self.con = con
    def apply(self, it, this, vals, f, n=None):
        S = self.con.S; c = it.read(vals[0])
        it.ctx.oblige("precondition of intersects: the query ball", And(*[x == y for x, y in zip(leaves_(c), leaves_(S.ball))]), "pre", n)
        return meets(it.read(this))
def leaves_(v): return list(v.f["center"].e) + [v.f["radius"]]
class BoxC(Contract):
    """dBox::contains(box) and dBox::operator==, side by side"""
    tu = "aabb"; modifies = staticmethod(lambda it, this, f: []); modifies_args = (); dups = False
    def __init__(self, D, fname):
        self.D, self.fname = D, fname; self.name = "dBox<%d>::%s" % (D, "contains box" if fname == "contains" else fname); self.unroll = D + 1
        self.find = fn_named(fname, cls="dBox", cls_args=(D, DOUBLE), pred=lambda ast, f: "dBox" in repr(ast.type_of(ast.params(f)[0])))
        self.rel = lambda b, c: within(c, b) if fname == "contains" else same(b, c)
    def setup(self, it, fn):
        a = fresh_args(it, fn); return State(this=this_obj(it, "dBox", (self.D, DOUBLE)), args=a)
    def post(self, it, S, r): return [("side by side", to_bool(r) == self.rel(it.read(S.this), it.read(S.args[0])))]
    def apply(self, it, this, vals, f, n=None): return self.rel(it.read(this), it.read(vals[0]))
class InsertC(Contract):
    """a cell node: true iff it lies inside, and then its hit is added; the bounds stay"""
    modifies = staticmethod(lambda it, this, f: [this]); modifies_args = (0,)
    def __init__(self, con): self.con = con
    def apply(self, it, this, vals, f, n=None):
        K = self.con; v = it.read(this); p = it.lvof(vals[0]) if hasattr(it, "lvof") else vals[0]; u = it.read(p)
        while isinstance(u, RefV): p = u.lv; u = it.read(p)
        it.ctx.oblige("precondition of insert: a node is given", Not(u.null), "pre", n); b = u.get(bv(0))
        for l, g in K.inv(b) + [("a cell", b.f["nChildren"] == M1)]: it.ctx.oblige("precondition of insert: inserted node: " + l, g, "pre", n)
        for l, g in K.allinv(v): it.ctx.oblige("precondition of insert: " + l, g, "pre", n)
        r = it.ctx.fresh("inserted", B); ok = within(b.f["bounds"], v.f["bounds"]); it.ctx.assume(r == ok); h0 = K.hit(v)
        w = K.node(it, v.t, "after"); w.f["bounds"] = copy_val(v.f["bounds"]); w.f["cell_size"] = v.f["cell_size"]
        it.ctx.assume(And(w.f["$hit"] == Or(h0, And(r, meets(b.f["bounds"]))), *[g for _, g in K.inv(w)])); it.ctx.assume(Implies(v.f["nChildren"] == M1, w.f["nChildren"] == M1))
        it.write(this, w); it.write(p, it.fresh_dyn(K.nt, "handed over", "ubox")); return r
class SplitC(Contract):
    """a full node of cells: same hits, same bounds, and every cell inside is inside a child"""
    modifies = staticmethod(lambda it, this, f: [this]); modifies_args = ()
    def __init__(self, con): self.con = con
    def apply(self, it, this, vals, f, n=None):
        K = self.con; v = it.read(this)
        for l, g in K.splitpre(v): it.ctx.oblige("precondition of split: " + l, g, "pre", n)
        w = K.node(it, v.t, "split"); w.f["bounds"] = copy_val(v.f["bounds"]); w.f["cell_size"] = v.f["cell_size"]
        it.ctx.assume(And(w.f["$hit"] == K.hit(v), *[g for _, g in K.inv(w)]))
        it.write(this, w); return None
class MeetC(Contract):
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def __init__(self, con): self.con = con
    def apply(self, it, this, vals, f, n=None):
        K = self.con; v = it.read(this)
        for l, g in K.allinv(v): it.ctx.oblige("precondition of intersects: " + l, g, "pre", n)
        HitC(K).apply(it, LVal(Cell(v.f["bounds"], "bounds")), vals, f, n); return K.hit(v)
class NodeC(Contract):
    """a new node: a leaf holds its own box, an inner node is empty"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def __init__(self, con): self.con = con
    def apply(self, it, this, vals, f, n=None):
        K = self.con; w = K.node(it, K.nt, "new"); b, c, l = [it.read(x) for x in vals]; l = to_bool(l)
        w.f["bounds"] = copy_val(b); w.f["cell_size"] = c; w.f["nChildren"] = If(l, M1, k32(0)); w.f["$hit"] = And(l, meets(b))
        if this is not None: it.write(this, w)
        return w
class Node(Tree):
    def __init__(self, D, fname, shape=None):
        Tree.__init__(self, D); self.fname = fname; self.name = "TreeNode<%d>::%s" % (D, fname); P = (D, DOUBLE); self.shape = [(2**D, "leaf")] if fname == "split" else None
        if shape: self.shape = [shape]; self.name += " of a node with %s" % ("%d cells" % shape[0] if shape[1] == "leaf" and shape[0] >= 0 else "quadrants" if shape[1] == "quad" else "no children that is a leaf")
        ctor = lambda ast, f: len(ast.params(f)) == 3
        F = {"insert": fn_named("insert", cls="TreeNode", cls_args=P), "split": fn_named("split", cls="TreeNode", cls_args=P), "intersects": fn_named("intersects", cls="TreeNode", cls_args=P), "ctor": fn_named("TreeNode", cls="TreeNode", cls_args=P, pred=ctor)}
        self.find = F[fname]
        self.calls = [(BoxC(D, x).find.all, BoxC(D, x)) for x in ("contains", "operator==")] + [(fn_named("intersects", cls="dBox", cls_args=P).all, HitC(self)), (F["insert"].all, InsertC(self)), (F["split"].all, SplitC(self)), (F["intersects"].all, MeetC(self)), (F["ctor"].all, NodeC(self))]
        self.loops = {}; self.unroll = 2**D + 1
    def splitpre(self, v):
        if "$hit" in v.f: return [("only a full node is split", z3.BoolVal(False))]
        return self.cinv(v) + [("all children are there", v.f["nChildren"] == 2**self.D), ("the children are cells", self.leafmode(v))]
    def setup(self, it, fn):
        D = self.D; a = fresh_args(it, fn); S = self.S = State(args=a); self.lemmas(it); bt = Type("rec", "dBox", (D, DOUBLE))
        S.ball = it.fresh_val(Type("rec", "dSphere", (D, DOUBLE)), "ball")
        if self.fname == "ctor": S.this = LVal(Cell(RecV(self.nt, {}), "obj", self.nt)); S.v0 = [copy_val(it.read(x)) for x in a]; return S
        v = self.concrete(it, self.shape); S.v0 = copy_val(v); S.this = LVal(Cell(v, "node", self.nt))
        if self.fname == "insert":
            b = self.node(it, self.nt, "b"); it.ctx.assume(And(b.f["nChildren"] == M1, *[g for _, g in self.inv(b)])); d = it.fresh_dyn(self.nt, "given", "ubox"); d.size = bv(1); d.null = z3.BoolVal(False); d.put(bv(0), b)
            it.write(a[0], d) if not isinstance(a[0], LVal) else it.write(a[0], d); S.b = b
        if self.fname == "intersects": it.write(a[0], S.ball)
        if self.fname == "split":
            # the line the source rounds down to, dimension by dimension
            for d in range(D):
                l, h = lo(v.f["bounds"])[d], hi(v.f["bounds"])[d]; K = z3.ToInt((l + (h - l) / 2) / cs); m = z3.ToReal(K) * cs
                self.midfact(it, d, l, h, m)
        return S
    def midfact(self, it, d, l, h, m):
        a, b, w = z3.Ints("a b") + [z3.Real("w")]; r = z3.ToReal; X = (r(a) * w + (r(b) * w - r(a) * w) / 2) / w
        x, y = z3.Reals("x y"); k = z3.Int("k")
        def lem(nm, hs, g): it.ctx.runner.add_obl(Obl(fn=it.ctx.runner.cname, name="lemma: " + nm, hyps=list(hs), goal=g, kind="lemma", line=None, inputs=[], path=[], hints=[]))
        lem("the middle in cell widths", [w > 0], X == (r(a) + r(b)) / 2)
        lem("the middle line is not outside", [a <= b, k == z3.ToInt((r(a) + r(b)) / 2)], And(a <= k, k <= b))
        lem("lines are ordered like their numbers", [w > 0, a <= k, k <= b], And(r(a) * w <= r(k) * w, r(k) * w <= r(b) * w))
        it.ctx.assume(Implies(And(A(l), A(h), l <= h), And(A(m), l <= m, m <= h)))
    def post(self, it, S, r):
        v = it.read(S.this)
        if self.fname == "ctor":
            b, c, l = S.v0
            return [("bounds as given", same(v.f["bounds"], b)), ("cell width as given", v.f["cell_size"] == c), ("a leaf or an empty node", v.f["nChildren"] == If(to_bool(l), M1, k32(0)))]
        h0 = self.hit(S.v0); keep = [("the bounds stay", same(v.f["bounds"], S.v0.f["bounds"]))]
        if self.fname == "intersects": return [("true exactly when an inserted cell is hit", to_bool(r) == h0)]
        if self.fname == "split": return keep + self.allinv(v) + [("the hits stay", self.hit(v) == h0)]
        ok = within(S.b.f["bounds"], S.v0.f["bounds"])
        return keep + self.allinv(v) + [("true exactly when the cell lies inside", to_bool(r) == ok), ("the cell is added to the inserted ones, and nothing else", self.hit(v) == Or(h0, And(ok, meets(S.b.f["bounds"])))), ("a leaf stays a leaf", Implies(S.v0.f["nChildren"] == M1, v.f["nChildren"] == M1))]
class Whole(Node):
    """the tree: its root is a node"""
    def __init__(self, D, fname):
        Node.__init__(self, D, "insert"); self.fname = fname; self.name = "AABBTree<%d>::%s" % (D, fname); P = (D, DOUBLE); self.unroll = D + 1
        self.find = fn_named("AABBTree" if fname == "ctor" else fname, cls="AABBTree", cls_args=P, pred=(lambda ast, f: len(ast.params(f)) == 2) if fname == "ctor" else None)
        if fname == "ctor": self.calls = self.calls + [(fn_named("round", cls="AABBTree", cls_args=P).all, RoundC(self))]
    def setup(self, it, fn):
        D = self.D; a = fresh_args(it, fn); S = self.S = State(args=a); self.lemmas(it); t = Type("rec", "AABBTree", (D, DOUBLE)); S.ball = it.fresh_val(Type("rec", "dSphere", (D, DOUBLE)), "ball")
        if self.fname in ("ctor", "round"):
            S.b = copy_val(it.read(a[0])); it.write(a[1], cs); it.ctx.assume(And(*[l <= h for l, h in zip(lo(S.b), hi(S.b))]))
            S.this = LVal(Cell(RecV(t, {}), "tree", t)) if self.fname == "ctor" else None; return S
        r = self.node(it, self.nt, "root"); S.v0 = copy_val(r); it.ctx.assume(And(*[g for _, g in self.inv(r)])); S.this = LVal(Cell(RecV(t, {"m_root": r}), "tree", t))
        if self.fname == "insert": S.b = copy_val(it.read(a[0])); it.ctx.assume(cell(S.b))
        else: it.write(a[0], S.ball)
        return S
    def post(self, it, S, r):
        if self.fname == "round":
            for d in range(self.D):      # instances of the definition: integer multiples of the width are on the grid
                for x in (lo(S.b)[d], hi(S.b)[d]):
                    for e in (0, 1): it.ctx.assume(A(z3.ToReal(z3.ToInt(x / cs) + e) * cs))
            return cover(it, self.D, S.b, r)
        v = it.read(S.this).f["m_root"]
        if self.fname == "ctor": return self.inv(v) + cover(it, self.D, S.b, v.f["bounds"], lines=False) + [("nothing is inserted yet", Not(self.hit(v)))]
        if self.fname == "intersects": return [("true exactly when an inserted cell is hit", to_bool(r) == S.v0.f["$hit"])]
        ok = within(S.b, S.v0.f["bounds"])
        return self.inv(v) + [("the bounds stay", same(v.f["bounds"], S.v0.f["bounds"])), ("true exactly when the cell lies inside", to_bool(r) == ok), ("the cell is added to the inserted ones, and nothing else", v.f["$hit"] == Or(S.v0.f["$hit"], And(ok, meets(S.b))))]
def at(x): return z3.ToReal(z3.ToInt(x / cs)) * cs
def cover(it, D, b, r, lines=True):
    """every cell of a point inside b is inside r, and r lies on the grid"""
    out = []
    for d in range(D):
        x = it.ctx.fresh("x%d" % d, R); l, h = lo(b)[d], hi(b)[d]
        if lines: out.append(("dimension %d: the bounds lie on the grid" % d, And(A(lo(r)[d]), A(hi(r)[d]), lo(r)[d] <= hi(r)[d])))
        out.append(("dimension %d: the cell of every point inside the given bounds is inside" % d, Implies(And(l <= x, x <= h), And(lo(r)[d] <= at(x), at(x) + cs <= hi(r)[d]))))
    return out
class RoundC(Contract):
    """bounds on the grid that contain the cell of every point inside the given bounds"""
    modifies = staticmethod(lambda it, this, f: []); modifies_args = ()
    def __init__(self, con): self.con = con
    def apply(self, it, this, vals, f, n=None):
        K = self.con; b = it.read(vals[0]); it.ctx.oblige("precondition of round: the cell width", it.read(vals[1]) == cs, "pre", n)
        r = it.fresh_val(Type("rec", "dBox", (K.D, DOUBLE)), "rounded")
        for d in range(K.D):
            x = z3.Real("x"); l, h = lo(b)[d], hi(b)[d]
            it.ctx.assume(And(A(lo(r)[d]), A(hi(r)[d]), lo(r)[d] <= hi(r)[d])); it.ctx.assume(z3.ForAll([x], Implies(And(l <= x, x <= h), And(lo(r)[d] <= at(x), at(x) + cs <= hi(r)[d]))))
        return r
def shapes(D): return [(-1, "leaf")] + [(k, "leaf") for k in range(2**D + 1)] + [(2**D, "quad")]
CONTRACTS = [BoxC(D, x) for D in (2, 3) for x in ('contains', 'operator==')] + [Node(D, f) for D in (2, 3) for f in ("ctor", "split", "intersects")] + [Node(D, "insert", s) for D in (3, 2) for s in reversed(shapes(D))] + [Whole(D, f) for D in (2, 3) for f in ("ctor", "round", "insert", "intersects")]
