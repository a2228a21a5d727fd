from vf.spec import *
TUS = ["utils"]

class Sort(Contract):
    tu = "utils"
    def __init__(self, data):
        self.data = data
        self.name = "static_insertion_sort_with_data" if data else "static_insertion_sort"
        self.find = fn_named(self.name)
        self.loops = {(self.name, 0): self.outer, (self.name, 1): self.inner}
    def symN(self, it):
        self.N = it.ctx.fresh("N", IDX)
        return {"N": self.N}
    def setup(self, it, fn):
        ctx = it.ctx
        N = self.N
        ctx.assume(ULT(N, bv(65535)))          # what the static_assert of the function admits
        ps = [it.ast.type_of(p).a[0] for p in AST.params(fn)]
        args = []
        for p, nm in zip(ps, ("arr", "dat")):
            d = it.fresh_dyn(p.a[1][0], nm, "vec"); d.size = N
            args.append(LVal(Cell(d, nm)))
        self.key0, tag0 = it.read(args[0]).arrs
        ctx.assume(forall(1, lambda i: z3.Select(tag0, i) == i))       # ghost: original position
        if self.data: ctx.assume(forall(1, lambda i: z3.Select(it.read(args[1]).arrs[0], i) == i))
        return State(this=None, args=args)
    def keytag(self, L, it=None, S=None):
        if S is not None: a = it.read(S.args[0]); d = it.read(S.args[1]) if self.data else None
        else:
            a = L.var("arr"); d = L.var("dat") if self.data else None
        return a.arrs[0], a.arrs[1], d.arrs[0] if d else None
    def post(self, it, S, ret):
        N = self.N; key, tag, dat = self.keytag(None, it, S); key0 = self.key0
        out = [("sorted: adjacent elements are in non-decreasing order", forall(2, lambda i, j: Implies(And(ULT(i, j), ULT(j, N)), ULE(key[i], key[j])))),
               ("permutation: every element of the result is an original element with its own key", forall(1, lambda i: Implies(ULT(i, N), And(ULT(tag[i], N), key[i] == key0[tag[i]])))),
               ("permutation: no original element occurs twice", forall(2, lambda i, j: Implies(And(ULT(i, j), ULT(j, N)), tag[i] != tag[j])))]
        if self.data: out.append(("attached data moves with its key", forall(1, lambda i: Implies(ULT(i, N), dat[i] == tag[i]))))
        return out
    def outer(self, it, n):
        N = self.N; key0 = self.key0
        def inv(L):
            i = z64(L.var("i")); key, tag, dat = self.keytag(L)
            out = [("index range", And(ULE(bv(1), i), Or(ULE(i, N), i == 1))),
                   ("prefix sorted", forall(2, lambda a, b: Implies(And(ULT(a, b), ULT(b, i)), ULE(key[a], key[b])))),
                   ("keys stay with their tag", forall(1, lambda a: Implies(ULT(a, N), And(ULT(tag[a], N), key[a] == key0[tag[a]])))),
                   ("tags distinct", forall(2, lambda a, b: Implies(And(ULT(a, b), ULT(b, N)), tag[a] != tag[b])))]
            if self.data: out.append(("data follows", forall(1, lambda a: Implies(ULT(a, N), dat[a] == tag[a]))))
            return out
        return LoopSpec("outer loop", inv, variant=lambda L: If(ULT(z64(L.var("i")), N), N - z64(L.var("i")), bv(0)))
    def inner(self, it, n):
        N = self.N; key0 = self.key0
        def inv(L):
            i = z64(L.var("i")); h = z64(L.var("hole")); key, tag, dat = self.keytag(L)
            v = L.var("value"); vk, vt = v.f["key"], v.f["tag"]
            out = [("hole range", ULE(h, i)),
                   ("sorted around the hole", forall(2, lambda a, b: Implies(And(ULT(a, b), ULE(b, i), a != h, b != h), ULE(key[a], key[b])))),
                   ("shifted elements are larger", forall(1, lambda a: Implies(And(ULT(h, a), ULE(a, i)), ULE(vk, key[a])))),
                   ("keys stay with their tag", forall(1, lambda a: Implies(And(ULT(a, N), a != h), And(ULT(tag[a], N), key[a] == key0[tag[a]])))),
                   ("tags distinct", forall(2, lambda a, b: Implies(And(ULT(a, b), ULT(b, N), a != h, b != h), tag[a] != tag[b]))),
                   ("value is distinct from the rest", And(ULT(vt, N), vk == key0[vt], forall(1, lambda a: Implies(And(ULT(a, N), a != h), tag[a] != vt))))]
            if self.data: out += [("data follows", forall(1, lambda a: Implies(And(ULT(a, N), a != h), dat[a] == tag[a]))), ("data of the value", L.var("data").f["tag"] == vt)]
            return out
        return LoopSpec("inner loop", inv, variant=lambda L: z64(L.var("hole")))

DRIVER = "C02.cpp"
CONTRACTS = [Sort(False), Sort(True)]
