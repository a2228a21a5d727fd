"""Lemmas proved once per check by induction, and used by contracts as instances."""
import z3, itertools
from .ast import Unsupported
from .values import IDX, idx
from .runner import Contract

class Lemma(Contract):
    """a list of (label, goal) proved outright; universally quantified variables are free constants of the goal"""
    tu = None
    def __init__(self, name, goals): self.name = "lemma: " + name; self.goals = goals
    def find(self, ast): return None
    def execute(self, it, fn):
        it.ctx.runner.cover(it, "lemma context is satisfiable")
        for lab, hyps, g in self.goals():
            n = len(it.ctx.pc)
            for h in hyps: it.ctx.assume(h)
            it.ctx.oblige(lab, g, "lemma", assume=False)
            del it.ctx.pc[n:]

class ArraySum:
    """S(a, n) = f(a[0]) + ... + f(a[n-1]) as a 64-bit sum; f maps an element to a 64-bit word"""
    def __init__(self, name, esort, f):
        self.name, self.f, self.A = name, f, z3.ArraySort(IDX, esort); self.esort = esort
        self.S = z3.Function(name, self.A, IDX, IDX)
    def zero(self, a): return self.S(a, idx(0)) == idx(0)
    def step(self, a, n):
        """defining equation (n is not the largest word)"""
        return z3.Implies(n != idx(-1), self.S(a, n + 1) == self.S(a, n) + self.f(z3.Select(a, n)))
    # lemma statements
    def upd(self, a, i, v, n):
        """changing one element"""
        return self.S(z3.Store(a, i, v), n) == z3.If(z3.ULT(i, n), self.S(a, n) - self.f(z3.Select(a, i)) + self.f(v), self.S(a, n))
    def cong(self, a, b, n):
        k = z3.Const("k?c%s" % self.name, IDX)
        return z3.Implies(z3.ForAll([k], z3.Implies(z3.ULT(k, n), z3.Select(a, k) == z3.Select(b, k))), self.S(a, n) == self.S(b, n))
    def zeros(self, a, n):
        """all elements contribute nothing"""
        k = z3.Const("k?z%s" % self.name, IDX)
        return z3.Implies(z3.ForAll([k], z3.Implies(z3.ULT(k, n), self.f(z3.Select(a, k)) == idx(0))), self.S(a, n) == idx(0))
    # for sums of 0/1 contributions
    def bound(self, a, n): return z3.ULE(self.S(a, n), n)
    def mono(self, a, i, n): return z3.Implies(z3.And(z3.ULE(i, n), z3.ULE(n, idx(1 << 62))), z3.ULE(self.S(a, i), self.S(a, n)))
    def witness(self, a, n, z):
        """z is a free constant: some element contributes nothing unless all contribute one"""
        return z3.Or(self.S(a, n) == n, z3.And(z3.ULT(z, n), self.f(z3.Select(a, z)) == idx(0)))
    indicator = False
    def lemmas(self, tu):
        def goals():
            a, b = z3.Const("a", self.A), z3.Const("b", self.A); i, n = z3.Const("i", IDX), z3.Const("n", IDX); v = z3.Const("v", self.esort)
            st = z3.Store(a, i, v); lim = n != idx(-1)
            D = lambda *xs: [self.step(x, n) for x in xs] + [self.zero(x) for x in xs]
            yield "one changed element: empty sum", D(a, st) + [n == idx(0)], self.upd(a, i, v, n)
            yield "one changed element: next element", D(a, st) + [lim, self.upd(a, i, v, n)], self.upd(a, i, v, n + 1)
            k = z3.Const("k?", IDX); eq = lambda m: z3.ForAll([k], z3.Implies(z3.ULT(k, m), z3.Select(a, k) == z3.Select(b, k)))
            yield "equal elements: empty sum", D(a, b) + [n == idx(0)], self.cong(a, b, n)
            yield "equal elements: next element", D(a, b) + [lim, self.cong(a, b, n)], self.cong(a, b, n + 1)
            yield "no contribution: empty sum", D(a) + [n == idx(0)], self.zeros(a, n)
            yield "no contribution: next element", D(a) + [lim, self.zeros(a, n)], self.zeros(a, n + 1)
            if self.indicator:
                x = z3.Const("x", self.esort)
                yield "contributions are 0 or 1", [], z3.ULE(self.f(x), idx(1))
                yield "at most the length: empty sum", D(a) + [n == idx(0)], self.bound(a, n)
                yield "at most the length: next element", D(a) + [lim, self.bound(a, n), z3.ULE(self.f(z3.Select(a, n)), idx(1))], self.bound(a, n + 1)
                yield "monotone: empty sum", D(a) + [n == idx(0)], self.mono(a, i, n)
                yield "monotone: next element", D(a) + [lim, self.mono(a, i, n), self.bound(a, n), z3.ULE(self.f(z3.Select(a, n)), idx(1))], self.mono(a, i, n + 1)
                full = lambda m: z3.Implies(z3.ForAll([k], z3.Implies(z3.ULT(k, m), self.f(z3.Select(a, k)) != idx(0))), self.S(a, m) == m)
                yield "all elements contribute: empty sum", D(a) + [n == idx(0)], full(n)
                yield "all elements contribute: next element", D(a) + [lim, full(n), z3.ULE(self.f(z3.Select(a, n)), idx(1))], full(n + 1)
        L = Lemma("finite sums (%s), by induction on the length" % self.name, goals)
        L.tu = tu; return L
