"""Exact decision of identities of rational functions over the reals: both sides are expanded to quotients of
polynomials with rational coefficients (sympy's sparse polynomials) and cross-multiplied.  Used as a proof back end
("ring") for polynomial identities, which nonlinear SMT does not decide within its budget."""
import z3
from fractions import Fraction
from sympy.polys.rings import ring
from sympy import QQ

class NotRational(Exception): pass
class Space:
    """one polynomial ring, its generators are the real constants that occur"""
    def __init__(self, terms):
        names = {}
        seen = set(); st = list(terms)
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_select(t) or t.decl().kind() == z3.Z3_OP_ITE: names[t.get_id()] = t
            else: st.extend(t.children())
        self.vars = list(names.values())
        if self.vars:
            r = ring(["v%d" % i for i in range(len(self.vars))], QQ); self.R, gens = r[0], r[1:]
        else: self.R, gens = ring(["v0"], QQ)[0], ()
        self.of = {v.get_id(): g for v, g in zip(self.vars, gens)}
        self.memo = {}; self.divisors = []
    def rf(self, t):
        k = t.get_id()
        if k not in self.memo: self.memo[k] = self._rf(t)
        return self.memo[k]
    def _rf(self, t):
        R = self.R
        if t.get_id() in self.of: return (self.of[t.get_id()], R.one)
        if z3.is_rational_value(t): return (R(QQ(t.numerator_as_long(), t.denominator_as_long())), R.one)
        if z3.is_add(t):
            a = self.rf(t.children()[0])
            for c in t.children()[1:]: a = self.add(a, self.rf(c))
            return a
        if z3.is_sub(t):
            a = self.rf(t.children()[0])
            for c in t.children()[1:]: b = self.rf(c); a = self.add(a, (-b[0], b[1]))
            return a
        if t.decl().kind() == z3.Z3_OP_UMINUS: a = self.rf(t.children()[0]); return (-a[0], a[1])
        if z3.is_mul(t):
            a = self.rf(t.children()[0])
            for c in t.children()[1:]: b = self.rf(c); a = (a[0] * b[0], a[1] * b[1])
            return a
        if z3.is_div(t):
            a, b = self.rf(t.children()[0]), self.rf(t.children()[1])
            if b[0] == 0: raise NotRational("division by zero")
            self.divisors.append(b[0])
            return (a[0] * b[1], a[1] * b[0])
        if t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.children()[1]):
            e = t.children()[1]
            if e.denominator_as_long() == 1 and 0 <= e.numerator_as_long() <= 64: a = self.rf(t.children()[0]); return (a[0] ** e.numerator_as_long(), a[1] ** e.numerator_as_long())
        raise NotRational(str(t.decl()))
    def add(self, a, b):
        if a[1] == b[1]: return (a[0] + b[0], a[1])
        if a[1] == 1: return (a[0] * b[1] + b[0], b[1])
        if b[1] == 1: return (a[0] + b[0] * a[1], a[1])
        return (a[0] * b[1] + b[0] * a[1], a[1] * b[1])
    def nonzero(self, p, known):
        """p is a rational multiple of a product of polynomials known not to vanish"""
        if p == 0: return False
        for _ in range(12):
            if p.is_ground: return True
            for k in known:
                q, r = divmod(p, k) if not k.is_ground else (p, 1)
                if r == 0: p = q; break
            else: return False
        return p.is_ground

def _setup(terms, known):
    S = Space(list(terms) + list(known)); K = []
    for k in known:
        n, d = S.rf(k); K.append(n)
    return S, K
def identical(a, b, known=()):
    """a == b wherever the terms in known do not vanish (and every divisor occurring is then non-zero)"""
    try:
        S, K = _setup([a, b], known); x, y = S.rf(a), S.rf(b)
        return x[0] * y[1] == y[0] * x[1] and all(S.nonzero(d, K) for d in S.divisors)
    except NotRational: return False
def vanishes_never(a, known):
    try:
        S, K = _setup([a], known); n, d = S.rf(a)
        return S.nonzero(n, K) and all(S.nonzero(x, K) for x in S.divisors)
    except NotRational: return False
def multiple(a, b, known=()):
    """the rational c with a == c*b, or None"""
    try:
        S, K = _setup([a, b], known); x, y = S.rf(a), S.rf(b)
        if not all(S.nonzero(d, K) for d in S.divisors): return None
        p, q = x[0] * y[1], y[0] * x[1]
        if p == 0 or q == 0: return Fraction(0) if p == 0 else None
        c = p.LC / q.LC
        return Fraction(int(c.numerator), int(c.denominator)) if p == q * c else None
    except NotRational: return None
def factor_of(a, b, known=()):
    """sign s (+1/-1) with a == s * (non-zero square) * b: a has the sign of s*b; None if not found"""
    c = multiple(a, b, known)
    if c: return 1 if c > 0 else -1
    return None

def sum_of_squares(t):
    if z3.is_add(t): return all(sum_of_squares(c) for c in t.children())
    if z3.is_mul(t):
        c = []; n = {}; st = list(t.children())
        while st:
            x = st.pop()
            if z3.is_mul(x): st.extend(x.children())
            else: c.append(x)
        for x in c:
            if z3.is_rational_value(x):
                if x.numerator_as_long() < 0: return False
            else: n[x.get_id()] = n.get(x.get_id(), 0) + 1
        return all(v % 2 == 0 for v in n.values())
    if z3.is_rational_value(t): return t.numerator_as_long() >= 0
    return False

def atoms(ts):
    """real comparison atoms occurring in the formulas"""
    out = {}; seen = set(); st = list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        k = t.decl().kind() if z3.is_app(t) else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or k == z3.Z3_OP_EQ and t.children()[0].sort().kind() == z3.Z3_REAL_SORT: out[t.get_id()] = t
        elif z3.is_quantifier(t): continue
        else: st.extend(t.children())
    return list(out.values())
_OPS = {z3.Z3_OP_LE: lambda x: x <= 0, z3.Z3_OP_LT: lambda x: x < 0, z3.Z3_OP_GE: lambda x: x >= 0, z3.Z3_OP_GT: lambda x: x > 0, z3.Z3_OP_EQ: lambda x: x == 0}
def abstraction(ts, names, known=()):
    """names: [(term, fresh real)]; returns [(atom, same atom over the fresh reals)] for every comparison whose
    difference is a rational multiple of one of the terms"""
    out = []
    for a in atoms(ts):
        d = a.children()[0] - a.children()[1]
        for t, x in names:
            c = multiple(d, t, known)
            if c is not None and c != 0:
                out.append((a, _OPS[a.decl().kind()](z3.RealVal(str(c)) * x))); break
    return out
