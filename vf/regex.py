"""ECMAScript regular-expression literal -> z3 regular expression (whole-string match)."""
import z3
from .ast import Unsupported
def ch(c): return z3.Re(z3.StringVal(c)) if ord(c) < 128 else z3.Re(z3.Unit(z3.CharVal(ord(c))))
def rng(a, b): return z3.Range(chr(a), chr(b)) if a < b else ch(chr(a))
ANY = lambda: z3.Union(rng(0, 9), rng(11, 12), rng(14, 255))
CLS = {"d": [(48, 57)], "w": [(48, 57), (65, 90), (95, 95), (97, 122)], "s": [(9, 13), (32, 32)]}
def neg(rs):
    out, p = [], 0
    for a, b in sorted(rs):
        if a > p: out.append((p, a - 1))
        p = max(p, b + 1)
    if p <= 255: out.append((p, 255))
    return out
def ranges(rs):
    rs = [rng(a, b) for a, b in rs]
    if not rs: return z3.Empty(z3.ReSort(z3.StringSort()))
    return rs[0] if len(rs) == 1 else z3.Union(*rs)
ESC = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "0": 0}
def to_z3(p):
    pos = 0
    def peek(): return p[pos] if pos < len(p) else ""
    def alt():
        nonlocal pos
        xs = [seq()]
        while peek() == "|": pos += 1; xs.append(seq())
        return xs[0] if len(xs) == 1 else z3.Union(*xs)
    def seq():
        xs = []
        while peek() not in ("", "|", ")"): xs.append(quant())
        if not xs: return z3.Re("")
        return xs[0] if len(xs) == 1 else z3.Concat(*xs)
    def quant():
        nonlocal pos
        if peek() in ("^", "$"): pos += 1; return z3.Re("")   # anchors: only at the ends of a whole match
        a = atom()
        while peek() and peek() in "*+?{":
            c = p[pos]; pos += 1
            if c == "*": a = z3.Star(a)
            elif c == "+": a = z3.Plus(a)
            elif c == "?": a = z3.Option(a)
            else:
                e = p.index("}", pos); b = p[pos:e].split(","); pos = e + 1
                if len(b) == 1: a = z3.Loop(a, int(b[0]), int(b[0]))
                elif b[1] == "": a = z3.Concat(z3.Loop(a, int(b[0]), int(b[0])), z3.Star(a)) if int(b[0]) else z3.Star(a)
                else: a = z3.Loop(a, int(b[0]), int(b[1]))
            if peek() == "?": pos += 1                        # lazy: same language
        return a
    def esc():
        nonlocal pos
        c = p[pos]; pos += 1
        if c in CLS: return CLS[c]
        if c in ("D", "W", "S"): return neg(CLS[c.lower()])
        if c in ESC: return [(ESC[c],) * 2]
        if c.isalnum(): raise Unsupported("regex escape \\" + c)
        return [(ord(c),) * 2]
    def atom():
        nonlocal pos
        c = p[pos]; pos += 1
        if c == "(":
            if p.startswith("?:", pos): pos += 2
            elif p.startswith("?", pos): raise Unsupported("regex look-around")
            a = alt()
            if peek() != ")": raise Unsupported("regex")
            pos += 1; return a
        if c == "[":
            ng = peek() == "^"
            if ng: pos += 1
            rs = []; first = True
            while True:
                if peek() == "": raise Unsupported("regex class")
                if peek() == "]": pos += 1; break
                first = False
                if p.startswith("[:", pos): 
                    e = p.index(":]", pos); nm = p[pos+2:e]; pos = e + 2
                    m = {"digit": [(48, 57)], "alpha": [(65, 90), (97, 122)], "alnum": [(48, 57), (65, 90), (97, 122)], "space": [(9, 13), (32, 32)]}.get(nm)
                    if m is None: raise Unsupported("regex class")
                    rs += m; continue
                x = p[pos]; pos += 1
                if x == "\\": xs = esc()
                else: xs = [(ord(x),) * 2]
                if peek() == "-" and pos + 1 < len(p) and p[pos+1] != "]" and len(xs) == 1 and xs[0][0] == xs[0][1]:
                    pos += 1; y = p[pos]; pos += 1
                    hi = esc()[0][0] if y == "\\" else ord(y)
                    if hi < xs[0][0]: raise Unsupported("regex range")
                    rs.append((xs[0][0], hi))
                else: rs += xs
            return ranges(neg(rs) if ng else rs)
        if c == ".": return ANY()
        if c == "\\": return ranges(esc())
        if c in "*+?{": raise Unsupported("regex")
        return ch(c)
    r = alt()
    if pos != len(p): raise Unsupported("regex")
    return r
