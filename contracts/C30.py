from vf.spec import *
from vf import streams
TUS = ["logger"]
DRIVER = "C30.cpp"; DRIVER_SRCS = ["src/utils/Logger.cpp"]; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["texts of numbers are uninterpreted (the stream's default format)", "calls of one thread: the indentation is that thread's, entries are not added concurrently"]
S = z3.StringSort(); sv = z3.StringVal
def fnl(name, nparams=None, pred=None): return staticmethod(fn_named(name, cls="Logger", nparams=nparams, pred=pred))
# ---- text of the first n entries at or below a level; n tabs; the joined elements: recursive definitions, unfolded where needed
DEPTH = z3.Const("indentLevel", z3.BitVecSort(32))
tabs = z3.Function("tabs", IDX, S)
def tabs_def(n): return And(tabs(bv(0)) == sv(""), tabs(n + 1) == z3.Concat(tabs(n), sv("\t")))
def entries(o): return o.f["logEntries"]
def level(o, i): return entries(o).get(i).f["first"]
def stream(o, i): return entries(o).get(i).f["second"].get(idx(0)).f["buf"]
def nonnull(o, i):
    p = entries(o).get(i).f["second"]; return And(Not(p.null), p.size == 1)
def cls_inv(o): return And(ULT(entries(o).size, bv(1 << 48)), forall(1, lambda i: Implies(ULT(i, entries(o).size), nonnull(o, i))))
SILENT, LIVE = 0, -1
class Log(Contract):
    tu = "logger"; feas_ms = 300
    modifies = staticmethod(lambda it, this, f: [])
    def __init__(self):
        self.abstract = {n: lambda it, t, name: streams.new(it, t, it.ctx.fresh(name, S)) for n in streams.NAMES}
        self.globals = {"indentLevel": lambda it: DEPTH, "cout": lambda it: streams.new(it, Type("rec", "std::basic_ostream", ()), z3.Const("cout", S))}
    def rec(self, it):
        o = this_obj(it, "Logger", (), "log"); it.ctx.assume(cls_inv(it.read(o))); return o
    def state(self, it, fn):
        o = self.rec(it); a = fresh_args(it, fn)
        return State(this=o, args=a, o0=copy_val(it.read(o)), a0=[it.read(x) for x in a])
    def setup(self, it, fn): return self.state(it, fn)
    def same(self, o, p, upto=None):
        n = entries(p).size if upto is None else upto
        return forall(1, lambda i: Implies(ULT(i, n), And(level(o, i) == level(p, i), stream(o, i) == stream(p, i), nonnull(o, i))))
    def frame(self, it, St, live=False):
        o, p = it.read(St.this), St.o0
        return [("the number of entries is unchanged", entries(o).size == entries(p).size), ("the entries are unchanged", self.same(o, p)), ("the level of the log is unchanged", o.f["logLevel"] == p.f["logLevel"])]
class PrintLog(Log):
    name = "Logger::printLog(out, level)"; find = fnl("printLog", 2)
    def __init__(self): Log.__init__(self); self.loops = {("printLog", 0): self.loop}; self.shown = z3.Function("shown", IDX, S)
    modifies_args = (0,)
    def setup(self, it, fn):
        St = self.state(it, fn); self.St = St; St.lvl = St.a0[1]; St.before = St.a0[0].f["buf"]; return St
    def unfold(self, o, lvl, i): return And(self.shown(bv(0)) == sv(""), self.shown(i + 1) == z3.Concat(self.shown(i), If(level(o, i) <= lvl, stream(o, i), sv(""))))
    def loop(self, it, n):
        def inv(L):
            i = L.pos(); St = self.St; it.ctx.assume(self.unfold(St.o0, St.lvl, i))
            return [("position", ULE(i, entries(St.o0).size)), ("the entries at or below the level so far, in order", L.var("out").f["buf"] == z3.Concat(St.before, self.shown(i)))]
        return LoopSpec("entries", inv, variant=lambda L: entries(self.St.o0).size - L.pos())
    def post(self, it, St, r):
        t = it.read(St.args[0]).f["buf"]; it.ctx.assume(self.unfold(St.o0, St.lvl, bv(0)))
        return [("silent: nothing is printed", Implies(St.lvl == SILENT, t == St.before)),
                ("otherwise: the entries at or below the level, in the order they were created", Implies(St.lvl != SILENT, t == z3.Concat(St.before, self.shown(entries(St.o0).size)))),
                ("the stream that was given is returned", same_loc(it, r, St.args[0]))] + self.frame(it, St)
class PrintAll(PrintLog):
    name = "Logger::printLog(out)"; find = fnl("printLog", 1)
    def setup(self, it, fn):
        St = self.state(it, fn); self.St = St; St.lvl = St.o0.f["logLevel"]; St.before = St.a0[0].f["buf"]; return St
class Shift(PrintLog):
    name = "operator<<(stream, log)"; find = staticmethod(fn_named("operator<<", pred=lambda ast, f: "Logger" in f["type"]["qualType"]))
    def __init__(self): PrintLog.__init__(self)
    def setup(self, it, fn):
        a = fresh_args(it, fn); o = a[1]; it.ctx.assume(cls_inv(it.read(o)))
        St = State(this=None, args=a, o0=copy_val(it.read(o)), a0=[it.read(x) for x in a]); self.St = St; St.lvl = St.o0.f["logLevel"]; St.before = St.a0[0].f["buf"]; return St
    def frame(self, it, St): return []
class Indent(Log):
    name = "Logger::indent"; find = fnl("indent")
    def __init__(self): Log.__init__(self); self.loops = {("indent", 0): self.loop}
    def loop(self, it, n):
        def inv(L):
            i = z64(L.var("i")); it.ctx.assume(tabs_def(i))
            return [("position", ULE(L.var("i"), DEPTH)), ("a tab per level so far", L.var("ss").f["buf"] == tabs(i))]
        return LoopSpec("levels", inv, variant=lambda L: z64(DEPTH - L.var("i")))
    def post(self, it, St, r): return [("a tab per level of indentation", it.val(r) == tabs(z64(DEPTH)))] + self.frame(it, St)
    def apply(self, it, this, vals, f, n=None): return tabs(z64(DEPTH))
INDENT = [(fn_named("indent", cls="Logger").all, Indent())]
class AddEntry(Log):
    name = "Logger::addLogEntry"; find = fnl("addLogEntry"); calls = INDENT
    def entry(self, it, St, o, p, lvl, text, cout, cout0):
        n = entries(p).size; live = p.f["logLevel"] <= LIVE
        return [("live level: the text goes to the standard output", Implies(live, And(entries(o).size == n, cout == z3.Concat(cout0, text)))),
                ("otherwise one entry is added at the end", Implies(Not(live), And(entries(o).size == n + 1, nonnull(o, n)))),
                ("of the given level", Implies(Not(live), level(o, n) == lvl)),
                ("holding exactly the text", Implies(Not(live), stream(o, n) == text)), ("and the standard output is unchanged", Implies(Not(live), cout == cout0)),
                ("the entries before are unchanged", self.same(o, p)), ("the level of the log is unchanged", o.f["logLevel"] == p.f["logLevel"])]
    def cout(self, it):
        for k, g in it.globals.items():
            if g.c.name == "cout": return it.read(g).f["buf"]
        return z3.Const("cout", S)
    def post(self, it, St, r):
        o, p = it.read(St.this), St.o0; t = it.read(r).f["buf"]; live = p.f["logLevel"] <= LIVE
        out = self.entry(it, St, o, p, St.a0[0], tabs(z64(DEPTH)), self.cout(it), z3.Const("cout", S))
        if r.c.name == "cout": return out + [("the standard output is returned only at a live level", live)]
        return out + [("the stream of the new entry is returned", same_loc(it, r, St.this.sub(("f", "logEntries"), ("i", entries(p).size), ("f", "second"), ("i", idx(0)))))]
class Instance:
    """the log is a singleton: the object the member function is called on is the only one"""
    def __init__(self, con): self.con = con
    def apply(self, it, this, vals, f, n=None): it.ctx.runner.note("singleton: Logger::getInstance() is the log the member functions are called on (private constructor)"); return self.con.St.this
class LogContainer(AddEntry):
    name = "Logger::logContainer"
    find = fnl("logContainer", 4, lambda ast, f: "vector" in f["type"]["qualType"].split("(")[1].split(",")[0])
    def __init__(self):
        Log.__init__(self); self.calls = INDENT + [(fn_named("getInstance", cls="Logger").all, Instance(self))]; self.loops = {("logContainer", 0): self.loop}; self.joined = z3.Function("joined", IDX, S)
    def setup(self, it, fn):
        St = self.state(it, fn); self.St = St; it.ctx.assume(ULT(St.a0[0].size, bv(1 << 48))); return St
    def unfold(self, i):
        v, sep = self.St.a0[0], self.St.a0[3]; x = streams.txt("u64", z3.BitVecSort(64))(v.arrs[0][i])
        return And(self.joined(bv(0)) == sv(""), self.joined(i + 1) == z3.Concat(self.joined(i), If(i == 0, sv(""), sep), x))
    def head(self): pre, sep = self.St.a0[2], self.St.a0[3]; return z3.Concat(tabs(z64(DEPTH)), If(pre == sv(""), sv(""), z3.Concat(pre, sep)))
    def loop(self, it, n):
        St = self.St
        def inv(L):
            i = it.ptr_idx(L.var("it")); it.ctx.assume(self.unfold(i))
            o = it.read(St.this); t = L.var("stream").f["buf"]; live = St.o0.f["logLevel"] <= LIVE
            return [("position", ULE(i, St.a0[0].size))] + self.entry(it, St, o, St.o0, St.a0[1], z3.Concat(self.head(), self.joined(i)), self.cout(it), z3.Const("cout", S))
        return LoopSpec("elements", inv, variant=lambda L: St.a0[0].size - it.ptr_idx(L.var("it")))
    def post(self, it, St, r):
        o, p = it.read(St.this), St.o0; l = p.f["logLevel"]; a = If(l < 0, -l, l); shown = a >= St.a0[1]; it.ctx.assume(self.unfold(bv(0)))
        out = self.entry(it, St, o, p, St.a0[1], z3.Concat(self.head(), self.joined(St.a0[0].size), sv("\n")), self.cout(it), z3.Const("cout", S))
        return [("logged: " + x, Implies(shown, g)) for x, g in out] + [("not logged: " + x, Implies(Not(shown), g)) for x, g in self.frame(it, St)] + [("not logged: the standard output is unchanged", Implies(Not(shown), self.cout(it) == z3.Const("cout", S)))]
class Depth(Log):
    def __init__(self, fname): Log.__init__(self); self.fname = fname; self.name = "Logger::" + fname; self.find = fn_named(fname, cls="Logger")
    def setup(self, it, fn):
        St = self.state(it, fn)
        if self.fname == "decIndent": it.ctx.assume(DEPTH != 0)
        return St
    def post(self, it, St, r):
        d = [it.read(g) for k, g in it.globals.items() if g.c.name == "indentLevel"]; d = d[0] if d else DEPTH
        want = {"incIndent": DEPTH + 1, "decIndent": DEPTH - 1, "getIndent": DEPTH, "setIndent": St.a0[0] if St.a0 else None}[self.fname]
        out = [("the depth of indentation", d == want)] + self.frame(it, St)
        if self.fname == "getIndent": out.append(("returned", it.val(r) == want))
        return out
class Level(Log):
    def __init__(self, fname): Log.__init__(self); self.fname = fname; self.name = "Logger::" + fname; self.find = fn_named(fname, cls="Logger")
    def post(self, it, St, r):
        o = it.read(St.this); f = self.frame(it, St)
        if self.fname == "setLogLevel": return f[:2] + [("the level is set", o.f["logLevel"] == St.a0[0])]
        return f + [("the level is returned", it.val(r) == o.f["logLevel"])]
CONTRACTS = [PrintLog(), PrintAll(), Shift(), Indent(), AddEntry(), LogContainer()] + [Depth(f) for f in ("incIndent", "decIndent", "setIndent", "getIndent")] + [Level(f) for f in ("setLogLevel", "getLogLevel")]
