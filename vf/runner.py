"""Verification-condition generation per contract and discharge by a solver portfolio."""
import z3, time, os, traceback, multiprocessing as mp, re
from .ast import *
from .values import *
from .interp import *
from .models import Models

class Contract:
    """Contract of one function of /repo.
    find(ast) -> definition node; setup(it, fn) -> state object with .this (LVal or None) and .args (LVals), after
    assuming the precondition; post(it, S, ret) -> [(label, goal)]; throws(it, S, exc) -> [(label, goal)] or None (no exception allowed);
    loops: {(function name, loop ordinal): callable(it, loopnode) -> LoopSpec}; calls: [(finder, object with apply())]."""
    name = "?"; floats = False; unroll = 80; symN = None; check_overflow = True; dups = True
    loops = {}; calls = (); free = {}; methods = {}; constructors = {}; default_objs = {}; globals = {}
    abstract = {}     # class name -> function(it, t, name): the value of an object of that class with ghost fields
    props = ()
    feas_ms = 800
    def find(self, ast): raise NotImplementedError
    def setup(self, it, fn): raise NotImplementedError
    def post(self, it, S, ret): return []
    def throws(self, it, S, exc): return None
    def execute(self, it, fn):
        S = self.setup(it, fn)
        it.ctx.runner.cover(it, "precondition is satisfiable")
        try:
            if fn["kind"] == "CXXConstructorDecl":
                cls = it.ast.parent.get(fn["id"])
                while cls is not None and cls["kind"] not in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"): cls = it.ast.parent.get(cls["id"])
                if cls is None:
                    from .spec import owner
                    cls = owner(it.ast, fn)
                ret = None; it.exec_ctor(fn, cls, S.this, S.args)
            else: ret = it.exec_fn(fn, S.this, S.args)
        except ThrowEx as e:
            gs = self.throws(it, S, e)
            if gs is None: it.ctx.oblige("no exception is thrown (%r)" % (e.t,), z3.BoolVal(False), "post", e.node)
            else:
                it.ctx.runner.cover(it, "a throwing path is feasible")
                for lab, g in gs: it.ctx.oblige(lab, g, "post", assume=False)
            return
        it.ctx.runner.cover(it, "a returning path is feasible")
        for lab, g in self.post(it, S, ret): it.ctx.oblige(lab, g, "post", fn, assume=False)

class State:
    def __init__(self, **k): self.__dict__.update(k)

class Runner:
    def __init__(self, con, ast, calls=None):
        self.con = con; self.ast = ast
        self.cname = con.name
        self.work = [[]]; self.obls = []; self.trivial = 0; self.feas_ms = con.feas_ms; self.feas_calls = 0
        self.unroll = con.unroll; self.rename = {}; self.notes = set(); self.covers = []
        self.free = con.free; self.methods = con.methods; self.constructors = con.constructors
        self.default_objs = con.default_objs; self.globals = con.globals
        self.paths = 0; self.deadline = None; self.fns = set()
    def schedule(self, d): self.work.append(list(d))
    def add_obl(self, o):
        self.obls.append(o)
    def mark(self): return len(self.obls)
    def rollback(self, m): del self.obls[m:]
    def note(self, s): self.notes.add(s)
    def cover(self, it, label):
        if it.ctx.live: self.covers.append((label, list(it.ctx.pc)))
    def run(self):
        con = self.con
        fn = con.find(self.ast)
        self.fn = fn
        table = {}
        for finder, c in con.calls:
            for f in finder(self.ast): table[f["id"]] = c
        while self.work:
            d = self.work.pop()
            self.paths += 1
            if self.paths > 20000: raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline: raise Unsupported("time limit of symbolic execution")
            ctx = Ctx(d, self)
            it = Interp(self.ast, ctx, Models(self), table)
            it.entry_fn = fn
            it.symN = dict(con.symN(it) if callable(con.symN) else {})
            it.check_overflow = con.check_overflow
            it.loopspec = lambda n, fr: self.find_loop(it, n, fr)
            self.it = it
            try: con.execute(it, fn)
            except PathEnd: pass
        return self
    def find_loop(self, it, n, fr):
        f = fr.get("fn")
        if f is None or not self.con.loops: return None
        key = (f.get("name"), self.loop_no(f, n))
        s = self.con.loops.get(key)
        if s is None:
            s = self.con.loops.get((f.get("name"), "*"))
        if s is None: return None
        return s(it, n)
    def loop_no(self, f, n):
        c = f.setdefault("_loops", None)
        if c is None:
            c = []
            def w(x):
                if not isinstance(x, dict): return
                if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"): c.append(x)
                if x.get("kind") == "LambdaExpr": return
                for y in x.get("inner", []): w(y)
            w(AST.body(f))
            f["_loops"] = c
        for i, x in enumerate(c):
            if x is n: return i
        return None

def to_smt(hyps, goal, extra=()):
    s = z3.Solver()
    for h in hyps: s.add(h)
    for h in extra: s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()

# ------------------------------------------------------------------ discharge
def _z3_try(smt, ms, opts=None, tactic=None, want_model=False):
    ctx = z3.Context()
    if tactic: s = z3.Tactic(tactic, ctx=ctx).solver() if isinstance(tactic, str) else z3.Then(*[z3.Tactic(t, ctx=ctx) for t in tactic], ctx=ctx).solver()
    else: s = z3.Solver(ctx=ctx)
    s.set("timeout", ms)
    for k, v in (opts or {}).items(): s.set(k, v)
    s.from_string(smt)
    r = s.check()
    m = None
    if r == z3.sat:
        try:
            mm = s.model(); m = {}
            for d in mm.decls()[:400]:
                if d.arity() == 0: m[d.name()] = str(mm[d])[:300]
        except z3.Z3Exception: m = {}
    return str(r), m

def _cvc5_try(smt, ms, opts=None):
    import cvc5
    s = cvc5.Solver()
    s.setOption("tlimit-per", str(ms))
    for k, v in (opts or {}).items(): s.setOption(k, v)
    if "forall" in smt: s.setOption("full-saturate-quant", "true")
    if "(as const" in smt: s.setOption("arrays-exp", "true")
    s.setLogic("ALL")
    p = cvc5.InputParser(s)
    smt2 = re.sub(r"\(check-sat\)", "", smt)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "o.smt2")
    sm = p.getSymbolManager()
    while True:
        c = p.nextCommand()
        if c.isNull(): break
        c.invoke(s, sm)
    r = s.checkSat()
    return "unsat" if r.isUnsat() else "sat" if r.isSat() else "unknown"

DEADLINE = mp.get_context("fork").Value("d", 0.0)      # wall-clock end of the discharge phase, 0 = none
def solve_one(job):
    smt, weak, budget = job
    t0 = time.time()
    if DEADLINE.value:
        if t0 > DEADLINE.value: return dict(result="unknown", backend=None, model=None, tries=["deadline"], time=0.0)
        budget = min(budget, max(3.0, DEADLINE.value - t0))
    if weak:
        # the same obligation without its quantified hypotheses (proves more than required)
        for be, ms in (("z3", 2500), ("cvc5", 4000)):
            try: r = _z3_try(weak, ms)[0] if be == "z3" else _cvc5_try(weak, ms)
            except Exception: continue
            if r == "unsat": return dict(result="unsat", backend=be, model=None, tries=[be + " without quantified hypotheses"], time=time.time() - t0)
            if r == "sat": break
    quant = "forall" in smt or "exists" in smt
    real = " Real" in smt
    out = dict(result="unknown", backend=None, model=None, tries=[])
    plan = [("z3", 3000, {}, None)]
    if real and not quant: plan += [("z3", 8000, {}, ("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat")), ("z3", 15000, {}, "qfnra-nlsat")]
    if re.search(r"bvu?(div|rem|mul)|bvs(div|rem)", smt): plan += [("cvc5", 5000, {"solve-bv-as-int": "sum"}, None)]
    if quant: plan += [("z3", 8000, {"smt.mbqi": False}, None)]
    plan += [("cvc5", 10000, None, None)]
    if not quant and not real: plan += [("z3", 20000, {}, ("simplify", "propagate-values", "solve-eqs", "bit-blast", "sat"))] if "Array" not in smt and "declare-fun" in smt and "String" not in smt else []
    plan += [("z3", 20000, {"random_seed": 7}, None), ("cvc5", 40000, None, None), ("z3", 60000, {"random_seed": 11}, None), ("z3", 60000, {"smt.mbqi": False, "random_seed": 3}, None)]
    for be, ms, opts, tac in plan:
        left = budget - (time.time() - t0)
        if left < 0.5: break
        ms = int(min(ms, left * 1000))
        try:
            if be == "z3": r, m = _z3_try(smt, ms, opts, tac)
            else: r, m = _cvc5_try(smt, ms, opts), None
        except Exception as e:
            out["tries"].append("%s: %s" % (be, str(e)[:100])); continue
        out["tries"].append("%s:%s" % (be, r))
        if r == "unsat":
            out.update(result="unsat", backend=be); break
        if r == "sat":
            if be == "cvc5" and quant: continue
            out.update(result="sat", backend=be, model=m); break
    out["time"] = time.time() - t0
    return out

def _gen_worker(arg):
    con, ast, limit = _G[arg]
    t0 = time.time()
    r = Runner(con, ast)
    r.deadline = t0 + limit
    res = dict(name=con.name, status="ok", obls=[], covers=[], notes=[], trivial=0, paths=0, where=None)
    try:
        r.run()
    except (Unsupported, ExtractError) as e:
        res["status"] = "unsupported"; res["error"] = "%s: %s" % (type(e).__name__, e)
    except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, RecursionError, ValueError, AssertionError, ReturnEx, BreakEx, ContinueEx) as e:
        res["status"] = "unsupported"; res["error"] = "engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    fn = getattr(r, "fn", None)
    if fn is not None:
        fl = fn.get("_file") or "?"
        if not fl.startswith(REPO + "/"):
            sc = fn.get("_scope", "").split("::")[-1]
            for g in sorted(ast.funcs, key=lambda g: g.get("_scope", "").split("::")[-1] != sc):
                if g.get("name") == fn.get("name") and (g.get("_file") or "").startswith(REPO + "/") and AST.params(g) and len(AST.params(g)) == len(AST.params(fn)) or g.get("name") == fn.get("name") and (g.get("_file") or "").startswith(REPO + "/"):
                    fl = g["_file"]; break
        res["where"] = "%s:%s" % (os.path.relpath(fl, REPO), fn.get("name"))
    seen = set()
    for o in r.obls:
        try: smt = to_smt(o.hyps, o.goal, o.hints)
        except z3.Z3Exception as e:
            res["status"] = "unsupported"; res["error"] = str(e); continue
        if smt in seen: continue
        seen.add(smt)
        qf = None
        if not has_quant(o.goal):
            hq = [h for h in o.hyps if not has_quant(h)]
            if len(hq) < len(o.hyps): qf = to_smt(hq, o.goal, [h for h in o.hints if not has_quant(h)])
        if getattr(o, "done", None):
            res["obls"].append(dict(name=o.name, kind=o.kind, line=o.line, smt=smt, qf=None, path="".join("T" if x else "F" for x in o.path), done=o.done)); continue
        res["obls"].append(dict(name=o.name, kind=o.kind, line=o.line, smt=smt, qf=qf, path="".join("T" if x else "F" for x in o.path)))
    cv = {}
    for lab, pc in r.covers: cv.setdefault(lab, []).append(pc)
    for lab, pcs in cv.items():
        for pc in pcs[:6]:
            res["covers"].append((lab, to_smt(pc, z3.BoolVal(False))))
    res["notes"] = sorted(r.notes); res["trivial"] = r.trivial; res["paths"] = r.paths; res["gen_s"] = time.time() - t0
    return res

_G = {}

def generate(contracts, ast_of, limit=300, procs=8):
    _G.clear()
    for i, c in enumerate(contracts): _G[i] = (c, ast_of(c), limit)
    if procs == 1 or len(contracts) == 1:
        return [_gen_worker(i) for i in range(len(contracts))]
    with mp.get_context("fork").Pool(min(procs, len(contracts)), maxtasksperchild=4) as p:
        return p.map(_gen_worker, range(len(contracts)), chunksize=1)

def _cover_one(smt):
    try: r, m = _z3_try(smt, 4000)
    except Exception as e: return "error"
    return r

def discharge(gens, budget=120, procs=8):
    jobs = []; where = []
    for g in gens:
        for o in g["obls"]:
            if o.get("done"): o.pop("qf", None); o.update(result="unsat", backend=o["done"], model=None, tries=["ring: identity of rational functions"], time=0.0); continue
            jobs.append((o["smt"], o.pop("qf", None), budget)); where.append(o)
    cjobs = []; cw = []
    for g in gens:
        for lab, smt in g["covers"]: cjobs.append(smt); cw.append((g, lab))
    with mp.get_context("fork").Pool(procs, maxtasksperchild=50) as p:
        ar = p.map_async(_cover_one, cjobs, chunksize=1)
        rs = p.map(solve_one, jobs, chunksize=1) if jobs else []
        cr = ar.get()
    for o, r in zip(where, rs): o.update(r)
    for g in gens: g["cover_res"] = {}
    for (g, lab), r in zip(cw, cr):
        g["cover_res"].setdefault(lab, []).append(r)
    return gens
