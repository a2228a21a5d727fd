"""Shared parts of the run-record contracts (C21-C23)."""
from vf.spec import *
from vf import maps
Str = z3.StringSort()
def sv(s): return z3.StringVal(s)
def literals(n):
    if n.get("kind") == "StringLiteral": return [n["value"]]
    return [x for c in n.get("inner", []) for x in literals(c)]
def ignored_names(ast):
    """the strings of the initialiser of ExperimentRun::c_ignored_fields in the real source"""
    import json
    ds = [d for d in ast.nodes.values() if d.get("kind") == "VarDecl" and d.get("name") == "c_ignored_fields" and d.get("inner")]
    out = [[json.loads(x) for x in literals(d)] for d in ds]
    out = [x for x in out if x]
    if len(out) != 1: raise ExtractError("initialiser of c_ignored_fields")
    return out[0]
EXPECTED = ["git-rev", "start-time", "end-time", "run-number", "host"]
def ign(k): return Or(*[k == sv(x) for x in EXPECTED])
def ignored_var(it):
    """the static vector, as its initialiser in the source builds it (nothing in the program changes it)"""
    v = it.fresh_dyn(Type("rec", "std::string", ()), "c_ignored_fields", "vec"); names = ignored_names(it.ast)
    for i, x in enumerate(names): v.put(idx(i), sv(x))
    v.size = idx(len(names)); return v
def has(o): return o.f["$has"]
def val(o, k): return z3.Select(o.f["$val"].arrs[0], k)
class Run(Contract):
    tu = "timings"; feas_ms = 300
    def __init__(self):
        self.abstract = dict(maps.ABSTRACT); self.default_objs = dict(maps.DEFAULT)
        self.constructors = {k: (lambda it, t, args, n: maps.empty(it, t) if not args else copy_val(it.rv(args[0]))) for k in maps.NAMES}
        self.globals = {"c_ignored_fields": ignored_var, "GIT_COMMIT": lambda it: z3.Const("git_commit", Str)}
        self.free = {"getHostname": lambda it, args, n: z3.Const("hostname", Str)}
    def rec(self, it, name="run"): return this_obj(it, "ExperimentRun", (), name)
    def traits(self, it, o): return it.read(o).f["m_traits"]
