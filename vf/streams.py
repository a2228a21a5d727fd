"""Model of string streams: an output text, an input text with a read position, and the eof / fail flags."""
import z3
from .ast import *
from .values import *

NAMES = {"std::basic_istringstream", "std::basic_ostringstream", "std::basic_stringstream", "std::basic_ostream", "std::basic_istream", "std::basic_iostream", "std::istringstream", "std::ostringstream", "std::stringstream", "std::ostream", "std::istream"}
S = z3.StringSort()
_f = {}
def txt(tag, sort):
    """text of a number in the default format (uninterpreted)"""
    k = (tag, str(sort))
    if k not in _f: _f[k] = z3.Function("text_" + tag, sort, S)
    return _f[k]
def is_stream(v): return isinstance(v, RecV) and v.t.k == "rec" and v.t.a[0] in NAMES
def new(it, t, s=None, appends=True):
    if t.a[0] in ("std::basic_ostream", "std::ostream") and s is None: s = it.ctx.fresh("stream", S)
    return RecV(t, {"buf": s if s is not None else z3.StringVal(""), "pos": z3.IntVal(0), "eof": z3.BoolVal(False), "fail": z3.BoolVal(False)})
def chr_text(c): return z3.StrFromCode(z3.BV2Int(c))
def text(it, v, t):
    while t.k == "ref": t = t.a[0]
    if isinstance(v, FRatio): v = it.real(v)
    if isinstance(v, z3.SeqRef): return v
    if isinstance(v, OpaqueV) and "s" in v.d: return z3.StringVal(v.d["s"])
    if isinstance(v, z3.ExprRef):
        if z3.is_bool(v): return z3.If(v, z3.StringVal("1"), z3.StringVal("0"))
        if z3.is_bv(v):
            if v.size() == 8:
                return z3.StringVal(chr(v.as_long())) if z3.is_bv_value(v) else chr_text(v)
            return txt(("i" if t.is_int and t.signed else "u") + str(v.size()), v.sort())(v)
        if z3.is_arith(v): return txt("f%d" % (t.a[0] if t.k == "float" else 64), v.sort())(v)
    raise Unsupported("streamed value %s" % type(v).__name__)
def put(it, lv, s):
    v = it.read(lv)
    if not is_stream(v): raise Unsupported("stream")
    it.write(lv.sub(("f", "buf")), z3.Concat(v.f["buf"], s))
    return lv
def out(it, lv, arg, n):
    """lv << arg"""
    a = it.ev(arg); v = it.val(a) if isinstance(a, (LVal, RefV)) else a
    it.models.note("string stream output appends the text of the value (texts of numbers are uninterpreted)")
    if isinstance(v, FuncV) or type(v).__name__ == "FuncV":
        nm = v.decl.get("name")
        if nm == "endl": return put(it, lv, z3.StringVal("\n"))
        if nm in ("flush", "fixed", "scientific", "left", "right"): return lv
    return put(it, lv, text(it, v, it.ty(arg)))
def getline(it, lv, field, d):
    it.models.note("istringstream / getline behave as specified by the standard")
    v = it.read(lv); c = it.ctx
    if not c.branch(z3.And(z3.Not(v.f["eof"]), z3.Not(v.f["fail"]))):
        it.write(lv.sub(("f", "fail")), z3.BoolVal(True)); return lv
    s, p = v.f["buf"], v.f["pos"]
    i = z3.IndexOf(s, d, p)
    if c.branch(i >= 0):
        it.write(field, z3.SubString(s, p, i - p)); it.write(lv.sub(("f", "pos")), i + 1)
    else:
        rest = z3.SubString(s, p, z3.Length(s) - p)
        it.write(field, rest); it.write(lv.sub(("f", "pos")), z3.Length(s)); it.write(lv.sub(("f", "eof")), z3.BoolVal(True))
        it.write(lv.sub(("f", "fail")), z3.Length(s) == p)
    return lv
def method(it, this, name, args, n):
    v = it.read(this)
    if name == "eof": return v.f["eof"]
    if name == "fail": return v.f["fail"]
    if name == "good": return z3.Not(z3.Or(v.f["eof"], v.f["fail"]))
    if name == "operator bool": return z3.Not(v.f["fail"])
    if name == "str":
        if not args: return v.f["buf"]
        it.write(this.sub(("f", "buf")), it.rv(args[0])); it.write(this.sub(("f", "pos")), z3.IntVal(0)); return None
    if name == "clear": it.write(this.sub(("f", "eof")), z3.BoolVal(False)); it.write(this.sub(("f", "fail")), z3.BoolVal(False)); return None
    raise Unsupported("stream method " + name)
