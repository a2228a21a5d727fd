#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]   decides one property on /repo's current tree.

1. extracts the functions under contract from /repo (clang AST of the real sources),
2. generates and discharges the obligations of every contract of the property,
3. compiles the property's driver against /repo and runs it: a failed obligation is replayed there as a search
   for a concrete failing input of the real code; it is also the bounded stand-in where the extraction is out of reach.
Exit 0: held.  Exit 1 + VIOLATION line: broken."""
import sys, os, json, hashlib, time, importlib, subprocess, tempfile, shutil, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vf import ast as A
from vf import runner as R

def driver_flags(mod):
    return ["-w", "-std=c++17", "-O1", "-g", "-I" + A.VERIF + "/shim", "-I" + A.REPO + "/include", "-I" + A.REPO + "/include/utils", "-I" + A.VERIF + "/drivers"] + list(getattr(mod, "DRIVER_FLAGS", ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]))

class Driver(threading.Thread):
    def __init__(self, pid, mod, tier, seed):
        threading.Thread.__init__(self)
        self.pid, self.mod, self.tier, self.seed = pid, mod, tier, seed
        self.status = "none"; self.out = ""; self.info = {}; self.secs = 0.0; self.cmd = ""
    def run(self):
        src = getattr(self.mod, "DRIVER", None)
        if not src: return
        t0 = time.time()
        d = tempfile.mkdtemp(prefix="vf_%s_" % self.pid)
        try:
            exe = os.path.join(d, "driver")
            srcs = [os.path.join(A.VERIF, "drivers", src)] + [os.path.join(A.REPO, s) for s in getattr(self.mod, "DRIVER_SRCS", [])]
            cxx = getattr(self.mod, "CXX", "g++")
            objs = []; procs = []
            for i, s in enumerate(srcs):
                o = os.path.join(d, "o%d.o" % i); objs.append(o)
                cmd = [cxx] + driver_flags(self.mod) + ["-c", "-o", o, s]
                procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            bad = None
            for cmd, p in procs:
                so, _ = p.communicate()
                if p.returncode != 0 and bad is None: bad = (cmd, so)
            if bad is None:
                cmd = [cxx] + driver_flags(self.mod) + ["-o", exe] + objs + list(getattr(self.mod, "DRIVER_LIBS", [])) + ["-lpthread"]
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0: bad = (cmd, p.stdout)
            if bad is not None:
                self.status = "build-failed"; self.out = " ".join(bad[0]) + "\n" + bad[1][-3000:]; return
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1")
            lim = getattr(self.mod, "DRIVER_TIMEOUT", 240) * (6 if self.tier == "thorough" else 1)
            wd = os.path.join(d, "scratch"); os.mkdir(wd)
            self.cmd = "driver %s seed=%d tier=%s" % (src, self.seed, self.tier)
            try:
                p = subprocess.run([exe, str(self.seed), self.tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=lim, cwd=wd)
                self.out = (p.stdout[-20000:] + "\n--- stderr\n" + p.stderr[-8000:])
                for line in p.stdout.splitlines():
                    if line.startswith("INFO "):
                        try: self.info = json.loads(line[5:])
                        except ValueError: pass
                self.status = "pass" if p.returncode == 0 and self.info.get("evaluations", 0) > 0 else "fail"
                if p.returncode == 77: self.status = "skipped"
                if self.status == "fail": R.DEADLINE.value = time.time() + 45   # an input is known: only a short look at the obligations
            except subprocess.TimeoutExpired as e:
                self.out = "driver exceeded %d s" % lim
                self.status = "timeout"
        except Exception as e:
            self.status = "build-failed"; self.out = repr(e)
        finally:
            self.secs = time.time() - t0
            shutil.rmtree(d, ignore_errors=True)

def tree_hash():
    """identity of /repo's sources; only used to tell a resource limit on the committed tree from a proof lost by a change"""
    h = hashlib.sha256()
    for top in ("include", "src"):
        for dp, dn, fn in sorted(os.walk(os.path.join(A.REPO, top))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if os.path.isfile(p): h.update(os.path.relpath(p, A.REPO).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()
def baseline():
    p = os.path.join(A.VERIF, "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    R.DEADLINE.value = time.time() + (600 if tier == "quick" else 7200)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    mod = importlib.import_module("contracts." + pid)
    evdir = os.path.join(A.VERIF, "evidence"); os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, pid + ".replay.txt")
    if os.path.exists(replay): os.remove(replay)
    drv = Driver(pid, mod, tier, seed); drv.start()
    gens = []; asts = {}; cmds = []; broken = []
    try:
        for tu in sorted({c.tu for c in mod.CONTRACTS}):
            try:
                d, cmd = A.dump_tu(tu, getattr(mod, "FLAGS", ()))
                asts[tu] = A.AST(d, cmd); cmds.append(cmd)
            except (A.ExtractError, A.Unsupported, ValueError, OSError) as e: broken.append("extraction of %s: %s" % (tu, str(e)[:600]))
        cons = [c for c in mod.CONTRACTS if c.tu in asts]
        if cons:
            gens = R.generate(cons, lambda c: asts[c.tu], limit=getattr(mod, "GEN_LIMIT", 300))
            R.discharge(gens, budget=getattr(mod, "SOLVE_BUDGET", 120) * (3 if tier == "thorough" else 1))
    except Exception as e:
        broken.append("verifier: %s\n%s" % (e, traceback.format_exc()[-1500:]))
    drv.join()
    # ---------------------------------------------------------------- verdict
    total = sum(len(g["obls"]) + g["trivial"] for g in gens)
    failed, undecided, vac = [], [], []
    for g in gens:
        if g["status"] != "ok": broken.append("%s: %s" % (g["name"], g.get("error", "")))
        for o in g["obls"]:
            if o.get("result") == "sat": failed.append((g, o))
            elif o.get("result") != "unsat": undecided.append((g, o))
        if g["status"] == "ok":
            for lab, rs in g.get("cover_res", {}).items():
                if all(r == "unsat" for r in rs): vac.append((g, lab))
            if not g.get("cover_res") or len(g["obls"]) + g["trivial"] == 0: vac.append((g, "no obligation was generated"))
    discharged = total - len(failed) - len(undecided)
    known = []
    kf = os.path.join(A.VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k["status"] == "known"]
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    violation = None
    # an obligation that the verifier proves on the committed tree and no longer proves on a changed one has failed,
    # also when the solvers end with unknown; on the unchanged tree unknown is a resource limit and is only reported
    base = baseline().get(pid, {})
    changed = base.get("tree") != tree_hash()
    lost = [(g, o) for g, o in undecided if changed and g["name"] in base.get("proved", []) and o.get("tries") != ["deadline"]]
    if drv.status == "fail": violation = "input"
    elif failed or lost: violation = "obligation"
    lines = []
    if violation or undecided or broken or vac:
        for g, o in failed: lines.append("FAILED obligation: %s / %s (kind %s, line %s, path %s)\n  verifier: sat (%s); counterexample: %s" % (g["name"], o["name"], o["kind"], o["line"], o["path"], o.get("backend"), json.dumps(o.get("model") or {}, indent=0)[:3000]))
        for g, o in undecided: lines.append(("FAILED obligation (proved on the committed tree, not provable here)" if any(x is o for _, x in lost) else "UNDECIDED obligation") + ": %s / %s (kind %s, line %s) tries %s" % (g["name"], o["name"], o["kind"], o["line"], o.get("tries")))
        for g, l in vac: lines.append("VACUOUS: %s / %s" % (g["name"], l))
        for b in broken: lines.append("OUT OF REACH: " + b)
        lines.append("driver: %s (%s)" % (drv.status, drv.cmd)); lines.append(drv.out)
        open(replay, "w").write("property %s\n" % pid + "\n".join(lines) + "\n")
    complete = not failed and not undecided and not broken and not vac and gens
    notes = sorted({n for g in gens for n in g["notes"]})
    fns = [dict(function=g["name"], where=g["where"], status=g["status"] if g["status"] != "ok" else ("proved" if not any(x is g for x, _ in failed + undecided + vac) else "not proved"), obligations=len(g["obls"]) + g["trivial"], paths=g["paths"], solver_s=round(sum(o.get("time", 0) for o in g["obls"]), 2)) for g in gens]
    be = {}
    for g in gens:
        for o in g["obls"]:
            if o.get("result") == "unsat": be[o["backend"]] = be.get(o["backend"], 0) + 1
        be["simplifier"] = be.get("simplifier", 0) + g["trivial"]
    cov = dict(obligations=total, discharged=discharged, checker_cmd="python3-vt check.py %s --tier %s  (clang AST extraction, own VC generator, z3 + cvc5)" % (pid, tier),
               trusted_base=["clang 18 front end (AST of the real sources)", "vf/ VC generator and library models", "z3 5.3.2", "cvc5 1.4.2"],
               functions_under_contract=fns, discharged_by=be,
               solver_s=round(sum(o.get("time", 0) for g in gens for o in g["obls"]), 2),
               covers=sum(len(g.get("cover_res", {})) for g in gens), extraction=cmds,
               by_kind={k: sum(1 for g in gens for o in g["obls"] if o["kind"] == k) for k in sorted({o["kind"] for g in gens for o in g["obls"]})})
    if drv.status != "none":
        cov["bounded_standin"] = dict(label="bounded (never counted as proved): concrete executions of the real code, used to replay failed obligations and where extraction is out of reach", status=drv.status, cmd=drv.cmd, seconds=round(drv.secs, 1), **{k: v for k, v in drv.info.items() if k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
    level = getattr(mod, "LEVEL", "proof")
    if not complete:
        cov["undecided"] = [l[:400] for l in lines if not l.startswith("driver")][:20]
        level = "exploration" if drv.info else level
        for k in ("evaluations", "distinct_nontrivial", "rule", "samples"):
            if k in drv.info: cov[k] = drv.info[k]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=notes + list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    if "--write-baseline" in sys.argv:
        b = baseline(); b[pid] = dict(tree=tree_hash(), proved=sorted({f["function"] for f in fns if f["status"] == "proved"}))
        json.dump(b, open(os.path.join(A.VERIF, "baseline.json"), "w"), indent=1, sort_keys=True)
    print("%s: %d functions under contract, %d obligations, %d discharged, %d failed, %d undecided; driver %s %s; %.0f s" % (pid, len(gens), total, discharged, len(failed), len(undecided), drv.status, drv.info.get("evaluations", ""), time.time() - t0))
    for l in lines[:-1]:
        if not complete: print("  " + l.split("\n")[0][:300])
    if violation:
        if violation == "input":
            for l in drv.out.splitlines():
                if l.startswith("FAIL") or "runtime error" in l or "ERROR: AddressSanitizer" in l: print("  " + l[:400]); break
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if violation == "input" else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
