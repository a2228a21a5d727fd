"""plant.py <spec.py> [...]: creates /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (C++ source), SRCS = extra /repo sources, FLAGS."""
import sys, os, subprocess, shutil, json, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# exit 0: the demonstration passes; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'find "$d" -delete' EXIT
g++ -w -std=c++17 -O1 %(flags)s -I"$here/shim" -I"$PWD/include" -I"$PWD/include/utils" -o "$d/demo" "$here/demo.cpp" %(srcs)s -ltbb -lpthread %(libs)s || exit 3
cd "$d" && timeout 120 ./demo
'''
def sh(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    for spec in sys.argv[1:]:
        s = runpy.run_path(spec); d = os.path.join(V, "seeded", s["ID"])
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d + "/shim/tbb"); shutil.copy(V + "/shim/tbb/tbb_stddef.h", d + "/shim/tbb/")
        open(d + "/demo.cpp", "w").write(s["DEMO"].lstrip())
        open(d + "/demo.sh", "w").write(SH % dict(flags=s.get("FLAGS", ""), srcs=" ".join('"$PWD/%s"' % x for x in s.get("SRCS", [])), libs=s.get("LIBS", ""))); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        t = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        try:
            r = t + "/repo"; subprocess.run(["cp", "-a", "/repo", r], check=True); subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
            ok = sh("bash", d + "/demo.sh", cwd=r)
            if ok.returncode != 0: print(s["ID"], "DEMO FAILS ON THE UNCHANGED TREE", ok.stdout[-1500:]); continue
            bad = False
            for f, old, new in s["EDITS"]:
                x = open(r + "/" + f).read()
                if x.count(old) != 1: print(s["ID"], "edit does not apply once:", f, x.count(old)); bad = True; break
                open(r + "/" + f, "w").write(x.replace(old, new))
                base = sh("git", "-C", r, "show", "8e48e71:" + f).stdout
                first = [l for l in old.splitlines() if l.strip()]
                if not any(l in base for l in first): print(s["ID"], "WARNING: lines are not original")
            if bad: continue
            open(d + "/patch.diff", "w").write(sh("git", "-C", r, "diff").stdout)
            # build and tests in the copy: the scripts name /repo, so run them in a private copy of the scripts
            b = sh("bash", "-c", "mkdir %s/vp; for f in /opt/vp/*; do [ -d $f ] && cp -a $f %s/vp/ || cp $f %s/vp/; done; grep -rl /repo %s/vp %s/_build 2>/dev/null | xargs -r sed -i 's#/repo/#%s/#g; s#/repo\"#%s\"#g; s#/repo$#%s#g; s#/opt/vp#%s/vp#g'; find %s/_build -delete; bash %s/vp/build.sh && bash %s/vp/test.sh %s/out.json; cat %s/out.json" % (t, t, t, t, r, r, r, r, t, r, t, t, t, t))
            res = b.stdout.strip().splitlines()[-1] if b.stdout.strip() else ""
            x = sh("bash", d + "/demo.sh", cwd=r)
            print(s["ID"], "tests:", "ok" if "NumberRecognition" in b.stdout and "StoreLoadString" in b.stdout and '"failed": []' in open(t + "/out.json").read() else "?? " + b.stdout[-800:], "| demo with patch exits", x.returncode, x.stdout[-200:].strip())
        finally: shutil.rmtree(t, ignore_errors=True)
if len(sys.argv) > 1: main()
