#!/usr/bin/env python3
"""(re)creates /verif/seeded/<id> from tools/seeds/*.py and validates each change in a scratch copy of /repo"""
import os, sys, glob, shutil, subprocess, json
V = "/verif"
seeds = []
def SEED(id, prop, file, edits, demo, needs, breaks, raw_sh=None, extra=None):
    seeds.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks, raw_sh=raw_sh, extra=extra or {}))
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(open(f).read())
SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
B=$PWD/_build
g++ --version >/dev/null
gcc -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -I"$B" -I"$PWD/scantool" -I"$PWD" -I"$d" "$d/demo.c" "$B"/scantool/libdiag.a -o "$t/demo" -lm -lpthread LIBS || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo 2>"$t/err"; rc=$?
[ $rc = 0 ] || tail -5 "$t/err"
exit $rc
"""
def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
want = sys.argv[1:]
SC = "/tmp/seedsc"
def scratch():
    shutil.rmtree(SC, ignore_errors=True)
    run("git -C /repo worktree prune; git clone -q %s %s" % (os.environ.get("SEEDSRC", "/repo"), SC))
    r = run("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_DIAGTEST=ON -DCMAKE_C_FLAGS=-Wno-error && ninja -C %s/_build" % (SC, SC, SC))
    if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:]); sys.exit(1)
scratch()
for s in seeds:
    if want and s["id"] not in want: continue
    d = V + "/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    ok = True
    edits = s["edits"] if isinstance(s["edits"][0][0], str) and len(s["edits"][0]) == 3 else [(s["file"], a, b) for a, b in s["edits"]]
    for fn, a, b in edits:
        p = SC + "/scantool/" + fn
        t = open(p).read()
        if t.count(a) != 1: print(s["id"], "edit matches", t.count(a), repr(a[:60])); ok = False
        open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(run("git -C %s diff" % SC).stdout)
    if s["demo"]:
        open(d + "/demo.c", "w").write(s["demo"])
        shutil.copy(V + "/tools/seed_l0.h", d)
        sh = SH.replace("LIBS", "")
    if s["raw_sh"]: sh = s["raw_sh"]
    for k, v in s["extra"].items(): open(d + "/" + k, "w").write(v)
    open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    b = run("ninja -C %s/_build" % SC)
    t = run("cd %s/_build && ctest -j8 -E halfdup" % SC)
    bad = run(d + "/demo.sh", cwd=SC)
    run("git -C %s checkout -- ." % SC); run("ninja -C %s/_build" % SC)
    good = run(d + "/demo.sh", cwd=SC)
    res = "build %s tests %s demo-bug %s demo-clean %s" % (b.returncode, t.returncode, bad.returncode, good.returncode)
    verdict = "OK " if ok and b.returncode == 0 and t.returncode == 0 and bad.returncode not in (0, 3) and good.returncode == 0 else "BAD"
    print(verdict, s["id"], res)
    if verdict == "BAD": print((b.stdout[-600:] if b.returncode else ""), (t.stdout[-800:] if t.returncode else ""), bad.stdout[-300:], bad.stderr[-600:], good.stdout[-500:], good.stderr[-800:])
shutil.rmtree(SC, ignore_errors=True)
