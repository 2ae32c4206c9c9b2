#!/usr/bin/env python3
"""Development tool: make and confirm seeded bugs.
usage: mkseed.py <definitions.py> [id ...] [--check] [--noconfirm]
A definition is B(id, property, edits, demo, needs, breaks, sources=[...]); edits are (file, old, new).
For each: writes /verif/seeded/<id>/, applies the patch in a scratch copy of /repo, builds, runs the stable
tests, runs the demo with and without the patch; with --check runs the property's quick check on the copy."""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = []
REPO = os.environ.get("VERIF_REPO", "/repo")
CORE = ["src/core/*.cpp"]
DEMO = """#!/bin/bash
# usage: cd /repo && bash demo.sh ; builds demo.cpp with the library sources in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/inc"; ln -s "$repo/src" "$w/inc/envire"
F="-std=c++14 -O1 -w -g1 @FLAGS@ -I$w/inc -I$repo/src -I$here/shim -I/usr/include/eigen3"
cd "$w"
ls @SRCS@ "$here/demo.cpp" | xargs -P8 -I{} sh -c 'g++ '"$F"' -c "{}" -o "'"$w"'/$(basename "{}" .cpp).o"' || { echo "does not compile"; exit 1; }
g++ @FLAGS@ "$w"/*.o @LIBS@ -o "$w/demo" || exit 1
cd "$w"
timeout 120 "$w/demo"
rc=$?
echo "demo exit $rc"
[ $rc = 0 ]
"""
PRE = """#include <cstdio>
#include <cstdlib>
#define EXPECT(c) do { if(!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); exit(1); } } while(0)
"""


def B(id, prop, edits, demo, needs, breaks, sources=CORE, flags="", libs="-lyaml -lboost_filesystem -lboost_thread -lboost_system -lpthread"):
    DEFS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, sources=sources, flags=flags, libs=libs))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def make(d, check, confirm=True):
    out = os.path.join(VERIF, "seeded", d["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    scr = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    copy = os.path.join(scr, "repo")
    try:
        run(["cp", "-a", REPO, copy])
        for f, o, n in d["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            assert s.count(o) == 1, (d["id"], f, "occurrences", s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = run(["git", "-C", copy, "diff", "--no-color"]).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        # removed lines must be lines of the original repository
        base = "efba856"
        for f in {e[0] for e in d["edits"]}:
            orig = run(["git", "-C", copy, "show", base + ":" + f]).stdout
            rem = [l[1:] for l in run(["git", "-C", copy, "diff", "--no-color", "-U0", "--", f]).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not any(l.strip() and l in orig.splitlines() for l in rem):
                print("  WARNING", d["id"], f, "removes no original line")
        os.makedirs(os.path.join(out, "shim"))
        shutil.copytree(os.path.join(VERIF, "shim"), os.path.join(out, "shim"), dirs_exist_ok=True)
        open(os.path.join(out, "demo.cpp"), "w").write(PRE + d["demo"])
        if "plystub.hpp" in d["demo"]:
            shutil.copy(os.path.join(VERIF, "driver/plystub.hpp"), out)
        sh = DEMO.replace("@FLAGS@", d["flags"]).replace("@SRCS@", " ".join('"$repo"/' + s for s in d["sources"])).replace("@LIBS@", d["libs"])
        if not d["sources"]:
            pass
        open(os.path.join(out, "demo.sh"), "w").write(sh)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        if confirm:
            a = run(["bash", os.path.join(out, "demo.sh")], cwd=REPO)
            b = run(["bash", os.path.join(out, "demo.sh")], cwd=copy)
            # build in the copy with the real build directory layout: the cmake files name /repo, so build there is not possible;
            # compile what build.sh compiles instead
            t = run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && bash /opt/vp/test.sh %s/o.json" % (copy, scr)])
            try:
                o = json.load(open(scr + "/o.json"))
            except Exception:
                o = t.stdout[-500:]
            okt = isinstance(o, dict) and len(o["passed"]) >= 2
            good = a.returncode == 0 and b.returncode != 0 and okt
            print("%-4s %-10s clean demo %d, patched demo %d, tests %s  %s" % (d["prop"], d["id"], a.returncode, b.returncode, "ok" if okt else o, "" if good else "<<<<< BAD"))
            if not good:
                print(a.stdout[-1500:], "\n----\n", b.stdout[-1500:])
        if check:
            e = dict(os.environ, VERIF_REPO=copy)
            c = run(["python3", os.path.join(VERIF, "bin/check.py"), d["prop"], "quick"], env=e, cwd=VERIF)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print("     %s check exit %d %s" % (d["id"], c.returncode, "CAUGHT " + v[0][:60] if c.returncode == 1 and v else "<<<<< MISSED\n" + c.stdout[-600:]))
        sys.stdout.flush()
    finally:
        shutil.rmtree(scr, ignore_errors=True)


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    for d in DEFS:
        if not ids or d["id"] in ids:
            make(d, "--check" in sys.argv, "--noconfirm" not in sys.argv)
