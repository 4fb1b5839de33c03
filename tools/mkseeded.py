#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, d.hpp, meta.json) from tools/seeds/*.py."""
import json, os, subprocess, sys, shutil, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "tools", "seeds")
BASE = "7298afa"
DEMO = """#!/bin/bash
# run in the repository after its build
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
L=$R/_build/src
g++ -std=c++17 -O1 -w -I"$D" -I"$R" -I"$R/include" -I"$R/src" -I"$R/src/util/external/kdl_parser/include" \\
    -I/usr/include/ompl-1.5 -I/usr/include/eigen3 -I/usr/include/urdfdom "$D/demo.cpp" -o "$T/demo" \\
    -Wl,--start-group $L/planners/ompl_interface/libOMPLPlanner.a $L/planners/libHRM3D.a $L/planners/libHRM2D.a $L/planners/libHighwayRoadMap.a \\
    $L/datastructure/libDataStructure.a $L/geometry/libGeometry.a $L/util/libUtil.a $L/util/external/kdl_parser/libKDL_Parser.a -Wl,--end-group \\
    -lompl -lfcl -lccd -lgmp -lorocos-kdl -ltinyxml2 -lurdfdom_model -lurdfdom_world -lboost_filesystem -lboost_system -pthread \\
    || exit 3
cd "$T" && timeout 120 ./demo
"""
def blame_ok(f, diff):
    """every removed line is a line of the original repository"""
    ln = None
    for l in diff.splitlines():
        if l.startswith("@@"): ln = int(l.split()[1].lstrip("-").split(",")[0])
        elif ln is None or l.startswith("+"): continue
        elif l.startswith("-"):
            c = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (ln, ln), "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.split()[0]
            r = subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", c.lstrip("^"), BASE]).returncode
            if r: return "line %d of %s is from %s" % (ln, f, c)
            ln += 1
        else: ln += 1
    return None if "\n-" in diff.split("@@", 1)[1] else "no original line changed in " + f
def main(only):
    seeds = []
    for p in sorted(glob.glob(os.path.join(S, "*.py"))): seeds += runpy.run_path(p)["SEEDS"]
    for s in seeds:
        if only and s["id"] not in only: continue
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        patch = ""
        files = {}
        for f, o, n in s["edits"]:
            t = files.get(f) or open("/repo/" + f).read()
            if t.count(o) != 1: print("!!", s["id"], f, "found", t.count(o), "times:", o[:70])
            files[f] = t.replace(o, n, 1)
        for f, t in files.items():
            tmp = "/tmp/mkseeded.tmp"; open(tmp, "w").write(t)
            df = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, tmp], stdout=subprocess.PIPE, text=True).stdout
            b = blame_ok(f, df)
            if b: print("!!", s["id"], b)
            patch += df
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if "demo" in s:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            open(os.path.join(d, "demo.cpp"), "w").write('#include "d.hpp"\n' + s["demo"].lstrip("\n"))
            shutil.copy(os.path.join(S, "d.hpp"), d)
        else:
            for k, v in s["files"].items(): open(os.path.join(d, k), "w").write(v)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        print(s["id"], s["property"], "written")
main(sys.argv[1:])
