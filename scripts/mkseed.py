#!/usr/bin/env python3
"""mkseed.py SPEC.py : creates seeded/<id>/ folders.  SPEC.py defines SEEDS, a list of dicts:
id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ source), libs ('geom' or 'mesh')."""
import sys, os, json, subprocess, tempfile, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = {"err": "src/error_handling/*.cc", "geom": "src/geometry/*.cc src/error_handling/*.cc", "block": "src/mesh/block_partition.cc",
        "mesh": "src/mesh/*.cc src/mesh/mesh_simple/*.cc src/geometry/*.cc src/error_handling/*.cc",
        "all": "src/mesh/*.cc src/mesh/mesh_simple/*.cc src/mesh/mesh_factory/*.cc src/geometry/*.cc src/error_handling/*.cc",
        "state": "src/statemanager/*.cc src/mesh/*.cc src/mesh/mesh_simple/*.cc src/geometry/*.cc src/error_handling/*.cc"}
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call("git clone -q /repo %s/r" % t, shell=True)
    for f, a, b in s["edits"]:
        p = t + "/r/" + f; x = open(p).read()
        assert x.count(a) == 1, (s["id"], f, a, x.count(a))
        open(p, "w").write(x.replace(a, b))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", t + "/r", "diff"]))
    shutil.rmtree(t)
    libs = LIBS[s["libs"]]
    mesh = s["libs"] in ("mesh", "all", "state")
    open(d + "/demo.cc", "w").write(s["demo"].lstrip())
    if mesh:
        shutil.copy(V + "/harness/stubs.cc", d + "/stubs.cc")
        open(d + "/sv.h", "w").write("// stand-ins used by stubs.cc\nstatic int sv_n;\nstatic void sv_check(bool, const char*) {}\nstatic int sv_int(const char*, int lo, int hi) { return lo + sv_n++ % (hi - lo + 1); }\n")
    par = "for f in $SRC; do (g++ $FLAGS -c $f -o $t/$(echo $f | tr / _).o) & done; wait"
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# builds a small program from the sources in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) && trap 'rm -rf "$t"' EXIT
FLAGS="-std=c++11 -O1 -w -DNDEBUG -DJali_HAVE_METIS -DJali_HAVE_ZOLTAN -DOMPI_SKIP_MPICXX -Isrc/mesh -Isrc/geometry -Isrc/error_handling
  -Isrc/mesh/mesh_simple -Isrc/mesh/mesh_factory -Isrc/statemanager -I/usr/include/trilinos -isystem /usr/lib/x86_64-linux-gnu/openmpi/include"
for f in %s $d/*.cc; do g++ $FLAGS -c $f -o $t/$(echo $f | tr / _).o & done; wait
g++ $t/*.o -o $t/demo || exit 3
timeout 60 $t/demo
""" % libs)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
