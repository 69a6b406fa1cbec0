#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py.
Each description module defines BUGS, a list of dicts: id, property, needs,
what_it_breaks, edits [(file, old, new)...], demo (C++ source), sources."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = ["core/mesh.cpp", "core/external.cpp", "core/vertex.cpp", "core/face.cpp", "core/halfedge.cpp",
        "core/triangle.cpp", "core/completion.cpp", "core/eigen.cpp"]
DEMO_SH = """#!/bin/bash
# Run in the repository root after its build.  Exit 0: behaves as stated.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
ok=1
pids=()
for f in %s; do
  g++ -std=c++17 -O1 -w -fopenmp %s -I"$here" -Isrc/tinymesh -Isrc -I/usr/include/eigen3 -c src/tinymesh/$f -o "$w/$(echo $f | tr / _).o" &
  pids+=($!)
done
g++ -std=c++17 -O1 -w -fopenmp %s -I"$here" -Isrc/tinymesh -Isrc -I/usr/include/eigen3 -c "$here/demo.cpp" -o "$w/demo.o" &
pids+=($!)
for p in "${pids[@]}"; do wait $p || ok=0; done
[ $ok = 1 ] || { echo "demo does not compile"; exit 4; }
g++ -fopenmp %s "$w"/*.o -o "$w/demo" -Wl,--unresolved-symbols=ignore-all || exit 4
cd "$w" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
"""
only = sys.argv[1:]
for mod in sorted(glob.glob(os.path.join(HERE, "tools", "seeds", "*.py"))):
    for b in runpy.run_path(mod)["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = tempfile.mkdtemp(prefix="seed-")
        r = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", os.environ.get("SEEDREPO", "/repo"), r], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print("!!", b["id"], f, "pattern occurs", s.count(old), "times")
                sys.exit(1)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, check=True).stdout
        shutil.rmtree(d)
        out = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        src = CORE + b.get("more", [])
        san = b.get("flags", "")
        open(os.path.join(out, "demo.sh"), "w").write(b.get("script") or DEMO_SH % (" ".join(src), san, san, san))
        name, text = ("demo.py", b["python"].lstrip()) if "python" in b else ("demo.cpp", b["demo"])
        open(os.path.join(out, name), "w").write(text)
        for h in ("tiny_obj_loader.h", "tinyply.h"):
            shutil.copy(os.path.join(HERE, "harness", "shim", h), out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("made", b["id"])
