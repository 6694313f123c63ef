#!/usr/bin/env python3
"""mkseed.py <id> <property> <core|util> <patch file> <demo.cpp> <needs> <what_it_breaks>
Creates seeded/<id> (self-contained demo) and confirms it in a scratch copy: builds, stable tests pass, demo ok without / fails with."""
import sys, os, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, kind, patch, demo, needs, what = sys.argv[1:8]
d = V + "/seeded/" + sid
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
shutil.copy(patch, d + "/patch.diff")
shutil.copy(demo, d + "/demo.cpp")
shutil.copytree(V + "/support/stub", d + "/stub")
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
sys.path.insert(0, V)
core = None
for l in open(V + "/vc/native.py").read().split("CORE = (")[1].split(").split()")[0].split("\n"):
    core = (core or "") + l.strip().strip('"') + " "
core = core.split() + ["strategy/mixins/AlignedAllocation", "strategy/mixins/Inspector", "strategy/mixins/AllocateNull"]
util = "util/AllocationMap util/FixedMallocPool util/io util/Logger util/MPI util/OutputBuffer util/allocation_statistics util/detect_vendor strategy/AllocationStrategy".split()
srcs = core if kind == "core" else util
open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: the repository. Builds the host sources with this folder's stand-in for camp and runs demo.cpp against them.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/include/umpire"
sed -e 's/^#cmakedefine UMPIRE_ENABLE_FILE_RESOURCE$/#define UMPIRE_ENABLE_FILE_RESOURCE/' -e 's/^#cmakedefine .*$//' \\
    -e 's/@Umpire_VERSION_MAJOR@/2024/; s/@Umpire_VERSION_MINOR@/2/; s/@Umpire_VERSION_PATCH@/0/; s/@UMPIRE_VERSION_RC@//' \\
    src/umpire/config.hpp.in > "$T/include/umpire/config.hpp"
F="-O1 -g1 -w -DNDEBUG -fsanitize=address -fno-sanitize-recover=all -Isrc -Isrc/tpl -I$T/include -I$D/stub"
S="%s"
{
  for s in $S; do [ -f "src/umpire/$s.cpp" ] && echo "clang++ -std=c++14 -DFMT_HEADER_ONLY $F -c src/umpire/$s.cpp -o $T/$(echo $s | tr / _).o"; done
  echo "clang -std=c99 $F -c src/tpl/umpire/judy/judy.c -o $T/judy.o"
  echo "clang++ -std=c++14 -DFMT_HEADER_ONLY $F -c $D/demo.cpp -o $T/demo.o"
} | xargs -P 8 -I{} sh -c '{}' || { echo "build failed"; exit 3; }
clang++ -fsanitize=address "$T"/*.o -lpthread -ldl -o "$T/demo" || { echo "link failed"; exit 3; }
cd "$T" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 60 ./demo
''' % " ".join(srcs))
os.chmod(d + "/demo.sh", 0o755)
if "--noverify" in sys.argv:
    sys.exit(0)
t = tempfile.mkdtemp(prefix="seed_")
try:
    r = subprocess.run("cp -a /repo %s/repo" % t, shell=True)
    repo = t + "/repo"
    def rundemo():
        r = subprocess.run([d + "/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=290, errors="replace")
        return r.returncode, (r.stdout + r.stderr)[-600:]
    a = rundemo()
    print("clean:", a[0], a[1] if a[0] else "")
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, capture_output=True, text=True)
    print("apply:", r.returncode, r.stderr[:300])
    b = rundemo()
    print("patched:", b[0], b[1])
finally:
    shutil.rmtree(t, ignore_errors=True)
# build and stable tests with the patch, in /repo itself (undone straight afterwards)
if kind == "util":
    try:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed_t.json"], capture_output=True)
        j = json.load(open("/tmp/seed_t.json"))
        print("build", r.returncode, "tests passed", len(j["passed"]), "failed", j.get("failed"))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
        subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
