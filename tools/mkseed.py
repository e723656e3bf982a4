#!/usr/bin/env python3
"""Turns tools/seeds/<id>.py (property, edits, needs, breaks, demo) into seeded/<id>/ after confirming it in a scratch copy.
usage: mkseed.py ID... [--test] [--check]"""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# compiles the real sources of the repository (cwd) together with demo.cpp; 0 = property holds
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -w -DDRJIT_BUILD=1 -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 -DDRJIT_ENABLE_CUDA=1 -DDRJIT_ENABLE_OPTIX=1 -DLZ4LIB_VISIBILITY= -DNDEBUG \
    -I"$D" -Iinclude -I. -Isrc -Iext/lz4 %FLAGS% "$D/demo.cpp" -o "$T/demo" -lpthread -ldl -no-pie -fno-pie -Wl,--unresolved-symbols=ignore-all || exit 2
cd "$T" && timeout 250 ./demo
'''
FULL = r'''#!/bin/bash
# compiles every source file of the repository (cwd) and links it with demo.cpp (real LLVM back end); 0 = property holds
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O1 -g1 -w -DDRJIT_BUILD=1 -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 -DDRJIT_ENABLE_CUDA=1 -DDRJIT_ENABLE_OPTIX=1 -DLZ4LIB_VISIBILITY= -DNDEBUG -I$D -Iinclude -I. -Isrc -Iext/lz4 -Iresources %FLAGS%"
(ls src/*.cpp | grep -v metal_; echo "$D/demo.cpp") | xargs -P 8 -I{} sh -c "clang++ $F -c {} -o $T/\$(basename {}).o" || exit 2
clang -O1 -w -DLZ4LIB_VISIBILITY= -c ext/lz4/lz4.c -o "$T/lz4.o" && clang++ %FLAGS% "$T"/*.o -o "$T/demo" -lpthread -ldl -rdynamic || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for a in [x for x in sys.argv[1:] if not x.startswith("--")]:
    ns = {}
    exec(open(f"{V}/tools/seeds/{a}.py").read(), ns)
    W = tempfile.mkdtemp(prefix="seed_"); R = W + "/repo"
    shutil.copytree("/repo", R, symlinks=True)
    sh("git checkout -q -- . ", cwd=R)
    for f, old, new in ns["edits"]:
        p = f"{R}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (a, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = f"{V}/seeded/{a}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
    open(d + "/demo.cpp", "w").write(ns["demo"])
    open(d + "/demo.sh", "w").write((FULL if ns.get("full") else DEMO).replace("%FLAGS%", ns.get("flags", ""))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if ns.get("stubs", True):
        shutil.copytree(f"{V}/stubs/nanothread/include/nanothread", d + "/nanothread")
        shutil.copytree(f"{V}/stubs/tsl_native/tsl", d + "/tsl")
        for f in ("nanothread_impl.h", "full.h") if ns.get("full") else ("nanothread_impl.h", "jit_stubs.h") + (("red_common.h",) if "red_common.h" in ns["demo"] else ()): 
            s = open(f"{V}/native/{f}").read().replace('"/repo/src/', '"src/').replace('"/repo/resources/', '"resources/').replace('\\"/repo/resources', '\\"resources')
            open(f"{d}/{f}", "w").write(s)
    r0 = sh(f"{d}/demo.sh", cwd="/repo"); 
    # run demo against the patched copy: same relative layout
    r1 = sh(f"{d}/demo.sh", cwd=R)
    print(a, "demo unchanged:", r0.returncode, (r0.stdout + r0.stderr)[-300:].strip() if r0.returncode else "", "| patched:", r1.returncode, (r1.stdout + r1.stderr)[-200:].strip())
    if "--test" in sys.argv or any(x in e[0] for e in ns["edits"] for x in ("half.h", "memmgr", "nvtx", "profile")):
        sh(f"git apply {d}/patch.diff", cwd="/repo")
        try:
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            print("   build", b.returncode, "test", t.returncode, open("/tmp/seedtest.json").read()[:200])
        finally:
            sh("git checkout -- .", cwd="/repo"); sh("bash /opt/vp/build.sh")
    else:
        b = sh("for f in %s; do clang++ -std=c++17 -fsyntax-only -w -DDRJIT_BUILD=1 -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 -DDRJIT_ENABLE_CUDA=1 -DDRJIT_ENABLE_OPTIX=1 -DLZ4LIB_VISIBILITY= -Iinclude -I. -Isrc -Iext/lz4 -I%s/stubs/tsl_native -I%s/stubs/nanothread/include $f || exit 1; done" % (" ".join(e[0] for e in ns["edits"] if e[0].endswith(".cpp")), V, V), cwd=R)
        if b.returncode: print("   DOES NOT COMPILE", b.stderr[-500:])
    shutil.rmtree(W)
    if "--check" in sys.argv:
        sh(f"git apply {d}/patch.diff", cwd="/repo")
        try:
            c = sh(f"{V}/checks/{ns['property']}.py", cwd=V)
            print("   check:", c.returncode, "\n     ".join(l[:260] for l in c.stdout.splitlines() if l.startswith(("VIOL", "FAILED", "FAILING", "NATIVE"))))
        finally: sh("git checkout -- .", cwd="/repo")
