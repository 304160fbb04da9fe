"""mkseed.seed(...): writes seeded/<id>/ from a list of replacements in /repo's HEAD and a demonstration program."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Builds the program beside this file against the repository's sources and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
g++ -std=c++20 {flags} -w -I"$PWD/inc" "$here/demo.cc" {src} -lpthread -o "$tmp/demo" || {{ echo "does not compile"; rm -rf "$tmp"; exit 2; }}
timeout {timeout} "$tmp/demo"
rc=$?
rm -rf "$tmp"
exit $rc
'''
HEAD = '''#include <Tecs.hh>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <thread>
#include <vector>
#include <atomic>
#include <chrono>
struct A { int v = 7; }; struct B { int v = 8; }; struct C { int v = 9; }; struct G { int v = 1; }; struct H { int v = 2; };
TECS_GLOBAL_COMPONENT(G);
TECS_GLOBAL_COMPONENT(H);
using namespace Tecs;
using World = ECS<A, B, C, G, H>;
#define CHECK(x) do { if (!(x)) { std::fprintf(stderr, "FAILED line %d: %s\\n", __LINE__, #x); std::_Exit(1); } } while (0)
inline void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
'''


def seed(id, prop, edits, needs, breaks, demo, flags="-O1", src='"$PWD"/src/Tecs.cc', timeout=60, head=HEAD, demo_sh=None):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {w} && cd {w} && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
    for f, old, new, *cnt in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        k = cnt[0] if cnt else 1
        if s.count(old) != k:
            raise SystemExit(f"{id}: {f}: pattern occurs {s.count(old)} times, expected {k}:\n{old}")
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or DEMO.format(flags=flags, src=src, timeout=timeout))
    open(os.path.join(d, "demo.cc"), "w").write(head + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)
