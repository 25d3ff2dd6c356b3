#!/usr/bin/env python3
"""Generates seeded/<id>/ from seedsrc definitions: each definition = list of (file, old, new) replacements + demo.cpp body."""
import os, sys, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'seedsrc'))
import seeds
DEMO = '''#!/bin/bash
# run in /repo after the build; needs only the sources, the built libraries and demo.cpp beside this file
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
libs="$(find "$repo/_build/bin" -name 'lib*.a')"
ln -s "$repo/data" "$d/data"
g++ -std=c++20 -O1 -w -DNDEBUG -I"$repo/src" -I"$repo/src/cooling" "$here/demo.cpp" -Wl,--start-group $libs -Wl,--end-group -lpthread -o "$d/demo"
mkdir -p "$d/results" "$d/run/dir/results"
cd "$d/run/dir"
timeout 120 "$d/demo" > out.txt 2> err.txt || { echo "demo: property broken"; tail -3 out.txt; exit 1; }
echo "demo: ok"
'''
HEAD = '''#include "slide.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
using namespace slide;
static void check(bool ok, const char *what) { if (!ok) { std::printf("FAILED: %s\\n", what); std::fflush(stdout); std::_Exit(1); } }
static bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }
'''
only = sys.argv[1:]
for sd in seeds.S:
    if only and sd['id'] not in only: continue
    d = os.path.join(V, 'seeded', sd['id']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run('git -C /repo archive HEAD src | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x' % (w, w), shell=True, check=True)
        for f, old, new in sd['edits']:
            p = os.path.join(w, f); t = open(p).read()
            assert t.count(old) == sd.get('count', {}).get(f, 1), (sd['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    finally: shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('-DNDEBUG', '-DNDEBUG' + sd.get('cflags', ''))); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + sd.get('pre', '') + 'int main()\n{\n' + sd['demo'].strip('\n') + '\n  return 0;\n}\n')
    json.dump({'property': sd['property'], 'needs': sd['needs'], 'what_it_breaks': sd['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(sd['id'], len(diff))
