#!/usr/bin/env python3
"""Developer helper: make a planted bug. plant(id, property, edits, needs, breaks, demo, flags)

Writes /verif/seeded/<id>/ after checking in a scratch copy that the patch touches only lines of the original repository,
builds, passes the tests and that the demonstration tells the trees apart."""
import json, os, re, shutil, subprocess, sys, tempfile

SEEDED = "/verif/seeded"
ORIGIN = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
DEMO = """#!/bin/bash
# Run in /repo: exit 0 if the property holds for this demonstration.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
%s -std=c++17 %s -I include "$here/demo.cpp" -o "$work/demo"
cd "$work"
timeout 120 ./demo
"""


def sh(cmd, cwd=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)


def plant(pid, prop, edits, needs, breaks, demo, flags="-O1 -fsanitize=address,undefined -fno-sanitize-recover=all", cxx="g++"):
    wt = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        sh("git -C /repo archive HEAD | tar -x -C %s" % wt)
        sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", wt)
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return print(pid, "FAILED: pattern occurs", s.count(old), "times in", f, repr(old[:60]))
            # every removed line must be an original one
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", wt).stdout
        ours = []
        for f in set(e[0] for e in edits):
            blame = sh("git -C /repo blame -s --root -l HEAD -- %s" % f).stdout.splitlines()
            cur = None
            n = 0
            for line in sh("git diff -U0 -- %s" % f, wt).stdout.splitlines():
                m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
                if m:
                    a, c = int(m.group(1)), int(m.group(2) or 1)
                    ours += [blame[i] for i in range(a - 1, a - 1 + c) if ORIGIN[:30] not in blame[i]]
        if ours:
            print(pid, "WARNING: touches lines of fix commits:", ours)
        d = os.path.join(SEEDED, pid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO % (cxx, flags))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        good = sh("bash %s/demo.sh" % d, "/repo")
        bad = sh("bash %s/demo.sh" % d, wt)
        ok = good.returncode == 0 and bad.returncode != 0 and "error:" not in bad.stderr[:20000].replace("runtime error:", "").replace("AddressSanitizer", "") 
        # tests of the changed tree, in its own build directory
        t = sh("cmake -S . -B _b -G Ninja -DCMAKE_CXX_COMPILER=g++ -DCMAKE_CXX_FLAGS=-Wno-error -DBUILD_TESTING=ON -DBUILD_SAMPLE=ON >/dev/null && ninja -C _b >/dev/null && cd _b && ./testing", wt)
        print(pid, prop, "demo unchanged rc=%d, changed rc=%d; tests rc=%d" % (good.returncode, bad.returncode, t.returncode),
              "OK" if ok and t.returncode == 0 else "FAILED\n" + good.stderr[-800:] + bad.stderr[-800:] + t.stdout[-600:] + t.stderr[-300:])
        if not ok or t.returncode:
            shutil.move(d, tempfile.mkdtemp(prefix="plantfail.", dir="/tmp") + "/" + pid)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
