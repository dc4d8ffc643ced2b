#!/usr/bin/env python3
"""Developer helper: run checks against many small changes.  mut.py FILE.py [name-regex]

FILE.py defines MUTANTS: list of (name, [properties], [(file, old, new)]) using the aliases below. For each: does it build and pass
the tests, and does each property's check report it (build of the world from the changed tree, quick search)? Prints one line each."""
import os, re, shutil, subprocess, sys, json, time

F = dict(V='include/common/value_impl.hpp', VH='include/common/value.hpp', A='include/common/array_impl.hpp', AH='include/common/array.hpp',
         O='include/common/object_impl.hpp', U='include/common/utils.hpp', P='include/parser/parser_impl.hpp', J='include/reflection/jsonization.hpp',
         E='include/common/enum_reflection.hpp', X='include/parser/packed_bytes_x86.hpp', B='include/parser/packed_bytes.hpp', BO='include/parser/bitops.hpp')
T = "/tmp/mut/tree"


def sh(cmd, cwd=None, t=1200, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t, **kw)


def main():
    ns = dict(F)
    exec(open(sys.argv[1]).read(), ns)
    pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
    secs = os.environ.get("MUT_SECS", "")
    for name, props, edits in ns["MUTANTS"]:
        if not pat.search(name):
            continue
        shutil.rmtree(T, ignore_errors=True)
        os.makedirs(T)
        sh("git -C /repo archive HEAD | tar -x -C %s" % T)
        bad = None
        for f, old, new in edits:
            p = os.path.join(T, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "pattern occurs %d times in %s: %r" % (s.count(old), f, old[:50])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print("%-34s SKIP %s" % (name, bad), flush=True)
            continue
        t = sh("cmake -S . -B _b -G Ninja -DCMAKE_CXX_COMPILER=g++ -DCMAKE_CXX_FLAGS=-Wno-error -DBUILD_TESTING=ON -DBUILD_SAMPLE=ON >/dev/null && ninja -C _b && cd _b && timeout 60 ./testing", T)
        tests = "tests pass" if t.returncode == 0 else "TESTS FAIL"
        if "error:" in t.stdout and t.returncode:
            tests = "DOES NOT BUILD " + re.search(r"error:.*", t.stdout).group(0)[:100]
        for p in props:
            t0 = time.time()
            env = dict(os.environ, MEOJSON_TREE=T, VERIF_SEED="1")
            r = sh("python3 check.py %s quick" % p, "/tmp/mut/verif", env=env)
            line = [l for l in r.stdout.splitlines() if l.startswith("class ") or "held:" in l or "check:" in l or "found in" in l]
            verdict = {0: "missed", 1: "CAUGHT"}.get(r.returncode, "BROKEN")
            print("%-34s %s %s %s %.0fs %s" % (name, tests, p, verdict, time.time() - t0, " | ".join(line)[:230]), flush=True)
            if verdict == "BROKEN":
                print(r.stdout[-1500:])
    shutil.rmtree(T, ignore_errors=True)


main()
