#!/usr/bin/env python3
"""check.py <ID>: build the world of a property against /repo's working tree, search, gate, report.

exit 0: held on everything explored; exit 1 with "VIOLATION property=<id> replay=<path>"; anything else: error of the check."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from worlds import ASSUMPTIONS, BASE, REAL, WORLDS

REPO = os.environ.get("MEOJSON_TREE", "/repo")  # developer convenience; registered commands never set it
CXX = "clang++"


class NotBuilt(Exception):
    pass


def die(text):
    print(text)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def not_accepted(pid, out, drawn, replay):
    """The world of drawn types does not build: find a small program of an application that does not, either."""
    w = WORLDS[pid]
    small = os.path.join(out, "program")
    for cmd in w["prepare"]:
        run([c.replace("{out}/drawn.hpp", small).replace("{seed}", str(drawn)) for c in cmd] + ["programs"], cwd=HERE)
    flags = [f for f in w["flags"] if f.startswith("-fconstexpr")]
    sources = sorted(f for f in os.listdir(out) if f.startswith("program"))

    def one(source):
        cmd = [CXX, "-std=c++17"] + flags + ["-fsyntax-only", "-I" + os.path.join(REPO, "include"), source]
        r = run(cmd, cwd=out)
        return (r.returncode, cmd, r.stdout)

    with ThreadPoolExecutor(8) as ex:
        bad = [(len(open(os.path.join(out, s)).read()), s, cmd, text) for s, (rc, cmd, text) in zip(sources, ex.map(one, sources)) if rc]
    if not bad:
        return
    _, source, cmd, text = min(bad)
    error = "\n".join([l for l in text.split("\n") if "error:" in l][:3])
    text = open(os.path.join(out, source)).read()
    with open(replay, "w") as f:
        f.write("// %s: an application with a type of draw %d does not build. To replay: %s\n%s/*\n%s\n*/\n" % (pid, drawn, " ".join(cmd[:-1] + [replay]), text, error))
    print("class program: %d of %d small programs of an application do not build, the shortest:\n%s\n%s" % (len(bad), len(sources), text, error))
    d = {"runs": len(sources), "distinct_nontrivial": len(sources), "rule": "small programs with one drawn type each, compiled", "samples": [error],
         "nontrivial": len(sources), "requested": len(sources), "steps": 0, "draws": 0, "events": 0, "faults": {}, "probes": {}, "states": 0,
         "interleavings": 0, "workers": 8, "search_s": 1, "unreproducible": 0}
    return d


def build(pid, out, drawn=1):
    w = WORLDS[pid]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jobs = []
    for s in w["sim"]:
        jobs.append((s, ["-std=c++17", "-O1", "-g", "-Wall", "-Wextra"], os.path.basename(s)[:-4] + ".o"))
    for i, (s, flags) in enumerate(w["units"]):
        raw = "RAW" in flags
        fl = [f.replace("{out}", out) for f in flags if f != "RAW"]
        jobs.append((s, fl if raw else BASE + [f.replace("{out}", out) for f in w["flags"]] + fl, "unit%d.o" % i))

    def one(job):
        src, flags, obj = job
        cmd = (["g++"] if "GXX" in flags else [CXX]) + [f for f in flags if f != "GXX"] + ["-I" + os.path.join(REPO, "include"), "-Isim", "-c", src, "-o", os.path.join(out, obj)]
        r = run(cmd, cwd=HERE)
        return (r.returncode, " ".join(cmd), r.stdout)

    os.makedirs(os.path.join(out, "locale"), exist_ok=True)

    def prepare(cmd):
        cmd = [c.replace("{out}", out).replace("{seed}", str(drawn)) for c in cmd]
        r = run(cmd, cwd=HERE)
        return (r.returncode, " ".join(cmd), r.stdout)

    with ThreadPoolExecutor(8) as ex:
        for rc, cmd, text in ex.map(prepare, w["prepare"]):
            if rc:
                die("check: preparation failed: %s\n%s" % (cmd, text[-2000:]))
        for rc, cmd, text in ex.map(one, jobs):
            if rc:
                raise NotBuilt("check: build failed: %s\n%s" % (cmd, text[-6000:]))
    exe = os.path.join(out, "world")
    san = [f for f in w["flags"] if f.startswith("-fsanitize=")]
    # (the world's units first: of functions that exist in several objects the instrumented copy is taken)
    units = jobs[len(w["sim"]):]
    if any("-DPLUGIN" in f for _, f, _ in units):
        # units with -DPLUGIN are a shared object of their own, together with those that are shared with the program
        lib = [os.path.join(out, o) for _, f, o in units if "-DPLUGIN" in f or "-DSHARED" in f]
        r = run([CXX] + san + ["-shared", "-Wl,-Bsymbolic"] + lib + ["-o", os.path.join(out, "plugin.so")], cwd=HERE)
        if r.returncode:
            die("check: link failed: plugin.so\n%s" % r.stdout[-6000:])
    objs = [os.path.join(out, o) for _, f, o in units + jobs[:len(w["sim"])] if "-DPLUGIN" not in f]
    # (linked as C: the race detector's C++ part would bring its own operator new)
    cmd = (["clang"] if "-fsanitize=thread" in san else [CXX]) + san + objs + w["link"] + ["-o", exe]
    r = run(cmd, cwd=HERE)
    if r.returncode:
        die("check: link failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return exe


def known(pid):
    """Lines 'known: property=<id> signature=<regex> what=<text>' of known_findings.txt."""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) signature=/(.*)/ what=(.*)", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def merged(a, b):
    """The reports of two searches as one: counts are added, anything else is taken from the second."""
    last = ("rc", "violating_run", "original_choices", "minimal_choices", "minimise_tries", "workers")
    if isinstance(a, dict):
        return {k: merged(a[k], b[k]) if k in a and k in b and k not in last else b.get(k, a.get(k)) for k in {**a, **b}}
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        return a + b
    return b


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "quick" in sys.argv[2:]:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    w = WORLDS[pid]
    out = os.path.join(HERE, "build", pid)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    replay = os.path.join(HERE, "replays", pid + ".replay")
    if os.path.exists(replay):
        os.remove(replay)
    runs, secs = (w["quick"], w["quick_secs"]) if tier == "quick" else (w["thorough"], 600)
    # Worlds whose types are drawn: the thorough search draws several programs.
    draws = w["programs"] if tier == "thorough" else 1
    d, t_build = None, 0
    for k in range(draws):
        t1 = time.time()
        try:
            exe = build(pid, out, seed + 1000 * k)
        except NotBuilt as e:
            one = w["programs"] > 1 and not_accepted(pid, out, seed + 1000 * k, replay)
            if not one:
                die(str(e))
            r = None
            d = merged(d, one) if d else one
            break
        t_build += time.time() - t1
        report = os.path.join(out, "report.json")
        cmd = [exe, "--seed", str(seed), "--runs", str(runs), "--secs", str(secs // draws), "--workers", str(os.cpu_count() or 4), "--tier", tier,
               "--out", report, "--save", replay]
        r = run(cmd, cwd=out, timeout=secs + 240)
        if r.returncode not in (0, 1) or not os.path.exists(report):
            die("check: the simulator ended with %s\n%s" % (r.returncode, r.stdout[-4000:]))
        one = json.load(open(report))
        d = merged(d, one) if d else one
        if r.returncode == 1:
            break
    violations = 0
    rc = 0
    if r is None:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        violations = rc = 1
    elif r.returncode == 1:
        g = run([exe, "--replay", replay], cwd=out, timeout=120)
        if g.returncode != 1:
            die("check: the replay file does not reproduce (%s)\n%s" % (g.returncode, g.stdout[-4000:]))
        print("class %s: %s" % (d["class"], d["detail"][:2000]))
        pcs = re.findall(r"pc:(0x[0-9a-f]+)", d["detail"])
        if pcs:  # where the accesses of a data race are
            a = run(["addr2line", "-Cpfe", exe] + [hex(int(p, 16) - 1) for p in pcs]).stdout
            print(a)
            with open(replay, "a") as f:
                f.write("--- code addresses\n" + a)
        if w["programs"] > 1:
            with open(replay, "a") as f:
                f.write("--- built with draw %d of the application's types\n" % (seed + 1000 * k))
        print("found in run %d of seed %d; %d choices minimised to %d" % (d["violating_run"], seed, d["original_choices"], d["minimal_choices"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        violations = 1
        rc = 1
    hours = max(d["search_s"], 1e-3) / 3600
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": d["runs"], "distinct_nontrivial": d["distinct_nontrivial"], "rule": d["rule"], "samples": d["samples"],
            "nontrivial_runs": d["nontrivial"], "requested_runs": d["requested"],
            "simulated_runs_per_hour": int(d["runs"] / hours), "seeds_per_hour": int(d["runs"] / hours),
            "simulated_time": "the library has no clock; %d simulated steps" % d["steps"],
            "steps": d["steps"], "choices_drawn": d["draws"], "events_logged": d["events"],
            "faults_injected": d["faults"], "rare_conditions_hit": d["probes"],
            "distinct_states": d["states"], "distinct_interleavings": d["interleavings"],
            "state_measure": "hash of the world's state (document, text, plan) recorded by the world; interleavings: hash of the context-switch sequence",
            "workers": d["workers"], "search_s": d["search_s"], "build_s": round(t_build, 1), "unreproducible_sightings": d["unreproducible"],
            "components_real": REAL, "components_stubbed": w["stubs"],
        },
        "assumptions": ASSUMPTIONS + w["assumptions"],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for sig, what in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if rc == 0:
        print("%s held: %d runs, %d distinct non-trivial, %d steps in %.1f s (%s)" % (pid, d["runs"], d["distinct_nontrivial"], d["steps"], d["search_s"], tier))
    return rc


sys.exit(main())
