"""What each check builds and how long it searches."""
import sys

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
BASE = ["-std=c++17", "-O1", "-gline-tables-only"]
SIM = ["sim/core.cpp", "sim/ref.cpp", "sim/sysio.cpp"]
# Threads: race detector, a callback at every basic block, load and store, and everything of the standard library that is a
# template compiled that way, too. The scheduler and the model are built without.
TSAN = ["-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS"]
# Steps: a callback at every basic block, also of the standard library's templates.
STEPS = ["-fsanitize-coverage=trace-pc-guard", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-fno-builtin-memcpy"]
# Stack: what a release build needs, and every page of a large frame is touched.
STACK = ["-O2", "-fstack-clash-protection", "-D_GLIBCXX_ASSERTIONS"]
WRAP = ["__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
        "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once", "sched_yield"]
WRAP += ["__tsan_atomic%d_%s" % (b, op) for b in (8, 16, 32, 64) for op in ("exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor",
                                                                              "compare_exchange_strong", "compare_exchange_weak")]

REAL = ["meojson headers from /repo/include (unmodified, sanitised build)", "libstdc++ iostreams, containers and number formatting"]


def world(src, quick, stubs, runs_secs=60, thorough=20000000, extra=(), flags=ASAN, link=(), assumptions=(), prepare=(), sim=SIM, programs=1):
    return {"sim": list(sim), "units": [(src, [])] + list(extra), "flags": flags, "link": list(link), "quick": quick, "quick_secs": runs_secs,
            "thorough": thorough, "stubs": stubs, "prepare": list(prepare), "assumptions": list(assumptions), "programs": programs}


STREAM = "stream devices: simulated std::streambuf"
DISK = "disk: anonymous memory file behind interposed read/write/writev/lseek"
ALLOC = "operator new/delete: counting allocator of the simulator"

def p05(name, *flags):
    return ("worlds/p05_variant.cpp", ["-DVARIANT=" + name, "-Djson=json_" + name, "-Dbridge=bridge_" + name] + list(flags))


LOCALES = ["de_DE.UTF-8", "fr_FR.UTF-8", "ps_AF.UTF-8", "tr_TR.ISO-8859-9", "hi_IN.UTF-8"]

# A second configuration of the library in the same program: everything that depends on it gets other names.
KEEP = ["-DMEOJSON_KEEP_FLOATING_PRECISION"] + ["-D%s=%s_keep" % (n, n) for n in ("json", "typed", "app", "bridge")]

NUM = ["-DMEOJSON_ENUM_AS_NUMBER", "-DMEOJSON_KEEP_FLOATING_PRECISION"] + ["-D%s=%s_num" % (n, n) for n in ("json", "typed", "app", "bridge")]

THREADS_STUBS = ["thread scheduling: real threads, one at a time, chosen by the simulator", "locks and static-initialisation guards: entered only when free", ALLOC]
THREADS_LINK = ["-Wl,--wrap=" + w for w in WRAP] + ["-pthread", "-lstdc++", "-lm"]
THREADS_SIM = ["sim/core.cpp", "sim/ref.cpp", "sim/sched.cpp"]
THREADS_UNITS = [("worlds/threads_types.cpp", [])] + [("worlds/threads_typed.cpp", ["-DCHUNK=%d" % i]) for i in range(8)]

# Types drawn by generate.py. Two programs use them: one that receives messages, and one that is restarted.
def draw(kind):
    return [sys.executable, "sim/generate.py", kind, "{seed}", "{out}/drawn.hpp"]


def drawn(limit="steps"):
    return ["-DGENERATED=<drawn.hpp>", "-I{out}", "-fconstexpr-%s=200000000" % limit]


NUM_ALL = ["-DMEOJSON_ENUM_AS_NUMBER"] + ["-D%s=%s_num" % (n, n) for n in ("json", "typed", "app", "bridge", "load", "forms")]
DRAWN = [("worlds/p14_typed.cpp", ["-DCHUNK=%d" % i]) for i in range(8)]
DRAWN += [("worlds/p12_typed.cpp", ["-DCHUNK=%d" % i, "-Duniverse=universe_r"]) for i in range(8)]
DRAWN += [("worlds/restart.cpp", ["-Duniverse=universe_r"])]
DRAWN_STUBS = [ALLOC, DISK, "peer and wire: messages drawn, changed, damaged, duplicated and reordered by the simulator",
               "process crash: the program's state is dropped, only stored bytes remain"]
PLAIN = ["-O0", "-D_GLIBCXX_ASSERTIONS"]  # (many types: built without sanitizers)

WORLDS = {
    "C01": world("worlds/p01.cpp", 150000, [STREAM, DISK, ALLOC]),
    "C02": world("worlds/p02.cpp", 150000, [STREAM, DISK, ALLOC]),
    "C03": world("worlds/p03.cpp", 800000, [STREAM, DISK, ALLOC, "storage damage: applied to the stored bytes by the simulator"]),
    "C04": world("worlds/p04.cpp", 500000, [STREAM, DISK, ALLOC]),
    "C05": world("worlds/p05.cpp", 400000, ["memory placement: pages arranged by the simulator", ALLOC],
                 extra=[p05("none17", "-DMEOJSON_DISABLE_PACKED_BYTES"), p05("sse2_17", "-DHAS_SSE"), p05("sse41_17", "-DHAS_SSE", "-msse4.1"),
                        p05("avx2_17", "-DHAS_SSE", "-DHAS_AVX2", "-mavx2"), p05("avx2_20", "-DHAS_SSE", "-DHAS_AVX2", "-mavx2", "-std=c++20"),
                        p05("sse2_20", "-DHAS_SSE", "-std=c++20")],
                 assumptions=["ARM vector paths are not reachable on this machine"]),
    "C06": world("worlds/p06.cpp", 400000, [ALLOC, STREAM, DISK], extra=[("worlds/p06_typed.cpp", ["-DCHUNK=%d" % i] + KEEP * (i % 2)) for i in range(8)]),
    "C07": world("worlds/p07.cpp", 200000, [ALLOC]),
    "C08": world("worlds/p08.cpp", 300000, [ALLOC], extra=[("worlds/p08_typed.cpp", ["-DCHUNK=%d" % i]) for i in range(8)]),
    "C09": world("worlds/p09.cpp", 400000, THREADS_STUBS, flags=TSAN, link=THREADS_LINK, sim=THREADS_SIM, extra=THREADS_UNITS),
    "C10": world("worlds/p10.cpp", 400000, THREADS_STUBS, flags=TSAN, link=THREADS_LINK, sim=THREADS_SIM, extra=THREADS_UNITS),
    "C11": world("worlds/p11.cpp", 400000, [ALLOC, "conversion hooks of the application: fail when the simulator says so"],
                 extra=[("worlds/p11_typed.cpp", ["-DCHUNK=%d" % i]) for i in range(8)]),
    "C12": world("worlds/p12.cpp", 200000, [DISK, ALLOC, "process crash: the program's state is dropped, only stored bytes remain"],
                 flags=ASAN + ["-DMEOJSON_FS_PATH_EXTENSION"],
                 extra=[("worlds/p12_typed.cpp", ["-DCHUNK=%d" % i] + [[], KEEP, [], NUM][i % 4]) for i in range(8)]),
    "C13": world("worlds/p13.cpp", 200000, [ALLOC, "ambient C, C++ and thread locale: set and changed by the simulator", STREAM],
                 flags=ASAN + ["-DMEOJSON_FS_PATH_EXTENSION"],
                 prepare=[["localedef", "-i", l.split(".")[0], "-f", l.split(".")[1], "{out}/locale/" + l] for l in LOCALES],
                 extra=[("worlds/p13_typed.cpp", ["-DCHUNK=%d" % i] + KEEP * (i % 2)) for i in range(8)]),
    "C14": world("worlds/p14.cpp", 400000, [ALLOC, "peer and wire: messages drawn, changed, damaged, duplicated and reordered by the simulator"],
                 flags=ASAN + ["-DMEOJSON_FS_PATH_EXTENSION"],
                 extra=[("worlds/p14_typed.cpp", ["-DCHUNK=%d" % i]) for i in range(8)]),
    "C15": world("worlds/p15.cpp", 200000, DRAWN_STUBS, flags=PLAIN + drawn(), prepare=[draw("enums")], programs=4,
                 extra=[(s, f + NUM_ALL * (i % 4 == 3)) for i, (s, f) in enumerate(DRAWN)]
                 + [("worlds/p15_gcc.cpp", ["RAW", "GXX", "-std=c++17", "-O1", "-g", "-Djson=json_gcc", "-Dtyped=typed_gcc", "-Dapp=app_gcc", "-Duniverse=universe_gcc"] + drawn("ops-limit"))]
                 + [("worlds/p15_enums.cpp", ["-DCHUNK=%d" % i]) for i in range(4)],
                 assumptions=["the drawn enums stand for the others"]),
    "C17": world("worlds/p17.cpp", 100000, DRAWN_STUBS, flags=PLAIN + drawn(), prepare=[draw("structs")], programs=4,
                 extra=DRAWN, assumptions=["the drawn structs stand for the others"]),
    "C20": world("worlds/p20.cpp", 100000, [STREAM, ALLOC, "functions of the application that the library calls: they use the library when the simulator says so"],
                 extra=[("worlds/p11_typed.cpp", ["-DCHUNK=%d" % i]) for i in range(8)] + THREADS_UNITS),
    "C21": world("worlds/p21.cpp", 100000, [ALLOC, "process: one per run, started, ended and loaded with a plug-in as the simulator says"],
                 flags=ASAN + ["-fPIC"], link=["-rdynamic", "-pthread", "-ldl"],
                 extra=[("worlds/p21_plugin.cpp", ["-DPLUGIN"])] + [(u, f + ["-DSHARED"]) for u, f in THREADS_UNITS]),
    "C22": world("worlds/p22.cpp", 200000, [ALLOC]),
    "C16": world("worlds/p16.cpp", 200000, [STREAM, ALLOC, "stack: a region of exactly the granted size in front of inaccessible memory"],
                 flags=STACK, sim=SIM[:2] + ["sim/stack.cpp"], link=["-Wl,-z,now"]),
    "C19": world("worlds/p19.cpp", 200000, [STREAM, ALLOC, "step counter: a callback at every basic block, counting memory and string functions"],
                 flags=STEPS, sim=SIM[:2] + ["sim/steps.cpp"]),
}
ASSUMPTIONS = [
    "bounded sampling: a clean search is evidence, not proof",
    "the reference model, parser and writer in sim/ref.cpp state the intended behaviour correctly",
    "libstdc++, the compiler and the sanitizers behave as documented",
]
