// C05: loading depends on the bytes alone.
#include "p05.hpp"

#include <cstring>
#include <sys/mman.h>

using namespace sim;
using ref::Dialect;
using ref::RV;

namespace
{
constexpr size_t Page = 4096;
constexpr size_t Room = 24 * Page;

// Readable bytes between two inaccessible pages.
struct Arena
{
    char* base;
    Arena()
    {
        void* p = mmap(reinterpret_cast<void*>(0x10000000000), Room + 2 * Page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            abort();
        }
        base = static_cast<char*>(p) + Page;
        open();
    }
    void open() { mprotect(base, Room, PROT_READ | PROT_WRITE); }
    void close() { mprotect(base, Room, PROT_NONE); }
};
Arena& arena()
{
    static Arena a;
    return a;
}
enum class After
{
    Keep,
    Overwrite,
    Unmap
};
After g_after;
size_t g_from, g_to;

void gone()
{
    if (g_after == After::Overwrite) {
        memset(arena().base + g_from, 0x5a, g_to - g_from);
    }
    else if (g_after == After::Unmap) {
        arena().close();
    }
}

// Text made of one or two string literals whose interesting bytes sit anywhere relative to the vector steps.
std::string literal_text()
{
    std::string t = std::string(draw(9), ' ') + (draw(2) ? "[\"" : "{\"");
    bool obj = t.back() == '"' && t[t.size() - 2] == '{';
    size_t n = pick(0, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100);
    n += draw(9);
    std::string body(n, "a\x7f\x80\xff z"[draw(6)]);
    size_t k = draw(4);
    for (size_t i = 0; i < k && n; ++i) {
        size_t at = draw(n);
        static constexpr std::string_view bits[] = {
            "\"",      "\\\"",   "\\\\",     "\\",     "\n",   "\t",   "\x1f",    std::string_view("\0", 1), "\x01",
            "\x20",    "!",      "#",        "[",      "]",    "\x7f", "\x80",    "\xff",               "\\u0000",
            "\\ud83d", "\\ude00", "\\ud83d\\ude00", "\\n", "\\/", "\\u12", "\x1f\x9f", "\xa2\xdc",         "\x9f"
        };
        const std::string_view b = bits[draw(std::size(bits))];
        body.replace(at, std::min(b.size(), n - at), b);
    }
    t += body;
    switch (draw(6)) {
    case 0:
        break; // unterminated
    case 1:
        t += "\"";
        break;
    default:
        t += obj ? "\":0}" : "\"]";
        break;
    }
    return t;
}

std::string text()
{
    if (draw(2)) {
        return literal_text();
    }
    ref::Gen g;
    g.max_nodes = pick(2, 6, 16, 40);
    g.huge = chance(1, 12);
    std::string t = ref::write(ref::gen(g), draw(2) ? Dialect::Jsonc : Dialect::Strict);
    switch (draw(6)) {
    case 0:
        t.resize(draw(t.size() + 1));
        break;
    case 1:
        if (!t.empty()) {
            size_t at = draw(t.size());
            t[at] = static_cast<char>(t[at] ^ (1 << draw(8)));
        }
        break;
    default:
        break;
    }
    return t;
}

void run()
{
    static const p05::Variant* const variants[] = { &p05::none17, &p05::sse2_17, &p05::sse41_17, &p05::avx2_17, &p05::avx2_20, &p05::sse2_20 };
    std::string t = text();
    if (t.size() > Room - 200) {
        t.resize(Room - 200);
    }
    bool jsonc = draw(2);
    auto want = ref::parse(t, jsonc ? Dialect::Jsonc : Dialect::Strict);
    note_bytes("text", t);
    note("dialect %s, reference %s", jsonc ? "jsonc" : "strict", want ? "document" : "nothing");
    size_t rounds = 1 + draw(5);
    for (size_t i = 0; i < rounds; ++i) {
        const p05::Variant* v = variants[draw(6)];
        if (!v->usable()) {
            probe("variant skipped: not supported by this CPU");
            continue;
        }
        int way = static_cast<int>(draw(static_cast<uint64_t>(v->n_ways)));
        Arena& a = arena();
        a.open();
        size_t at = 0;
        const char* where = "";
        switch (draw(3)) {
        case 0:
            at = Room - t.size();
            where = "against the upper guard page";
            fault("placed against the upper guard page");
            break;
        case 1:
            at = 0;
            where = "against the lower guard page";
            fault("placed against the lower guard page");
            break;
        default:
            at = 64 + draw(64);
            where = "between neighbours";
            fault("placed between neighbouring bytes");
            break;
        }
        // neighbours that would change the meaning if they were read
        static const char* const pats[] = { "\"", "\\", "]", "}", "1", "/", "\n", "a", ",", "\xff", "\\ude00", "e5", "*/" };
        const char* pat = pats[draw(13)];
        size_t from = at > 64 ? at - 64 : 0;
        size_t to = std::min(Room, at + t.size() + 64);
        for (size_t j = from, k = 0; j < to; ++j) {
            a.base[j] = pat[k++ % strlen(pat)];
        }
        memcpy(a.base + at, t.data(), t.size());
        g_after = static_cast<After>(draw(3));
        g_from = from;
        g_to = to;
        note("build %s, %s, %s at %zu, neighbours '%s', then %s", v->name, v->way_name(way), where, at, pat,
             g_after == After::Keep ? "kept" : g_after == After::Overwrite ? "overwritten" : "unmapped");
        if (g_after != After::Keep) {
            fault(g_after == After::Overwrite ? "input overwritten after the load" : "input unmapped after the load");
        }
        auto got = v->load(a.base + at, t.size(), jsonc, way, gone);
        step();
        if (got.has_value() != want.has_value() || (got && *got != *want)) {
            violate("depends-on-more-than-bytes", std::string("build ") + v->name + ", " + v->way_name(way) + ", " + where + ": loaded "
                                                      + (got ? ref::show(*got) : "nothing") + " but the bytes denote " + (want ? ref::show(*want) : "nothing") + ": "
                                                      + show(t));
        }
        state(mix(sim::hash_str(t), mix(sim::hash_str(v->name), static_cast<uint64_t>(way) * 3 + static_cast<uint64_t>(g_after))));
    }
    nontrivial();
    sample("text " + show(t, 120) + (jsonc ? " (jsonc)" : " (strict)") + " -> " + (want ? "document" : "nothing") + ", " + std::to_string(rounds) + " placements");
}
} // namespace

const sim::World sim::world { "C05",
                              "each run draws a text (whole or damaged document, or a literal with special bytes around vector-step "
                              "boundaries) and loads it through drawn combinations of build configuration (64-bit, SSE2, SSE4.1, AVX2; C++17/20), "
                              "container or explicit acceleration path, memory placement (against guard pages, between hostile neighbours) and "
                              "fate of the input afterwards (kept, overwritten, unmapped); every result must equal the reference parser's; every "
                              "run is non-trivial (distinct text and plan)",
                              run, true, 128 };
