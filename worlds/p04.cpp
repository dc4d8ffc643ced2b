// C04: a failed read is never reported as a document.
#include "bridge.hpp"
#include "load.hpp"

#include <cerrno>

using namespace sim;
using ref::Dialect;
using ref::RV;

namespace
{
using Opt = std::optional<RV>;

// Content chosen so that parts of it are documents themselves: a half-read source must not pass for a whole one.
std::string content(Dialect d)
{
    ref::Gen g;
    g.max_nodes = pick(2, 6, 20);
    g.long_strings = draw(2);
    g.huge = chance(1, 12);
    RV m = ref::gen(g);
    std::string t = draw(3) ? ref::write(m, d) : bridge::plain(m).format(2);
    switch (draw(6)) {
    case 0:
        t += std::string(1 + draw(40), ' ') + "]"; // a document followed by garbage
        break;
    case 1:
        t += "\n" + ref::compact(m);
        break;
    case 2:
        t += std::string(draw(5000), '\n');
        break;
    case 3:
        t += std::string(draw(40), ' ') + std::string(1 + draw(4), '\0');
        break;
    default:
        break;
    }
    return t;
}

void judge(const load::Result& r, const std::vector<std::pair<const char*, Opt>>& allowed, bool must_load, const std::string& what)
{
    if (!r) {
        if (must_load && allowed[0].second) {
            violate("refused", what + ": nothing was wrong with the source but loading failed");
        }
        return;
    }
    RV got = bridge::read(*r);
    for (auto& [name, a] : allowed) {
        if (a && *a == got) {
            return;
        }
    }
    violate("wrong-document", what + ": loading returned " + ref::show(got) + ", which the complete content does not denote");
}

void stream_case()
{
    Dialect d = draw(2) ? Dialect::Jsonc : Dialect::Strict;
    bool bom = draw(3) == 0;
    std::string text = content(d);
    if (bom && draw(2)) {
        text = load::BOM + text;
    }
    auto denote = [&](const std::string& t) { return ref::parse(bom && t.compare(0, 3, load::BOM) == 0 ? t.substr(3) : t, d); };
    simio::In in(text);
    in.chunk = pick(1, 3, 16, 64, 512, 8192);
    in.direct = draw(2);
    std::vector<std::pair<const char*, Opt>> allowed { { "complete", denote(text) } };
    bool faulty = true;
    bool exceptions = false;
    uint64_t kind = draw(11);
    const char* name = "none";
    switch (kind) {
    case 0:
        faulty = false;
        break;
    case 1:
        in.seekable = false;
        in.throw_on_seek = draw(2);
        name = "source cannot be positioned";
        break;
    case 2:
        in.fail_end = true;
        in.throw_on_seek = draw(2);
        name = "positioning to the end fails";
        break;
    case 3:
        in.fail_tell = true;
        in.throw_on_seek = draw(2);
        name = "size cannot be measured";
        break;
    case 4:
        in.fail_beg = true;
        in.throw_on_seek = draw(2);
        name = "positioning to the beginning fails";
        break;
    case 5:
    case 6:
        in.error_at = draw(text.size() + 1);
        name = "device error";
        break;
    case 7: {
        in.error_at = draw(text.size() + 1);
        in.error_throws = false;
        allowed.push_back({ "what was delivered", denote(text.substr(0, in.error_at)) });
        name = "source ends early";
        break;
    }
    case 8: {
        in.changed = text.substr(0, draw(text.size() + 1));
        in.change_after = draw(8);
        name = "source shrinks during the load";
        break;
    }
    case 9: {
        in.changed = text + (draw(2) ? std::string(1 + draw(30), ' ') : draw(2) ? "]" : ",1]" + text);
        in.change_after = draw(8);
        name = "source grows during the load";
        break;
    }
    default:
        name = "stream already failed";
        break;
    }
    in.start(draw(text.size() + 1));
    std::istream is(&in);
    if (kind == 10) {
        is.setstate(draw(2) ? std::ios::failbit : std::ios::badbit);
    }
    else {
        switch (draw(5)) {
        case 0:
            is.setstate(std::ios::eofbit);
            probe("stream at end-of-file before the load");
            break;
        case 1:
            if (kind == 0) {
                is.ignore(static_cast<std::streamsize>(text.size()) + 5);
                probe("stream read to its end before the load");
            }
            break;
        default:
            break;
        }
    }
    if (faulty && draw(6) == 0 && kind != 10) {
        is.exceptions(std::ios::badbit);
        exceptions = true;
    }
    note("stream: %s chunk=%zu direct=%d bom=%d error_at=%zu change_after=%zu", name, in.chunk, in.direct, bom, in.error_at, in.change_after);
    note_bytes("content", text);
    load::Result r;
    try {
        r = json::parse(is, bom, d == Dialect::Jsonc);
    }
    catch (const std::exception& e) {
        if (!exceptions) {
            violate("throws", std::string(name) + ": loading threw (" + typeid(e).name() + ") although the caller enabled no exceptions");
        }
        note("threw as the caller asked");
        probe("exception the caller asked for");
    }
    step(1 + in.refills);
    bool fired = in.hit_error || in.hit_seek_error || in.hit_change || kind == 10;
    if (fired) {
        fault(name);
        nontrivial();
    }
    note("-> %d fired=%d", r.has_value(), fired);
    if (fired) {
        sample(std::string("stream, ") + name + (in.error_at != SIZE_MAX ? " at byte " + std::to_string(in.error_at) : "") + ", chunk " + std::to_string(in.chunk)
               + ", content " + sim::show(text, 60) + " -> " + (r ? "document" : "nothing"));
    }
    if (in.hit_error && in.error_throws && in.error_at < text.size()) {
        allowed.clear(); // the complete content was never seen
        allowed.push_back({ "nothing", std::nullopt });
        if (r) {
            // a part may be a document, the whole cannot be known
            violate("wrong-document", std::string(name) + ": the source failed at byte " + std::to_string(in.error_at) + " of " + std::to_string(text.size())
                                          + " but loading returned " + ref::show(bridge::read(*r)));
        }
        return;
    }
    if (kind == 8 || kind == 9) {
        allowed.push_back({ "after", denote(in.changed) });
    }
    judge(r, allowed, !fired, name);
    state(mix(sim::hash_str(text), mix(kind, in.error_at)));
}

void file_case()
{
    Dialect d = draw(2) ? Dialect::Jsonc : Dialect::Strict;
    bool bom = draw(3) == 0;
    std::string text = content(d);
    auto denote = [&](const std::string& t) { return ref::parse(bom && t.compare(0, 3, load::BOM) == 0 ? t.substr(3) : t, d); };
    std::vector<std::pair<const char*, Opt>> allowed { { "complete", denote(text) } };
    simio::MemFile f;
    f.put(text);
    std::string path = f.path();
    simio::sys = {};
    simio::sys.max_read = pick(SIZE_MAX, 1, 7, 512, 4096);
    if (text.size() > 2000 && simio::sys.max_read < 512) {
        simio::sys.max_read = 512;
    }
    simio::sys.eintr_every = pick(0, 2, 5);
    uint64_t kind = draw(7);
    const char* name = "none";
    switch (kind) {
    case 1:
        path = "/nonexistent-directory/x.json";
        allowed = { { "nothing", std::nullopt } };
        name = "file cannot be opened";
        break;
    case 2:
        path = draw(2) ? "/" : "/proc/self";
        allowed = { { "nothing", std::nullopt } };
        name = "path is a directory";
        break;
    case 3:
        simio::sys.read_error_at = draw(text.size() + 1);
        simio::sys.read_errno = draw(2) ? EIO : EBADF;
        name = "read error (EIO)";
        break;
    case 4:
        simio::sys.seek_fails = true;
        name = "file cannot be positioned (ESPIPE)";
        break;
    case 5:
        simio::sys.truncate_at_read = draw(3);
        simio::sys.truncate_to = draw(text.size() + 1);
        name = "file truncated during the load";
        break;
    default:
        break;
    }
    note("file: %s max_read=%zu eintr_every=%llu", name, simio::sys.max_read, (unsigned long long)simio::sys.eintr_every);
    note_bytes("content", text);
    load::Result r;
    simio::sys.on = true;
    try {
        r = json::open(path, bom, d == Dialect::Jsonc);
    }
    catch (const std::exception& e) {
        simio::sys.on = false;
        violate("throws", std::string(name) + ": json::open threw " + typeid(e).name());
    }
    simio::sys.on = false;
    step(1 + simio::sys.reads);
    bool fired = simio::sys.errors || simio::sys.cuts || kind == 1 || kind == 2;
    if (fired) {
        fault(name);
        nontrivial();
    }
    if (fired) {
        sample(std::string("file, ") + name + ", content " + sim::show(text, 60) + " -> " + (r ? "document" : "nothing"));
    }
    fault("EINTR on read", simio::sys.eintrs);
    fault("short read", simio::sys.short_reads);
    note("-> %d fired=%d reads=%llu", r.has_value(), fired, (unsigned long long)simio::sys.reads);
    if (kind == 3 && simio::sys.errors && simio::sys.read_error_at < text.size()) {
        SIM_CHECK(!r, "wrong-document", "reading failed at byte " + std::to_string(simio::sys.read_error_at) + " but json::open returned "
                                            + ref::show(bridge::read(*r)));
        return;
    }
    if (kind == 5) {
        allowed.push_back({ "after", denote(text.substr(0, simio::sys.truncate_to)) });
    }
    judge(r, allowed, !fired, name);
    state(mix(sim::hash_str(text), mix(kind + 100, simio::sys.read_error_at)));
}

void run()
{
    if (draw(3) == 0) {
        file_case();
    }
    else {
        stream_case();
    }
}
} // namespace

const sim::World sim::world { "C04",
                              "each run draws a source (simulated stream or file behind std::ifstream), content whose parts are often "
                              "documents themselves, transfer sizes, a start position and at most one failure (cannot open, position or "
                              "measure; device error, early end, shrinking or growing content, directory, failed stream); non-trivial: the "
                              "failure fired during the load",
                              run, true, 128 };
