// The ways a program can hand bytes to the library.
#pragma once
#include <json.hpp>

#include "io.hpp"
#include "ref.hpp"

#include <deque>
#include <filesystem>
#include <fstream>
#include <istream>
#include <list>
#include <memory>
#include <sstream>

namespace load
{
using Result = std::optional<json::value>;
using ref::Dialect;

template <typename C>
Result text(const C& c, Dialect d)
{
    return d == Dialect::Jsonc ? json::parsec(c) : json::parse(c);
}

// Bytes in a heap block of exactly their size, so that any access outside them is seen.
struct Exact
{
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
    std::string_view view() const { return { p.get(), n }; }
};

inline const char* const memory_names[] = { "string", "exact-view", "vector<char>", "vector<uchar>", "cstring", "deque", "offset-view" };
// `how` in [0,7). For the C-string form the text must not contain NUL (callers fall back to form 0).
inline Result memory(const std::string& s, Dialect d, uint64_t how)
{
    switch (how) {
    case 1: {
        Exact e(s);
        return text(e.view(), d);
    }
    case 2:
        return text(std::vector<char>(s.begin(), s.end()), d);
    case 3:
        return text(std::vector<unsigned char>(s.begin(), s.end()), d);
    case 4:
        if (s.find('\0') == std::string::npos) {
            return text(s.c_str(), d);
        }
        return text(s, d);
    case 5:
        return text(std::deque<char>(s.begin(), s.end()), d);
    case 6: {
        std::string padded = "\"\\{[" + s + "\"]}\\ ";
        return text(std::string_view(padded).substr(4, s.size()), d);
    }
    default:
        return text(s, d);
    }
}

// A healthy simulated stream: drawn refill size, buffered or direct, positioned anywhere.
inline Result stream(const std::string& s, Dialect d, bool bom)
{
    simio::In in(s);
    in.chunk = sim::pick(1, 2, 3, 7, 16, 64, 512, 4096, 8192);
    in.direct = sim::draw(2);
    if (sim::draw(3) == 0) {
        in.start(sim::draw(s.size() + 1));
    }
    std::istream is(&in);
    switch (sim::draw(4)) {
    case 1:
        if (is.rdbuf()->sgetc() != std::char_traits<char>::eof()) {
            is.get(); // (reading at the very end would leave the stream failed, which a load reports)
            sim::probe("load: stream already read from");
        }
        break;
    case 2:
        is.ignore(1 << 20);
        sim::probe("load: stream at end of file");
        break;
    default:
        break;
    }
    Result r = json::parse(is, bom, d == Dialect::Jsonc);
    if (in.refills > 2) {
        sim::fault("split transfer (stream refills)", in.refills);
    }
    sim::note("stream load chunk=%zu direct=%d refills=%llu", in.chunk, in.direct, (unsigned long long)in.refills);
    return r;
}

inline Result string_stream(const std::string& s, Dialect d, bool bom)
{
    std::istringstream is(s);
    std::istream& i = is;
    return json::parse(i, bom, d == Dialect::Jsonc);
}

// A real file behind std::ifstream, with short reads and interrupted calls.
inline Result file(const std::string& s, Dialect d, bool bom)
{
    simio::MemFile f;
    f.put(s);
    std::string path = f.path();
    simio::sys = {};
    simio::sys.max_read = sim::pick(SIZE_MAX, 1, 2, 5, 64, 1000, 4096);
    if (s.size() > 4000 && simio::sys.max_read < 64) {
        simio::sys.max_read = 64;
    }
    simio::sys.eintr_every = sim::pick(0, 0, 2, 3, 5);
    uint64_t form = sim::draw(3);
    simio::sys.on = true;
    Result r = form == 0   ? json::open(path, bom, d == Dialect::Jsonc)
               : form == 1 ? json::open(path.c_str(), bom, d == Dialect::Jsonc)
                           : json::open(std::filesystem::path(path), bom, d == Dialect::Jsonc);
    simio::sys.on = false;
    sim::fault("EINTR on read", simio::sys.eintrs);
    sim::fault("short read", simio::sys.short_reads);
    sim::note("file load max_read=%zu eintr=%llu", simio::sys.max_read, (unsigned long long)simio::sys.eintrs);
    return r;
}

inline const std::string BOM = "\xEF\xBB\xBF";
} // namespace load
