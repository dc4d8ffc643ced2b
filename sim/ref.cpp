#include "ref.hpp"

#include <algorithm>
#include <cstring>

namespace ref
{
using sim::chance;
using sim::draw;
using sim::range;

size_t RV::nodes() const
{
    size_t n = 1;
    for (auto& x : a) {
        n += x.nodes();
    }
    for (auto& [k_, x] : o) {
        n += x.nodes();
    }
    return n;
}

size_t RV::depth() const
{
    size_t d = 0;
    for (auto& x : a) {
        d = std::max(d, x.depth());
    }
    for (auto& [k_, x] : o) {
        d = std::max(d, x.depth());
    }
    return d + 1;
}

static void show_to(const RV& v, std::string& out, size_t max)
{
    if (out.size() > max) {
        return;
    }
    switch (v.k) {
    case K::Null:
        out += "null";
        break;
    case K::Bool:
    case K::Num:
        out += v.s;
        break;
    case K::Str:
        out += sim::show(v.s, 60);
        break;
    case K::Arr:
        out += '[';
        for (size_t i = 0; i < v.a.size(); ++i) {
            out += i ? "," : "";
            show_to(v.a[i], out, max);
        }
        out += ']';
        break;
    case K::Obj: {
        out += '{';
        bool first = true;
        for (auto& [k, x] : v.o) {
            out += first ? "" : ",";
            first = false;
            out += sim::show(k, 40) + ":";
            show_to(x, out, max);
        }
        out += '}';
        break;
    }
    }
}

std::string show(const RV& v, size_t max)
{
    std::string s;
    show_to(v, s, max);
    if (s.size() > max) {
        s.resize(max);
        s += "...";
    }
    return s;
}

uint64_t hash(const RV& v)
{
    uint64_t h = sim::mix(static_cast<uint64_t>(v.k) + 1, sim::hash_str(v.s));
    for (auto& x : v.a) {
        h = sim::mix(h, hash(x));
    }
    for (auto& [k, x] : v.o) {
        h = sim::mix(h, sim::hash_str(k));
        h = sim::mix(h, hash(x));
    }
    return h;
}

// ---------------------------------------------------------------- generator
bool unusual_sizes = true;
size_t gen_len(size_t max)
{
    size_t n = 0;
    switch (draw(8)) {
    case 0:
    case 1:
        n = draw(5);
        break;
    case 2:
        n = range(5, 10);
        break;
    case 3:
        n = range(14, 18); // SSO and SSE step
        break;
    case 4:
        n = range(30, 35); // AVX step
        break;
    case 5:
        n = range(46, 50);
        break;
    case 6:
        n = range(60, 68);
        break;
    default:
        n = draw(240);
        break;
    }
    return std::min(n, max);
}

static void append_utf8(std::string& r, uint32_t cp)
{
    if (cp < 0x80) {
        r += static_cast<char>(cp);
    }
    else if (cp < 0x800) {
        r += static_cast<char>(0xC0 | (cp >> 6));
        r += static_cast<char>(0x80 | (cp & 0x3F));
    }
    else if (cp < 0x10000) {
        r += static_cast<char>(0xE0 | (cp >> 12));
        r += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
        r += static_cast<char>(0x80 | (cp & 0x3F));
    }
    else {
        r += static_cast<char>(0xF0 | (cp >> 18));
        r += static_cast<char>(0x80 | ((cp >> 12) & 0x3F));
        r += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
        r += static_cast<char>(0x80 | (cp & 0x3F));
    }
}

static uint32_t gen_codepoint()
{
    static const uint32_t edge[] = { 0x7F,   0x80,   0x7FF,  0x800,   0xFFF,   0x1000,  0xD7FF, 0xE000,
                                     0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x2028, 0x2029 };
    if (chance(1, 2)) {
        return edge[draw(sizeof(edge) / sizeof(edge[0]))];
    }
    uint32_t cp = static_cast<uint32_t>(draw(0x110000 - 0x800));
    return cp >= 0xD800 ? cp + 0x800 : cp;
}

// A long string made from few choices: a filler with specials at drawn places.
static std::string gen_huge_string()
{
    static const size_t base[] = { 255, 512, 1023, 2047, 4095, 8191, 16383, 65535 };
    size_t n = (chance(1, 40) ? 300000 : base[draw(8)]) + draw(4);
    std::string r(n, static_cast<char>('a' + draw(26)));
    size_t specials = draw(5);
    for (size_t i = 0; i < specials; ++i) {
        static const char sp[] = "\"\\\n\x01/\x7f\xc3\t";
        r[draw(n)] = sp[draw(8)];
    }
    return r;
}

std::string gen_string(const Gen& g)
{
    if (unusual_sizes && g.long_strings && chance(1, g.huge ? 60 : 400)) {
        return gen_huge_string();
    }
    size_t n = gen_len(g.long_strings ? 240 : 20);
    uint64_t flavour = draw(6);
    std::string r;
    while (r.size() < n) {
        bool special = flavour == 0 ? false : flavour <= 3 ? chance(1, 12) : flavour == 4 ? chance(1, 3) : chance(9, 10);
        if (!special) {
            r += static_cast<char>('a' + draw(26));
            continue;
        }
        static const char esc[] = "\"\\/\b\f\n\r\t";
        switch (draw(6)) {
        case 0:
            r += '"';
            break;
        case 1:
            r += esc[draw(8)];
            break;
        case 2: {
            char c = static_cast<char>(draw(0x20));
            r += (c == 0 && !g.nul) ? '\x1f' : c;
            break;
        }
        case 3:
            append_utf8(r, gen_codepoint());
            break;
        case 4:
            r += "/[]{}:,'#*0 \x7f"[draw(13)];
            break;
        default:
            r += g.raw_bytes ? static_cast<char>(range(0x80, 0xFF)) : '\\';
            break;
        }
    }
    return r;
}

std::string gen_key(const Gen& g)
{
    static const char* common[] = { "a", "b", "c", "k", "key", "name", "", "0", "long_key_beyond_small_string" };
    if (chance(1, 4)) {
        return gen_string(g);
    }
    return common[draw(9)];
}

std::string gen_int_number()
{
    static const char* edge[] = { "0",          "1",          "-1",          "-0",         "127",
                                  "128",        "-128",       "-129",        "255",        "256",
                                  "32767",      "32768",      "65535",       "65536",      "2147483647",
                                  "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
                                  "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                                  "18446744073709551615", "18446744073709551616", "9007199254740993", "42", "7", "-32768", "-32769" };
    if (chance(1, 2)) {
        return edge[draw(sizeof(edge) / sizeof(edge[0]))];
    }
    std::string r = chance(1, 3) ? "-" : "";
    r += static_cast<char>('1' + draw(9));
    size_t n = draw(chance(1, 8) ? chance(1, 8) ? 330 : 40 : 9);
    for (size_t i = 0; i < n; ++i) {
        r += static_cast<char>('0' + draw(10));
    }
    return r;
}

std::string gen_number()
{
    if (chance(1, 2)) {
        return gen_int_number();
    }
    static const char* edge[] = { "0.0",     "-0.0",  "1.5",    "0.1",      "-2.25",   "1e5",    "1E5",      "1e+5",    "1E-7",
                                  "1e308",   "2e308", "1e400",  "5e-324",   "1e-310",  "1e-400", "1e-40",    "3.4e38",  "3.5e38",
                                  "0.1e1",   "0e0",   "123456.789", "1.0",  "100.000", "9007199254740993.0", "0.30000000000000004",
                                  "1.7976931348623157e308", "2.2250738585072014e-308", "1e-45" };
    if (chance(1, 2)) {
        return edge[draw(sizeof(edge) / sizeof(edge[0]))];
    }
    std::string r = chance(1, 3) ? "-" : "";
    auto digits = [&](size_t n) {
        for (size_t i = 0; i < n; ++i) {
            r += static_cast<char>('0' + draw(10));
        }
    };
    if (chance(1, 3)) {
        r += '0';
    }
    else {
        r += static_cast<char>('1' + draw(9));
        digits(draw(10));
    }
    bool frac = chance(2, 3);
    if (frac) {
        r += '.';
        digits(1 + draw(chance(1, 10) ? chance(1, 8) ? 900 : 80 : 12)); // (the longest ones need memory to be converted)
    }
    if (!frac || chance(1, 3)) {
        r += "eE"[draw(2)];
        uint64_t sgn = draw(3);
        if (sgn) {
            r += "+-"[sgn - 1];
        }
        digits(1 + draw(3));
    }
    return r;
}

static RV gen_node(const Gen& g, size_t depth, size_t& budget, bool force_container)
{
    if (budget > 0) {
        --budget;
    }
    uint64_t c = draw(10);
    bool container = force_container || (c >= 6 && depth < g.max_depth && budget > 0);
    if (!container) {
        switch (c) {
        case 0:
            return RV::null();
        case 1:
            return RV::boolean(draw(2));
        case 2:
        case 3:
            return RV::num(gen_number());
        default:
            return RV::str(gen_string(g));
        }
    }
    bool arr = c % 2 == 0;
    RV v = arr ? RV::arr() : RV::obj();
    size_t n = chance(1, 6) ? 0 : draw(std::min<size_t>(budget, 6) + 1);
    if (g.huge && chance(1, 80)) {
        // a wide or a deep container out of few choices
        size_t m = chance(1, 12) ? range(1000, 6000) : range(100, 700);
        if (chance(1, 2)) {
            for (size_t i = 0; i < m; ++i) {
                RV leaf = RV::num(std::to_string(i * 7919 % 1000));
                if (arr) {
                    v.a.push_back(leaf);
                }
                else {
                    v.o["w" + std::to_string(i)] = leaf;
                }
            }
        }
        else {
            RV cur = RV::num("0");
            for (size_t i = 0; i < m / 4; ++i) {
                RV up = (i * 31 + m) % 3 ? RV::arr() : RV::obj();
                if (up.k == K::Arr) {
                    up.a.push_back(std::move(cur));
                }
                else {
                    up.o["d"] = std::move(cur);
                }
                cur = std::move(up);
            }
            if (arr) {
                v.a.push_back(std::move(cur));
            }
            else {
                v.o["deep"] = std::move(cur);
            }
        }
    }
    if (unusual_sizes && chance(1, 50)) { // more children than usual, out of few choices
        const size_t m = range(7, 70), step = 1 + draw(40);
        for (size_t i = 0; i < m; ++i) {
            RV leaf = i % 5 == 3 ? RV::str("e" + std::to_string(i)) : RV::num(std::to_string(i * step % 97));
            if (arr) {
                v.a.push_back(std::move(leaf));
            }
            else {
                v.o["m" + std::to_string(i * step % 71)] = std::move(leaf);
            }
        }
    }
    for (size_t i = 0; i < n; ++i) {
        if (arr) {
            v.a.push_back(gen_node(g, depth + 1, budget, false));
        }
        else {
            std::string key = gen_key(g);
            v.o[key] = gen_node(g, depth + 1, budget, false);
        }
    }
    return v;
}

RV deepen(RV v, size_t levels)
{
    const size_t kind = draw(5); // mixed, only arrays, only objects
    for (size_t i = 0; i < levels; ++i) {
        RV up = kind == 4 || (kind < 3 && (i * 7 + kind) % 3 == 0) ? RV::obj() : RV::arr();
        if (up.k == K::Arr) {
            up.a.push_back(std::move(v));
        }
        else {
            up.o["d"] = std::move(v);
        }
        v = std::move(up);
    }
    return v;
}
RV gen(const Gen& g, bool container_root)
{
    size_t budget = 1 + draw(g.max_nodes);
    return gen_node(g, 0, budget, container_root);
}

// ---------------------------------------------------------------- reference parser
bool is_number_text(std::string_view t)
{
    size_t i = 0;
    auto digit = [&](size_t p) { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
    if (i < t.size() && t[i] == '-') {
        ++i;
    }
    if (!digit(i)) {
        return false;
    }
    if (t[i] == '0') {
        ++i;
    }
    else {
        while (digit(i)) {
            ++i;
        }
    }
    if (i < t.size() && t[i] == '.') {
        ++i;
        if (!digit(i)) {
            return false;
        }
        while (digit(i)) {
            ++i;
        }
    }
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
        ++i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) {
            ++i;
        }
        if (!digit(i)) {
            return false;
        }
        while (digit(i)) {
            ++i;
        }
    }
    return i == t.size();
}

namespace
{
struct Bad
{
};

struct P
{
    std::string_view t;
    Dialect d;
    size_t i = 0;

    bool at(char c) const { return i < t.size() && t[i] == c; }
    // Skips white space and comments; throws on a malformed comment.
    void ws()
    {
        for (;;) {
            if (at(' ') || at('\t') || at('\r') || at('\n')) {
                ++i;
            }
            else if (d == Dialect::Jsonc && at('/')) {
                if (t.substr(i, 2) == "//") {
                    size_t e = t.find('\n', i);
                    i = e == std::string_view::npos ? t.size() : e + 1;
                }
                else if (t.substr(i, 2) == "/*") {
                    size_t e = t.find("*/", i + 2);
                    if (e == std::string_view::npos) {
                        throw Bad {};
                    }
                    i = e + 2;
                }
                else {
                    throw Bad {};
                }
            }
            else {
                return;
            }
        }
    }
    void need(char c)
    {
        if (!at(c)) {
            throw Bad {};
        }
        ++i;
    }
    void word(std::string_view w)
    {
        if (t.substr(i, w.size()) != w) {
            throw Bad {};
        }
        i += w.size();
    }
    unsigned hex4()
    {
        if (i + 4 > t.size()) {
            throw Bad {};
        }
        unsigned v = 0;
        for (int n = 0; n < 4; ++n, ++i) {
            char c = t[i];
            unsigned x;
            if (c >= '0' && c <= '9') {
                x = c - '0';
            }
            else if (c >= 'a' && c <= 'f') {
                x = c - 'a' + 10;
            }
            else if (c >= 'A' && c <= 'F') {
                x = c - 'A' + 10;
            }
            else {
                throw Bad {};
            }
            v = v * 16 + x;
        }
        return v;
    }
    std::string string()
    {
        need('"');
        std::string r;
        for (;;) {
            if (i >= t.size()) {
                throw Bad {};
            }
            unsigned char c = t[i];
            if (c == '"') {
                ++i;
                return r;
            }
            if (c < 0x20) {
                throw Bad {};
            }
            if (c != '\\') {
                r += static_cast<char>(c);
                ++i;
                continue;
            }
            ++i;
            if (i >= t.size()) {
                throw Bad {};
            }
            char e = t[i++];
            switch (e) {
            case '"':
            case '\\':
            case '/':
                r += e;
                break;
            case 'b':
                r += '\b';
                break;
            case 'f':
                r += '\f';
                break;
            case 'n':
                r += '\n';
                break;
            case 'r':
                r += '\r';
                break;
            case 't':
                r += '\t';
                break;
            case 'u': {
                unsigned hi = hex4();
                if (hi >= 0xDC00 && hi <= 0xDFFF) {
                    throw Bad {};
                }
                if (hi >= 0xD800 && hi <= 0xDBFF) {
                    word("\\u");
                    unsigned lo = hex4();
                    if (lo < 0xDC00 || lo > 0xDFFF) {
                        throw Bad {};
                    }
                    append_utf8(r, 0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00));
                }
                else {
                    append_utf8(r, hi);
                }
                break;
            }
            default:
                throw Bad {};
            }
        }
    }
    RV value()
    {
        if (i >= t.size()) {
            throw Bad {};
        }
        switch (t[i]) {
        case 'n':
            word("null");
            return RV::null();
        case 't':
            word("true");
            return RV::boolean(true);
        case 'f':
            word("false");
            return RV::boolean(false);
        case '"':
            return RV::str(string());
        case '[':
        case '{':
            return container();
        default: {
            size_t b = i;
            while (i < t.size() && (std::isdigit(static_cast<unsigned char>(t[i])) || strchr("+-.eE", t[i])) && t[i] != 0) {
                ++i;
            }
            if (!is_number_text(t.substr(b, i - b))) {
                throw Bad {};
            }
            return RV::num(std::string(t.substr(b, i - b)));
        }
        }
    }
    RV container()
    {
        bool arr = at('[');
        char close = arr ? ']' : '}';
        ++i;
        RV v = arr ? RV::arr() : RV::obj();
        ws();
        if (at(close)) {
            ++i;
            return v;
        }
        for (;;) {
            if (arr) {
                v.a.push_back(value());
            }
            else {
                std::string key = string();
                ws();
                need(':');
                ws();
                RV x = value();
                if (!v.o.emplace(std::move(key), std::move(x)).second) {
                    throw Bad {};
                }
            }
            ws();
            if (at(close)) {
                ++i;
                return v;
            }
            need(',');
            ws();
            if (d == Dialect::Jsonc && at(close)) {
                ++i;
                return v;
            }
        }
    }
};
} // namespace

std::optional<RV> parse(std::string_view text, Dialect d)
{
    P p { text, d };
    try {
        p.ws();
        if (!p.at('[') && !p.at('{')) {
            return std::nullopt;
        }
        RV v = p.container();
        p.ws();
        if (p.i != text.size() && text[p.i] != '\0') {
            return std::nullopt;
        }
        return v;
    }
    catch (const Bad&) {
        return std::nullopt;
    }
}

// ---------------------------------------------------------------- writers
static void put_u(std::string& r, unsigned u, bool upper)
{
    char b[8];
    snprintf(b, sizeof(b), upper ? "\\u%04X" : "\\u%04x", u);
    r += b;
}

static void compact_string(std::string& r, const std::string& s)
{
    r += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c < 0x20) {
            put_u(r, c, false);
        }
        else {
            r += static_cast<char>(c);
        }
    }
    r += '"';
}

static void compact_to(const RV& v, std::string& r)
{
    switch (v.k) {
    case K::Null:
        r += "null";
        break;
    case K::Bool:
    case K::Num:
        r += v.s;
        break;
    case K::Str:
        compact_string(r, v.s);
        break;
    case K::Arr:
        r += '[';
        for (size_t i = 0; i < v.a.size(); ++i) {
            if (i) {
                r += ',';
            }
            compact_to(v.a[i], r);
        }
        r += ']';
        break;
    case K::Obj: {
        r += '{';
        bool first = true;
        for (auto& [k, x] : v.o) {
            if (!first) {
                r += ',';
            }
            first = false;
            compact_string(r, k);
            r += ':';
            compact_to(x, r);
        }
        r += '}';
        break;
    }
    }
}

std::string compact(const RV& v)
{
    std::string r;
    compact_to(v, r);
    return r;
}

std::string write_string(const std::string& s)
{
    std::string r = "\"";
    uint64_t style = draw(4); // 0 raw, 1 short escapes, 2 everything \u, 3 mixed
    bool upper = draw(2);
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        // decode one well-formed UTF-8 sequence if there is one
        size_t len = 1;
        uint32_t cp = c;
        if (c >= 0xC2 && c <= 0xDF && i + 1 < s.size() && (s[i + 1] & 0xC0) == 0x80) {
            len = 2;
            cp = (c & 0x1F) << 6 | (s[i + 1] & 0x3F);
        }
        else if (c >= 0xE0 && c <= 0xEF && i + 2 < s.size() && (s[i + 1] & 0xC0) == 0x80 && (s[i + 2] & 0xC0) == 0x80) {
            uint32_t x = (c & 0x0F) << 12 | (s[i + 1] & 0x3F) << 6 | (s[i + 2] & 0x3F);
            if (x >= 0x800 && !(x >= 0xD800 && x <= 0xDFFF)) {
                len = 3;
                cp = x;
            }
        }
        else if (c >= 0xF0 && c <= 0xF4 && i + 3 < s.size() && (s[i + 1] & 0xC0) == 0x80 && (s[i + 2] & 0xC0) == 0x80
                 && (s[i + 3] & 0xC0) == 0x80) {
            uint32_t x = (c & 0x07) << 18 | (s[i + 1] & 0x3F) << 12 | (s[i + 2] & 0x3F) << 6 | (s[i + 3] & 0x3F);
            if (x >= 0x10000 && x <= 0x10FFFF) {
                len = 4;
                cp = x;
            }
        }
        bool decoded = c < 0x80 || len > 1;
        bool must = c == '"' || c == '\\' || c < 0x20;
        bool u = decoded && (style == 2 || (style == 3 && chance(1, 4)));
        if (u || must) {
            static const char* sh = "\"\\/\b\f\n\r\t";
            static const char* shn = "\"\\/bfnrt";
            const char* p = c && c < 0x80 ? strchr(sh, c) : nullptr;
            if (p && (!u || chance(1, 2))) {
                r += '\\';
                r += shn[p - sh];
            }
            else if (cp >= 0x10000) {
                put_u(r, 0xD800 + ((cp - 0x10000) >> 10), upper);
                put_u(r, 0xDC00 + ((cp - 0x10000) & 0x3FF), upper);
            }
            else {
                put_u(r, cp, upper);
            }
        }
        else if (c == '/' && style == 1) {
            r += "\\/";
        }
        else {
            r.append(s, i, len);
        }
        i += len;
    }
    return r + "\"";
}

namespace
{
struct W
{
    Dialect d;
    uint64_t style;
    std::string r;
    size_t rest = 400; // layout budget
    void ws()
    {
        if (style == 0 || rest == 0) {
            return;
        }
        size_t n = chance(1, 3) ? draw(style == 1 ? 3 : 24) : 0;
        n = std::min(n, rest);
        rest -= n;
        for (size_t i = 0; i < n; ++i) {
            r += " \t\r\n"[draw(4)];
        }
        if (d == Dialect::Jsonc && chance(1, 8)) {
            static const char* body[] = { "", " c ", "*", "**", "/", "\"", "]}", "//", "\\", "*a/", ", ", "\xe6\xb3\xa8" };
            const char* b = body[draw(12)];
            if (chance(1, 2)) {
                r += std::string("/*") + b + (chance(1, 3) ? "\n" : "") + "*/";
            }
            else {
                r += std::string("//") + b + "\n";
            }
        }
    }
    void value(const RV& v)
    {
        switch (v.k) {
        case K::Null:
            r += "null";
            break;
        case K::Bool:
        case K::Num:
            r += v.s;
            break;
        case K::Str:
            r += write_string(v.s);
            break;
        case K::Arr:
        case K::Obj: {
            r += v.k == K::Arr ? '[' : '{';
            ws();
            bool first = true;
            auto sep = [&] {
                if (!first) {
                    r += ',';
                    ws();
                }
                first = false;
            };
            for (auto& x : v.a) {
                sep();
                value(x);
                ws();
            }
            for (auto& [k, x] : v.o) {
                sep();
                r += write_string(k);
                ws();
                r += ':';
                ws();
                value(x);
                ws();
            }
            if (d == Dialect::Jsonc && !first && chance(1, 4)) {
                r += ',';
                ws();
            }
            r += v.k == K::Arr ? ']' : '}';
            break;
        }
        }
    }
};
} // namespace

std::string write(const RV& v, Dialect d)
{
    W w { d, draw(3), {}, 400 };
    w.ws();
    w.value(v);
    w.ws();
    return w.r;
}
} // namespace ref
