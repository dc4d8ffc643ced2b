// C03: damaged bytes load as exactly what they say, or not at all.
#include "bridge.hpp"
#include "load.hpp"

using namespace sim;
using ref::Dialect;
using ref::RV;

namespace
{
const char* fragments[] = { ",",  ",,",   "/",      "/*",       "*/",      "//",     "//\n",  "\\u",   "\\ud800", "\\udc00", "\\ud83d\\ude00", "\\ud83d\\u0061\\ude00", "\\ud83da\\ude00", "\\ud83d\\n\\ude00",
                            "\"", "\\",   "\x1f",   "\x7f",     "-",       "+",      ".",     "e",     "0",       "00",      "1",
                            "tru", "nul",  "NaN",    "Infinity", "\xEF\xBB\xBF", "]", "}",     "[",     "{",       ":",       "\n",
                            "\t", " ",    "/**/",   "null",     "true",    "false",  "\"\"",  "{}",    "[]",      "\"a\":1", "\\u00",
                            "\\x", "'",    "\xff",   "\xc0\x80", "\\ud8",   "\\uD800a", "\f", "\v",    "1.",      "1e",      ".5" };

void damage(std::string& t, bool& truncated)
{
    size_t at = draw(t.size() + 1);
    size_t block = pick(1, 2, 4, 8, 16, 32, 64);
    auto blk = [&](size_t b) { return std::min(b, t.size()); };
    switch (draw(11)) {
    case 0:
        if (at < t.size()) {
            t[at] = static_cast<char>(t[at] ^ (1 << draw(8)));
            fault("bit flip");
        }
        break;
    case 1:
        if (at < t.size()) {
            t[at] = "\"\\/[]{},:0-e.tn \n\x00"[draw(18)];
            fault("byte overwritten");
        }
        break;
    case 2:
        t.resize(at);
        truncated = true;
        fault("truncated");
        break;
    case 3:
        t.erase(at, block);
        fault("lost block");
        break;
    case 4:
        for (size_t i = at; i < std::min(t.size(), at + block); ++i) {
            t[i] = '\0';
        }
        fault("zeroed block");
        break;
    case 5: {
        std::string b = t.substr(at, block);
        t.insert(blk(draw(t.size() + 1)), b);
        fault("duplicated block");
        break;
    }
    case 6: {
        // swap two equally sized blocks
        size_t n = t.size() / block;
        if (n >= 2) {
            size_t a = draw(n), b = draw(n);
            for (size_t i = 0; i < block; ++i) {
                std::swap(t[a * block + i], t[b * block + i]);
            }
            fault("reordered blocks");
        }
        break;
    }
    case 7:
        t.append(std::string(1 + draw(3), '\0'));
        if (draw(2)) {
            t += draw(2) ? "]" : "garbage";
        }
        fault("zero padding");
        break;
    case 8:
        t += fragments[draw(sizeof(fragments) / sizeof(*fragments))];
        fault("trailing bytes");
        break;
    default:
        t.insert(at, fragments[draw(sizeof(fragments) / sizeof(*fragments))]);
        fault("inserted fragment");
        break;
    }
}

// ---- damage at the level of records: whole tokens and members lost, doubled, exchanged
struct Token
{
    size_t at, n;
};
std::vector<Token> tokens(const std::string& t)
{
    std::vector<Token> res;
    for (size_t i = 0; i < t.size();) {
        size_t b = i;
        if (t[i] == '"') {
            for (++i; i < t.size() && t[i] != '"'; ++i) {
                i += t[i] == '\\';
            }
            i = std::min(t.size(), i + 1);
        }
        else if (isalnum(static_cast<unsigned char>(t[i])) || t[i] == '-') {
            while (i < t.size() && (isalnum(static_cast<unsigned char>(t[i])) || strchr("+-.", t[i])) && t[i]) {
                ++i;
            }
        }
        else {
            ++i;
        }
        if (!strchr(" \t\r\n", t[b]) || !t[b]) {
            res.push_back({ b, i - b });
        }
    }
    return res;
}
void damage_record(std::string& t)
{
    auto k = tokens(t);
    if (k.empty()) {
        return;
    }
    const size_t i = draw(k.size()), j = draw(k.size()), n = std::min<size_t>(k.size() - i, pick(1, 1, 2, 3, 4, 4, 6));
    const std::string one = t.substr(k[i].at, k[i].n), span = t.substr(k[i].at, k[i + n - 1].at + k[i + n - 1].n - k[i].at);
    auto member = [&](size_t f) { // "key" : value starting at token f, if there is one
        return t[k[f].at] == '"' && f + 2 < k.size() && t[k[f + 1].at] == ':';
    };
    switch (draw(7)) {
    case 0:
        t.erase(k[i].at, span.size());
        fault("lost tokens");
        break;
    case 1:
        t.insert(k[j].at, span);
        fault("doubled tokens");
        break;
    case 2:
        t.replace(k[j].at, k[j].n, one);
        fault("token replaced by another one");
        break;
    case 3: // a member stored twice
    case 4: {
        for (size_t f = i; f < k.size(); ++f) {
            if (member(f)) {
                std::string key = t.substr(k[f].at, k[f].n);
                static const char* values[] = { "null", "0", "\"\"", "[]", "{}", "true", "false" };
                std::string copy = key + ":" + (draw(2) ? t.substr(k[f + 2].at, k[f + 2].n) : values[draw(7)]);
                t.insert(k[f].at, copy + ",");
                fault("member stored twice");
                return;
            }
        }
        break;
    }
    case 5: // a key overwritten by another key
        for (size_t f = i; f < k.size(); ++f) {
            if (member(f)) {
                for (size_t g = j; g < k.size(); ++g) {
                    if (member(g)) {
                        t.replace(k[f].at, k[f].n, t.substr(k[g].at, k[g].n));
                        fault("key replaced by another one");
                        return;
                    }
                }
            }
        }
        break;
    default: // one hexadecimal digit of an escape
        if (size_t e = t.find("\\u", k[i].at); e != std::string::npos && e + 6 <= t.size()) {
            t[e + 2 + draw(4)] = "0123456789abcdefABCDEFdD8cC@G`g/:"[draw(33)];
            fault("digit of an escape changed");
        }
        break;
    }
}

template <typename... T>
std::string word(T... v)
{
    const char* const all[] = { v... };
    return all[draw(sizeof...(T))];
}

// ---- another program's output: small texts in which every rule of the grammar is bent now and then
struct Bent
{
    std::string t;
    size_t budget = 24;
    unsigned rate = 0; // 1 of `rate` productions is bent
    bool bend() { return rate && chance(1, rate); }
    void gap()
    {
        if (chance(1, 3)) {
            static const char* g[] = { " ", "\n", "\t", "\r", "\r\n", "  ", "/**/", "//\n", "/***/", "/* \" */", "// ]\n", "/*/*/", "//\r\n", "/* * / */", "// \\\n" };
            t += g[draw(15)];
        }
        if (bend()) {
            static const char* g[] = { "/", "/*", "//", "//\r", "*/", "\v", "\f", "\xc2\xa0", "#", "/*/", "\x1f", "\b", "/\n/" };
            t += g[draw(13)];
        }
    }
    void string()
    {
        t += '"';
        for (size_t n = draw(4); n; --n) {
            switch (draw(12)) {
            case 0: {
                static const char* e[] = { "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t" };
                t += e[draw(8)];
                break;
            }
            case 1:
            case 2: {
                char b[8];
                snprintf(b, sizeof b, draw(2) ? "\\u%04x" : "\\u%04X",
                         static_cast<unsigned>(pick(0x0, 0x1f, 0x20, 0x22, 0x5c, 0x7e, 0x7f, 0x80, 0x81, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfeff, 0xfffe, 0xffff)));
                t += b;
                break;
            }
            case 3:
            case 4: {
                char b[16];
                const unsigned hi = static_cast<unsigned>(pick(0xd800, 0xd801, 0xd83d, 0xd840, 0xd87f, 0xdbbf, 0xdbc0, 0xdbfe, 0xdbff));
                const unsigned lo = static_cast<unsigned>(pick(0xdc00, 0xdc01, 0xdd00, 0xde00, 0xdffe, 0xdfff));
                if (bend()) {
                    static const char* e[] = { "\\ud800", "\\udc00", "\\udbff", "\\udfff", "\\ud800\\ud800\\udc00", "\\ud800x\\udc00", "\\ud800\\n\\udc00", "\\ud800\\u0041", "\\udbff\\ue000", "\\ud800\\udbff", "\\ud800\\\"\\udc00" };
                    t += e[draw(11)];
                }
                else {
                    snprintf(b, sizeof b, "\\u%04x\\u%04X", hi, lo);
                    t += b;
                }
                break;
            }
            case 5:
                t += std::string(pick(1, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33), "a ~\xe9"[draw(4)]);
                break;
            default:
                t += "ab /*,:]}"[draw(9)];
                break;
            }
            if (bend()) {
                t += word("\x01", "\x1f", "\x10", "\t", "\n", "\r", "\\x", "\\u12", "\\u12g4", "\\", "\"", "\\N", "\\'", "\\0", "\\u 123", "\\u+123", "\\U0041");
            }
        }
        if (!bend()) {
            t += '"';
        }
    }
    void number()
    {
        if (bend()) {
            t += word("+1", "01", "-01", "00", "-", "--1", "1.", ".1", "-.1", "1e", "1e+", "1e-", "1e+-1", "1E++1", "0x1", "1.e1", "1.0.0", "1e1.0", "1e1e1", "-00", "-0.", "1_0", "NaN", "-Infinity", "0b1", "1f", "- 1", "1 2", "-a", "00.1");
            return;
        }
        t += word("", "", "-");
        t += word("0", "0", "1", "9", "10", "907", "18446744073709551616");
        t += word("", "", ".0", ".5", ".00", ".9070");
        t += word("", "", "", "e0", "E1", "e+00", "E-12", "e007", "e999");
    }
    void value(size_t depth)
    {
        if (budget) {
            --budget;
        }
        switch (budget && depth < 6 ? draw(10) : draw(6)) {
        case 0:
            t += "null";
            break;
        case 1:
            t += draw(2) ? "true" : "false";
            break;
        case 2:
        case 3:
            number();
            break;
        case 4:
        case 5:
            string();
            break;
        default:
            container(depth);
            break;
        }
        if (bend()) {
            t += word("l", "e", "x", "tru", "nul", "fals", "trux", "nulL", "True", "NULL", "nan", "undefined", "'a'", "()", "<", "");
        }
    }
    void container(size_t depth)
    {
        const bool obj = draw(2);
        const size_t n = draw(4);
        t += bend() ? word("(", "[[", "{{", "", "[{") : std::string(obj ? "{" : "[");
        gap();
        for (size_t i = 0; i < n; ++i) {
            if (obj) {
                if (chance(1, 4)) {
                    string();
                }
                else { // few keys: doubled ones occur when rules are bent; else numbered
                    const std::string k = bend() ? word("a", "", "1") : std::string(1, static_cast<char>('a' + i));
                    t += bend() ? k : "\"" + k + "\"";
                }
                gap();
                t += bend() ? word("", "=", "::", ",", ";") : std::string(":");
                gap();
            }
            if (!bend()) {
                value(depth + 1);
            }
            gap();
            if (i + 1 < n || chance(1, 12)) {
                t += bend() ? word("", ";", ",,", ":", ", ,") : std::string(",");
                gap();
            }
        }
        t += bend() ? word("", ")", "]]", "}}", "]}") : std::string(obj != bend() ? "}" : "]");
    }
    void text()
    {
        gap();
        if (bend()) {
            value(0);
        }
        else {
            container(0);
        }
        gap();
        if (chance(1, 12)) {
            t += std::string(1, '\0') + word("", "", "garbage", "]", "\n");
        }
        if (bend()) {
            t += word(",", "]", "}", "1", "{}", "/", "/*", "\xef\xbb\xbf", "null", "#");
        }
    }
};

// ---- any pieces next to each other: of a string, of a number, of a document
std::string pieces()
{
    static const char* const in_string[] = { "\\ud83d", "\\uDBFF", "\\ud800", "\\ude00", "\\uDC00", "\\udfff", "\\u0041", "\\u00e9", "\\u0000", "\\ud7ff", "\\ue000", "\\n", "\\\"", "\\\\",
                                             "\\/", "\\b", "a", "e", "0", " ", "\xc3\xa4", "\xff", "\xed\xa0\xbd", "\xed\xb8\x80", "\xf0\x9f\x98\x80", "\x7f", "u", "/", "//", "/*",
                                             "ud83d", "\\", "\"", "\x1f", "\t", "\n", "\\u12", "\\x", "\\U0041", "abcdefghijklmnop", "\x80\x80\x80\x80\x80\x80\x80\x80" };
    static const char* const in_number[] = { "0", "1", "9", "12", "-", "+", ".", "e", "E", "0", "5", "00", " ", "", "e1", ".5", "x", "_", "\xb2" };
    static const char* const in_document[] = { "[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "\"\"", "1", "-0.5e1", "null", "true", "false", " ", "\n", "/", "/*", "*/", "//", "//\n",
                                               "/**/", "*", "\"a\":", "\"b\":1", "[]", "{}", "\"", "nul", "\\" };
    std::string t;
    // (mostly the pieces that are fine by themselves, which stand first)
    auto some = [&](auto& all, size_t good, size_t most) {
        const bool any = chance(1, 3);
        for (uint64_t n = draw(most + 1); n--;) {
            t += all[draw(any ? std::size(all) : good)];
        }
    };
    switch (draw(4)) {
    case 0:
    case 1: {
        const bool key = chance(1, 3);
        t += key ? "{\"" : "[\"";
        some(in_string, 31, 8);
        t += key ? "\":1}" : "\"]";
        break;
    }
    case 2:
        t += "[";
        some(in_number, 12, 7);
        t += "]";
        break;
    default: {
        const bool obj = draw(2);
        t += obj ? "{" : "[";
        some(in_document, 27, 9);
        t += obj ? "}" : "]";
    }
    }
    return t;
}

void run()
{
    ref::Gen g;
    g.max_nodes = pick(2, 5, 12, 30);
    g.huge = chance(1, 10);
    RV model = ref::gen(g);
    std::string text;
    bool foreign = false;
    switch (draw(8)) {
    case 6:
    case 7:
        text = pieces();
        foreign = true;
        break;
    case 4:
    case 5: {
        Bent b;
        b.rate = static_cast<unsigned>(pick(0, 100, 40, 15));
        b.text();
        text = b.t;
        foreign = true;
        break;
    }
    case 0:
        text = bridge::plain(model).dumps();
        break;
    case 1:
        text = bridge::plain(model).format(draw(5));
        break;
    case 2:
        text = ref::write(model, Dialect::Strict);
        break;
    default:
        text = ref::write(model, Dialect::Jsonc);
        break;
    }
    bool truncated = false;
    size_t n = pick(0, 1, 1, 1, 2, 2, 3, 4);
    if (foreign) {
        n = pick(0, 0, 0, 1);
    }
    for (size_t i = 0; i < n; ++i) {
        if (draw(3)) {
            damage(text, truncated);
        }
        else {
            damage_record(text);
        }
    }
    note_bytes("stored", text);
    if (n || foreign) {
        nontrivial();
    }
    for (Dialect d : { Dialect::Strict, Dialect::Jsonc }) {
        auto want = ref::parse(text, d);
        const char* dn = d == Dialect::Strict ? "strict" : "jsonc";
        if (n) {
            probe(want ? (d == Dialect::Strict ? "damaged text is still strict JSON" : "damaged text is still JSONC")
                       : (d == Dialect::Strict ? "damaged text is not strict JSON" : "damaged text is not JSONC"));
        }
        for (int rep = 0; rep < 2; ++rep) {
            uint64_t how = rep == 0 ? 1 : draw(10);
            load::Result r;
            if (how < 7) {
                r = load::memory(text, d, how);
            }
            else if (how == 7) {
                r = load::stream(text, d, false);
            }
            else if (how == 8) {
                r = load::file(text, d, false);
            }
            else {
                r = load::string_stream(text, d, false);
            }
            step();
            note("%s how=%llu -> %d (reference %d)", dn, (unsigned long long)how, r.has_value(), want.has_value());
            if (r && !want) {
                violate("accepted-invalid", std::string(dn) + " loading returned " + ref::show(bridge::read(*r)) + " for bytes that are not a document: "
                                                + show(text, 300));
            }
            if (!r && want) {
                violate("rejected-valid", std::string(dn) + " loading refused bytes that denote " + ref::show(*want) + ": " + show(text, 300));
            }
            if (r) {
                bridge::expect_value(*r, *want, std::string(dn) + " load of " + show(text, 200));
            }
        }
    }
    // with byte-order-mark checking, exactly one leading mark is skipped
    if (draw(4) == 0) {
        std::string t = draw(2) ? load::BOM + text : text;
        std::string body = t.compare(0, 3, load::BOM) == 0 ? t.substr(3) : t;
        Dialect d = draw(2) ? Dialect::Jsonc : Dialect::Strict;
        auto want = ref::parse(body, d);
        auto r = load::stream(t, d, true);
        SIM_CHECK(r.has_value() == want.has_value(), "bom", "loading with byte-order-mark check differs for " + show(t));
        if (r) {
            bridge::expect_value(*r, *want, "load with byte-order-mark check");
        }
    }
    state(sim::hash_str(text));
    if (n) {
        sample("damaged: " + show(text, 400));
    }
}
} // namespace

const sim::World sim::world { "C03",
                              "each run draws a document, writes it with the library or a foreign writer (strict or with comments), damages "
                              "the stored bytes 0-4 times (flips, overwrites, lost/zeroed/duplicated/reordered blocks, truncation, padding, "
                              "inserted or trailing fragments, tokens and members lost, doubled or exchanged), or takes the text of a "
                              "writer that bends single rules of the grammar now and then or pieces of strings, numbers and documents in any order, and loads them in both dialects from an exactly sized buffer and one drawn "
                              "source; the oracle is an independent parser; non-trivial: at least one damage was applied, or a bent writer or pieces",
                              run, true, 128 };
