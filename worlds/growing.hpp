// C16, C19: texts that grow: for every n one with n units of work.
#pragma once
#include "ref.hpp"

#include <algorithm>
#include <cstdio>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace growing
{
using namespace sim;
using ref::Dialect;
using ref::RV;

// ---------------------------------------------------------------- growing texts and documents
inline const std::string_view tokens[] = { "[", "]", "{", "}", ",", ":", "\"", "\\", "/", "*", "//", "/*", "*/", "\n", " ", "\t", "0", "1", "-", ".", "e", "E", "true", "nul",
                                    "null", "\"a\"", "\"k\":", "\\u0041", "\\ud800", "\\udc00", "\\n", "\xff", "\xef\xbb\xbf", "\xe2\x82\xac", "a", "/**/", "// x\n",
                                    "[]", "{}", "1,", "\"\",", "[1],", "{\"a\":1},", "\\\"", "\\\\", "/", "12", "\r\n", "\x01", "abcdefghijklmnopqrstuvwxyz" };
inline std::string soup(size_t most)
{
    std::string s;
    for (uint64_t k = draw(most + 1); k--;) {
        s += tokens[draw(std::size(tokens))];
    }
    return s;
}
inline std::string repeat(const std::string& unit, size_t n)
{
    std::string s;
    s.reserve(unit.size() * n);
    while (n--) {
        s += unit;
    }
    return s;
}
inline size_t openings(const std::string& s)
{
    return static_cast<size_t>(std::count_if(s.begin(), s.end(), [](char c) { return c == '[' || c == '{'; }));
}
inline std::string key(size_t i, uint64_t style)
{
    char b[64];
    switch (style) {
    case 0: // ascending
        snprintf(b, sizeof b, "k%06zu", i);
        break;
    case 1: // descending
        snprintf(b, sizeof b, "k%06zu", 999999 - i);
        break;
    case 2: // scattered
        snprintf(b, sizeof b, "%08zx", static_cast<size_t>(mix(i, 7)) & 0xffffffff);
        break;
    case 3: // long, with a long common prefix
        snprintf(b, sizeof b, "a rather long name that every key starts with %06zu", i);
        break;
    default: // to be escaped
        snprintf(b, sizeof b, "\"\n\x01%06zu", i);
        break;
    }
    return b;
}
// A text for every n: the work with n units.
struct Family
{
    std::string name;
    std::function<std::string(size_t)> text;
    bool deep = false; // n units nest
};
inline Family family()
{
    Family f;
    switch (draw(10)) {
    case 0:
    case 1: { // any few tokens repeated, between any others
        const std::string a = soup(3), u = soup(4), b = soup(2), v = soup(3), c = soup(3);
        const char* const opens[] = { "[", "{", "[\"", "{\"", "[/*", "", "[[", "{\"a\":" };
        const std::string open = opens[draw(std::size(opens))];
        const size_t divide = 1 + openings(u) + openings(v);
        f.deep = divide > 1;
        f.name = "tokens " + open + a + "(" + u + ")n" + b + "(" + v + ")n" + c;
        f.text = [=](size_t n) { return open + a + repeat(u, n / divide) + b + repeat(v, n / divide) + c; };
        break;
    }
    case 2: { // one long string
        static const char* const units[] = { "a", "\\n", "\\u00e9", "\\ud83d\\ude00", "\\\"", "\\\\", "\xff", "\xc3\xa9", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\\t", "\\u0000",
                                             "/", "\\/", " ", "a\x7f" };
        std::string u = units[draw(std::size(units))];
        if (draw(2)) {
            u += units[draw(std::size(units))];
        }
        const bool as_key = draw(3) == 0;
        const std::string end = draw(3) ? "\"" : soup(1);
        f.name = std::string(as_key ? "key" : "string") + " (" + u + ")n" + end;
        f.text = [=](size_t n) { return (as_key ? "{\"" : "[\"") + repeat(u, n) + end + (as_key ? ":1}" : "]"); };
        break;
    }
    case 3: { // one long number
        static const char* const heads[] = { "1", "-9", "0.", "1e", "1E-", "12.5e+", "0" };
        const std::string h = heads[draw(std::size(heads))], u = std::string(1, "0179"[draw(4)]), end = draw(3) ? "" : soup(1);
        f.name = "number " + h + "(" + u + ")n" + end;
        f.text = [=](size_t n) { return "[" + h + repeat(u, n) + end + "]"; };
        break;
    }
    case 4: { // white space and comments
        std::string u;
        static const char* const units[] = { " ", "\n", "\t", "/**/", "// c\n", "/* * / */", "//\n", "/*\n*/", "/***/", "\r" };
        for (uint64_t k = 1 + draw(3); k--;) {
            u += units[draw(std::size(units))];
        }
        const uint64_t where = draw(5);
        static const char* const around[][2] = { { "", "[1]" }, { "[1]", "" }, { "[", "1]" }, { "[1", ",2]" }, { "{\"a\"", ":1}" } };
        const std::string a = around[where][0], b = draw(4) ? around[where][1] : soup(2);
        f.name = "space " + a + "(" + u + ")n" + b;
        f.text = [=](size_t n) { return a + repeat(u, n) + b; };
        break;
    }
    case 5: { // deep
        std::string open, close;
        for (uint64_t k = 1 + draw(3); k--;) {
            switch (draw(4)) {
            case 0:
                open += "[";
                close = "]" + close;
                break;
            case 1:
                open += "{\"k\":";
                close = "}" + close;
                break;
            case 2:
                open += "[1,\"two\",";
                close = "]" + close;
                break;
            default:
                open += "{\"a\":0,\"b\":";
                close = ",\"c\":[]}" + close;
            }
        }
        const size_t divide = 4 * openings(open);
        f.deep = true;
        const std::string mid = draw(3) ? "0" : soup(1);
        const bool cut = chance(1, 4);
        f.name = "deep (" + open + ")n " + mid + " (" + close + ")n" + (cut ? " cut" : "");
        f.text = [=](size_t n) { return open + repeat(open, n / divide) + mid + (cut ? "" : repeat(close, n / divide) + close); };
        break;
    }
    case 6: { // records of a program, the last of them perhaps not
        const uint64_t style = draw(6);
        const bool array = draw(2);
        const std::string last = draw(2) ? "" : array ? ",{\"id\":\"x\"}" : ",\"~\":{\"id\":1,\"name\":null}";
        f.name = std::string("records in ") + (array ? "an array" : "an object") + last;
        f.text = [=](size_t n) {
            std::string s = array ? "[" : "{";
            for (size_t i = 0; i < n / 4 + 1; ++i) {
                s += i ? "," : "";
                s += array ? "" : ref::compact(RV::str(key(i, style % 5))) + ":";
                s += "{\"id\":" + std::to_string(i % 1000) + ",\"name\":\"record\",\"tags\":[1,2,3],\"more\":{\"a\":0.5,\"b\":null}}";
            }
            return s + last + (array ? "]" : "}");
        };
        break;
    }
    case 7: { // a tree of a program
        const bool named = draw(2), bushy = draw(2), bare = draw(2);
        const std::string leaf = bare ? "{\"id\":0,\"kids\":[]}" : draw(4) ? "{\"id\":7,\"kids\":[{\"id\":8},{\"id\":9}]}" : "{\"id\":null}";
        f.deep = true;
        f.name = std::string("tree ") + (named ? "named " : "") + (bushy ? "bushy " : "") + leaf;
        f.text = [=](size_t n) {
            std::string open, close;
            for (size_t i = 0; i < n / 4; ++i) {
                open += bushy ? "{\"id\":1,\"kids\":[" + leaf + "," + (named ? "" : leaf + ",") : "{\"id\":1,\"kids\":[";
                open += named ? leaf + "],\"named\":{\"child\":" : "";
                close += named ? "}}" : "]}";
            }
            return open + leaf + close;
        };
        break;
    }
    default: { // a document with many members
        ref::Gen g;
        g.max_nodes = 5;
        g.max_depth = 3;
        std::vector<RV> parts;
        std::vector<std::string> written;
        const Dialect d = draw(2) ? Dialect::Jsonc : Dialect::Strict;
        for (uint64_t k = 1 + draw(3); k--;) {
            parts.push_back(ref::gen(g, false));
            RV one = RV::arr();
            one.a.push_back(parts.back());
            written.push_back(ref::write(one, d));
            if (written.back().size() > 2000) {
                written.back() = "[0]";
            } // ([x], so that any white space and comments stay with it)
        }
        const uint64_t style = draw(6);
        const bool dup = chance(1, 6), cut = chance(1, 6);
        f.name = (style == 5 ? "array of" : "object of, key style " + std::to_string(style)) + std::string(dup ? " (a key twice)" : "") + (cut ? " (cut)" : "");
        for (auto& w : written) {
            f.name += " " + show(w, 60);
        }
        f.text = [=](size_t n) {
            std::string s = style == 5 ? "[" : "{";
            const size_t m = n / written.size() + 1;
            for (size_t i = 0; i < m; ++i) {
                if (i) {
                    s += ",";
                }
                if (style != 5) {
                    s += ref::compact(RV::str(key(dup && i + 1 == m ? 0 : i, style))) + ":";
                }
                s += written[i % written.size()];
            }
            return s + (cut ? "" : style == 5 ? "]" : "}");
        };
    }
    }
    return f;
}
} // namespace growing
