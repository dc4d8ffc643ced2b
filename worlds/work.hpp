// C16, C19: what is done with texts and documents of any size.
#pragma once
#include "bridge.hpp"
#include "io.hpp"

#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <variant>

namespace work
{
using namespace sim;

struct Record
{
    int id = 0;
    std::string name;
    std::vector<int> tags;
    std::map<std::string, std::optional<double>> more;
    std::variant<int, std::string, std::vector<int>> other;
    MEO_JSONIZATION(id, name, MEO_OPT tags, MEO_OPT more, MEO_OPT other);
};
// (of itself: nests as deeply as the document does)
struct Tree
{
    int id = 0;
    std::vector<Tree> kids;
    std::map<std::string, Tree> named;
    MEO_JSONIZATION(id, MEO_OPT kids, MEO_OPT named);
};
// ---------------------------------------------------------------- operations
enum class Op
{
    Parse,     // from text held in memory
    Stream,    // from a stream
    Print,     // to text
    Insert,    // into a stream
    Copy,      // and destroy
    Compare,   // with an equal one, with one that differs at the end
    Visit,     // every element looked up
    Convert,   // to and from the program's containers
    Build,     // one member after the other
    Merge,     // with others
    Take,      // members removed one after the other from the end
    N
};
inline const char* const op_names[] = { "parse", "stream", "print", "insert", "copy", "compare", "visit", "convert", "build", "merge", "take" };

struct Cost
{
    uint64_t steps = 0, size = 0, allocs = 0;
    uint64_t largest = 0, peak = 0; // block, blocks at a time
    bool failed = false;
    uint64_t result = 0; // digest of what came out
};
// How memory is short.
struct Shortage
{
    enum Kind
    {
        None,
        One,     // allocation number `value` fails
        Later,   // and all that follow
        Large,   // those of `value` bytes and more
        Blocks   // more than `value` blocks at a time
    } kind = None;
    uint64_t value = 0;
    static Shortage some(const Cost& c)
    {
        Shortage s;
        s.kind = static_cast<Kind>(1 + draw(4));
        s.value = s.kind == Large ? 1 + draw(c.largest + 1) : s.kind == Blocks ? draw(c.peak + 1) : 1 + draw(c.allocs);
        static const char* const names[] = { "", "one allocation fails", "allocations fail from some point on", "large allocations fail", "memory for a limited number of blocks" };
        fault(names[s.kind]);
        note("%s (%llu)", names[s.kind], (unsigned long long)s.value);
        return s;
    }
    void arm() const
    {
        mem::arm(kind == One || kind == Later ? value : 0, kind == Later);
        if (kind == Large) {
            mem::limit_size(value);
        }
        if (kind == Blocks) {
            mem::limit_live(static_cast<int64_t>(value));
        }
    }
    static void end(Cost& c)
    {
        c.allocs = mem::disarm();
        c.largest = mem::plan.largest;
        c.peak = static_cast<uint64_t>(mem::plan.peak);
    }
};
struct Plan
{
    Op op;
    uint64_t form = 0, chunk = 64;
    bool jsonc = false, damage = false;
    uint64_t fail = 0; // of 1000: the allocation that fails, 0: none
};

// The greatest depth that a reader of `text` can have seen before the first error.
inline size_t nesting(const std::string& text)
{
    size_t depth = 0, most = 0;
    for (size_t i = 0; i < text.size(); ++i) {
        switch (text[i]) {
        case '[':
        case '{':
            most = std::max(most, ++depth);
            break;
        case ']':
        case '}':
            depth -= depth > 0;
            break;
        case '"':
            for (++i; i < text.size() && text[i] != '"'; ++i) {
                i += text[i] == '\\';
            }
            break;
        case '/':
            if (i + 1 < text.size() && text[i + 1] == '/') {
                i = std::min(text.find('\n', i), text.size());
            }
            else if (i + 1 < text.size() && text[i + 1] == '*') {
                i = std::min(text.find("*/", i + 2), text.size());
                i += i < text.size();
            }
            break;
        }
    }
    return most;
}
// Performs the operation; the part to be measured is given to `meter(cost, fn)`.
template <typename meter_t>
Cost perform(const Plan& p, const std::string& text, const std::optional<json::value>& doc, meter_t&& meter)
{
    Cost c;
    c.size = text.size() + 64;
    auto counted = [&](auto&& fn) {
        meter(c, [&] {
            try {
                fn();
            }
            catch (const std::bad_alloc&) {
                c.failed = true;
            }
        });
    };
    switch (p.op) {
    case Op::Parse: {
        std::optional<json::value> r;
        const std::string_view view = text;
        const std::deque<char> deque = p.form % 4 == 3 ? std::deque<char>(text.begin(), text.end()) : std::deque<char>();
        const std::vector<unsigned char> bytes(text.begin(), text.end());
        counted([&] {
            switch (p.form % 4) {
            case 0:
                r = p.jsonc ? json::parsec(text) : json::parse(text);
                break;
            case 1:
                r = p.jsonc ? json::parsec(view) : json::parse(view);
                break;
            case 2:
                r = p.jsonc ? json::parsec(bytes) : json::parse(bytes);
                break;
            default:
                r = p.jsonc ? json::parsec(deque) : json::parse(deque);
            }
            c.result = r.has_value();
            r.reset();
        });
        break;
    }
    case Op::Stream: {
        simio::In in(text);
        in.chunk = p.chunk;
        in.direct = p.form & 1;
        if (p.damage) {
            in.error_at = text.size() / 2;
            in.error_throws = p.form & 2;
        }
        std::istream is(&in);
        counted([&] {
            auto r = json::parse(is, p.form & 4, p.jsonc);
            c.result = r.has_value();
        });
        break;
    }
    case Op::Print: {
        std::string out;
        counted([&] {
            switch (p.form % 6) {
            case 0:
                out = doc->to_string();
                break;
            case 1:
                out = doc->format(p.form % 5);
                break;
            case 2:
                out = doc->dumps();
                break;
            case 3:
                out = doc->dumps(p.form % 5);
                break;
            case 4:
                out = doc->is_array() ? doc->as_array().to_string() : doc->as_object().to_string();
                break;
            default:
                out = doc->is_array() ? doc->as_array().format(p.form % 5) : doc->as_object().format(p.form % 5);
            }
        });
        c.size += out.size();
        c.result = hash_str(out);
        break;
    }
    case Op::Insert: {
        std::ostringstream os;
        counted([&] { os << *doc; });
        c.size += os.str().size();
        c.result = hash_str(os.str());
        break;
    }
    case Op::Copy: {
        json::value other = json::array { 1, json::object { { "a", 2 } } };
        counted([&] {
            json::value copy = *doc;
            switch (p.form % 3) {
            case 0:
                other = copy;
                break;
            case 1:
                other = std::move(copy);
                break;
            default:
                json::value third(copy);
                std::swap(third, other);
            }
        });
        break;
    }
    case Op::Compare: {
        const json::value same = *doc;
        json::value differs = *doc;
        if (differs.is_array()) {
            differs.as_array().emplace_back("one more");
        }
        else {
            differs["~"] = "one more";
        }
        bool a = false, b = false;
        counted([&] {
            a = *doc == same && !(same != *doc);
            b = *doc == differs;
        });
        SIM_CHECK(a && !b, "content", "comparison gives the wrong result");
        break;
    }
    case Op::Visit: {
        size_t n = 0, seen = 0;
        const json::value& v = *doc;
        std::vector<std::string> keys;
        if (v.is_object()) {
            for (auto& [k, x] : v.as_object()) {
                keys.push_back(k);
            }
        }
        n = v.is_array() ? v.as_array().size() : keys.size();
        counted([&] {
            for (size_t i = 0; i < n; ++i) {
                if (v.is_array()) {
                    switch (p.form % 4) {
                    case 0:
                        seen += v.at(i).valid();
                        break;
                    case 1:
                        seen += v.exists(i);
                        break;
                    case 2:
                        seen += v.as_array()[i].valid();
                        break;
                    default:
                        seen += v.find(i).has_value();
                    }
                }
                else {
                    switch (p.form % 4) {
                    case 0:
                        seen += v.at(keys[i]).valid();
                        break;
                    case 1:
                        seen += v.contains(keys[i]);
                        break;
                    case 2:
                        seen += v.find(keys[i]).has_value();
                        break;
                    default:
                        seen += v.get(keys[i], json::value("no")) != json::value("no");
                    }
                }
            }
        });
        c.result = seen;
        SIM_CHECK(c.failed || seen == n || p.form % 4 == 3, "content", "not every member was found");
        break;
    }
    case Op::Convert: {
        const bool tree = doc->is<Tree>() && doc->is_object() && doc->as_object().contains("kids");
        if (tree) { // (what is inside is checked again at every level)
            c.size *= 1 + nesting(text);
        }
        counted([&] {
            const json::value& v = *doc;
            if (tree) {
                if (p.form & 1) {
                    c.result = v.is<Tree>();
                }
                Tree t = v.as<Tree>();
                json::value back = p.form & 2 ? json::value(t) : json::value(std::move(t));
                c.result = back.as_object().size();
            }
            else if (p.form % 3 == 0 && v.is<std::vector<Record>>()) {
                auto xs = v.as<std::vector<Record>>();
                json::value back = p.form & 1 ? json::value(xs) : json::value(std::move(xs));
                c.result = back.as_array().size();
            }
            else if (p.form % 3 == 0 && v.is<std::map<std::string, Record>>()) {
                auto xs = v.as<std::unordered_map<std::string, Record>>();
                json::value back = p.form & 1 ? json::value(xs) : json::value(std::move(xs));
                c.result = back.as_object().size();
            }
            else if (v.is_array()) {
                switch (p.form % 4) {
                case 0:
                    c.result = v.as<std::vector<json::value>>().size();
                    break;
                case 1:
                    c.result = v.is<std::vector<int>>() ? v.as<std::vector<int>>().size() : 0;
                    break;
                case 2: {
                    auto xs = v.as<std::deque<json::value>>();
                    json::value back = xs;
                    c.result = back.as_array().size();
                    break;
                }
                default:
                    c.result = v.all<std::string>();
                }
            }
            else {
                switch (p.form % 3) {
                case 0:
                    c.result = v.as<std::map<std::string, json::value>>().size();
                    break;
                case 1: {
                    auto m = v.as<std::map<std::string, json::value>>();
                    json::value back = std::move(m);
                    c.result = back.as_object().size();
                    break;
                }
                default:
                    c.result = v.is<std::map<std::string, int>>();
                }
            }
        });
        break;
    }
    case Op::Build: {
        const json::value& v = *doc;
        counted([&] {
            json::value out;
            if (v.is_array()) {
                for (const auto& x : v.as_array()) {
                    switch (p.form % 6) {
                    case 0:
                        out.as_array().emplace_back(x);
                        break;
                    case 1:
                        out.as_array().push_back(x);
                        break;
                    case 2:
                        out.emplace(x);
                        break;
                    case 3:
                        out.as_array() += json::array { x };
                        break;
                    case 4: {
                        const json::array one { x };
                        out.as_array() += one;
                        break;
                    }
                    default:
                        out = std::move(out.as_array()) + json::array { x };
                    }
                }
            }
            else {
                for (const auto& [k, x] : v.as_object()) {
                    switch (p.form % 6) {
                    case 0:
                        out[k] = x;
                        break;
                    case 1:
                        out.emplace(k, x);
                        break;
                    case 2:
                        out.as_object().emplace(k, x);
                        break;
                    case 3:
                        out.as_object() |= json::object { { k, x } };
                        break;
                    case 4: {
                        const json::object one { { k, x } };
                        out.as_object() |= one;
                        break;
                    }
                    default:
                        out = std::move(out.as_object()) | json::object { { k, x } };
                    }
                }
            }
            if (out != v && !v.empty()) {
                violate_later("content", "built member by member it is different");
            }
        });
        break;
    }
    case Op::Merge: {
        const json::value& v = *doc;
        counted([&] {
            if (v.is_array()) {
                json::array r = p.form % 2 ? v.as_array() + v.as_array() : v.as_array();
                r += r;
                c.result = r.size();
            }
            else {
                json::object r = p.form % 2 ? v.as_object() | v.as_object() : v.as_object();
                r |= v.as_object();
                r |= r;
                c.result = r.size();
            }
        });
        break;
    }
    case Op::Take: {
        json::value v = *doc;
        std::vector<std::string> keys;
        if (v.is_object()) {
            for (auto& [k, x] : v.as_object()) {
                keys.push_back(k);
            }
        }
        counted([&] {
            if (v.is_array()) {
                while (!v.as_array().empty()) {
                    p.form % 2 ? v.erase(v.as_array().size() - 1) : v.as_array().erase(v.as_array().size() - 1);
                }
            }
            else {
                for (const auto& k : keys) {
                    p.form % 2 ? v.erase(k) : v.as_object().erase(k);
                }
            }
        });
        break;
    }
    case Op::N:
        break;
    }
    checkpoint();
    return c;
}
} // namespace work
