// Between the code under test and the reference tree: build a json::value from an RV through the public API
// (the way it is built is drawn), read one back, and compare.
#pragma once
#include <json.hpp>

#include "ref.hpp"

namespace bridge
{
using ref::K;
using ref::RV;

inline json::value number(const std::string& text)
{
    return json::value(json::value::value_type::number, text);
}

// Plain construction, no draws.
inline json::value plain(const RV& v)
{
    switch (v.k) {
    case K::Null:
        return json::value();
    case K::Bool:
        return json::value(v.s == "true");
    case K::Num:
        return number(v.s);
    case K::Str:
        return json::value(v.s);
    case K::Arr: {
        json::array a;
        for (auto& x : v.a) {
            a.emplace_back(plain(x));
        }
        return json::value(std::move(a));
    }
    case K::Obj: {
        json::object o;
        for (auto& [k, x] : v.o) {
            o.emplace(k, plain(x));
        }
        return json::value(std::move(o));
    }
    }
    return {};
}

// Construction through a drawn mixture of constructors and mutators.
inline json::value build(const RV& v)
{
    switch (v.k) {
    case K::Null:
        switch (sim::draw(3)) {
        case 0:
            return json::value();
        case 1:
            return json::value(nullptr);
        default:
            return json::value(std::monostate {});
        }
    case K::Bool:
        return json::value(v.s == "true");
    case K::Num: {
        if (sim::draw(2) && ref::is_number_text(v.s) && v.s.find_first_of(".eE") == std::string::npos && v.s != "-0" && v.s.size() <= 18) {
            return json::value(std::stoll(v.s));
        }
        return number(v.s);
    }
    case K::Str:
        switch (sim::draw(4)) {
        case 0:
            return json::value(v.s);
        case 1:
            return json::value(std::string_view(v.s));
        case 2:
            if (v.s.find('\0') == std::string::npos) {
                return json::value(v.s.c_str());
            }
            return json::value(v.s);
        default:
            return json::value(json::value::value_type::string, v.s);
        }
    case K::Arr: {
        switch (sim::draw(5)) {
        case 0: {
            json::array a;
            for (auto& x : v.a) {
                a.emplace_back(build(x));
            }
            return json::value(std::move(a));
        }
        case 1: {
            json::array a;
            for (auto& x : v.a) {
                json::value e = build(x);
                a.push_back(e);
            }
            return json::value(a);
        }
        case 2: {
            json::value r = json::array();
            for (auto& x : v.a) {
                r.emplace(build(x));
            }
            return r;
        }
        case 3: {
            std::vector<json::value> xs;
            for (auto& x : v.a) {
                xs.push_back(build(x));
            }
            return json::value(std::move(xs));
        }
        default: {
            json::value r = json::array();
            for (auto& x : v.a) {
                json::array one;
                one.push_back(build(x));
                r += one;
            }
            return r;
        }
        }
    }
    case K::Obj: {
        switch (sim::draw(5)) {
        case 0: {
            json::object o;
            for (auto& [k, x] : v.o) {
                o.emplace(k, build(x));
            }
            return json::value(std::move(o));
        }
        case 1: {
            json::value r = json::object();
            for (auto& [k, x] : v.o) {
                r[k] = build(x);
            }
            return r;
        }
        case 2: {
            json::value r = json::object();
            for (auto& [k, x] : v.o) {
                r.emplace(k, build(x));
            }
            return r;
        }
        case 3: {
            std::map<std::string, json::value> m;
            for (auto& [k, x] : v.o) {
                m.emplace(k, build(x));
            }
            return json::value(std::move(m));
        }
        default: {
            json::value r = json::object();
            for (auto& [k, x] : v.o) {
                r |= json::object { { k, build(x) } };
            }
            return r;
        }
        }
    }
    }
    return {};
}

// Reads everything through the const API.
inline RV read(const json::value& v)
{
    using T = json::value::value_type;
    switch (v.type()) {
    case T::null:
        return RV::null();
    case T::boolean:
        return RV::boolean(v.as_boolean());
    case T::number:
        return RV::num(v.to_string());
    case T::string:
        return RV::str(v.as_string());
    case T::array: {
        RV r = RV::arr();
        for (const auto& x : v.as_array()) {
            r.a.push_back(read(x));
        }
        return r;
    }
    case T::object: {
        RV r = RV::obj();
        for (const auto& [k, x] : v.as_object()) {
            if (!r.o.emplace(k, read(x)).second) {
                sim::violate("structure", "an object holds one key twice");
            }
        }
        return r;
    }
    default:
        sim::violate("structure", "a document contains a value of invalid type");
    }
}
inline RV read(const json::array& a)
{
    RV r = RV::arr();
    for (const auto& x : a) {
        r.a.push_back(read(x));
    }
    return r;
}
inline RV read(const json::object& o)
{
    RV r = RV::obj();
    for (const auto& [k, x] : o) {
        r.o.emplace(k, read(x));
    }
    return r;
}

// Full well-formedness plus equality: every query the API offers must agree with the tree.
inline void expect_value(const json::value& v, const RV& want, const std::string& where)
{
    using T = json::value::value_type;
    auto bad = [&](const std::string& what) {
        sim::violate("content", where + ": " + what + "; expected " + ref::show(want));
    };
    if (!v.valid()) {
        bad("not valid()");
    }
    int kinds = v.is_null() + v.is_boolean() + v.is_number() + v.is_string() + v.is_array() + v.is_object();
    if (kinds != 1) {
        bad("is_*() queries do not agree on one kind");
    }
    static const T types[] = { T::null, T::boolean, T::number, T::string, T::array, T::object };
    if (v.type() != types[static_cast<int>(want.k)]) {
        bad("kind differs, it is " + v.type_name());
    }
    if (v.empty() != want.empty()) {
        bad("empty() differs");
    }
    switch (want.k) {
    case K::Null:
        if (!v.is_null()) {
            bad("not null");
        }
        break;
    case K::Bool:
        if (!v.is_boolean() || v.as_boolean() != (want.s == "true")) {
            bad("boolean differs");
        }
        break;
    case K::Num:
        if (!v.is_number() || v.to_string() != want.s) {
            bad("number text is " + v.to_string());
        }
        break;
    case K::Str:
        if (!v.is_string() || v.as_string() != want.s || v.as_string_view() != want.s) {
            bad("string is " + sim::show(v.as_string()));
        }
        break;
    case K::Arr: {
        if (!v.is_array()) {
            bad("not an array");
        }
        const json::array& a = v.as_array();
        if (a.size() != want.a.size()) {
            bad("array size is " + std::to_string(a.size()));
        }
        if (a.empty() != want.a.empty()) {
            bad("array empty() differs");
        }
        size_t i = 0;
        for (const auto& x : a) {
            expect_value(x, want.a[i], where + "[" + std::to_string(i) + "]");
            if (&a.at(i) != &x || a.find_value(i) != &x || !v.contains(i)) {
                bad("positional access disagrees with iteration");
            }
            ++i;
        }
        if (v.contains(i) || a.find_value(i)) {
            bad("position past the end exists");
        }
        break;
    }
    case K::Obj: {
        if (!v.is_object()) {
            bad("not an object");
        }
        const json::object& o = v.as_object();
        if (o.size() != want.o.size()) {
            bad("object size is " + std::to_string(o.size()));
        }
        auto it = want.o.begin();
        for (const auto& [k, x] : o) {
            if (it == want.o.end() || k != it->first) {
                bad("keys differ at " + sim::show(k));
            }
            expect_value(x, it->second, where + "." + sim::show(k, 30));
            if (&o.at(k) != &x || v.find_value(k) != &x || !v.contains(k)) {
                bad("keyed access disagrees with iteration");
            }
            ++it;
        }
        break;
    }
    }
}
// Compares a result without naming a violation.
inline bool same(const json::value& v, const RV& want)
{
    if (!v.valid()) {
        return false;
    }
    return read(v) == want;
}
} // namespace bridge
