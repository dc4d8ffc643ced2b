// What a peer does to a message: another version's fields, another spelling, hostile numbers. Works on the reference
// tree only; a skewed message is a well-formed document that may or may not conform to the receiver's type.
#pragma once
#include "ref.hpp"

namespace skew
{
using ref::K;
using ref::RV;
using sim::draw;

inline void collect(RV& v, std::vector<RV*>& out)
{
    out.push_back(&v);
    for (auto& x : v.a) {
        collect(x, out);
    }
    for (auto& [k, x] : v.o) {
        collect(x, out);
    }
}
inline std::string number_near(const std::string& s)
{
    static const char* const edge[] = { "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
                                        "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
                                        "18446744073709551616", "-1", "-0", "0", "127", "128", "-128", "-129", "255", "256", "32768", "65536",
                                        "99999999999999999999999999", "1e400", "-1e400", "1e39", "3.5e38", "1e5000", "1e-5", "1.7976931348623159e308",
                                        "3.4028236e38", "1e0", "1E+2", "0.0", "5e-1", "0e0", "10e-1", "123456789.0" };
    switch (draw(9)) {
    case 0:
        return s.find_first_of(".eE") == s.npos ? s + ".0" : s;
    case 1:
        return s.find_first_of("eE") == s.npos ? s + "e0" : s;
    case 2:
        return s.find_first_of(".eE") == s.npos ? s + "e2" : s;
    case 3:
        return s[0] == '-' ? s.substr(1) : "-" + s;
    case 4: { // one more digit
        std::string t = s;
        size_t e = s.find_first_of(".eE");
        t.insert(e == s.npos ? s.size() : e, s[0] == '0' || s.substr(0, 2) == "-0" ? "" : "7");
        return t;
    }
    case 5: { // the last digit of the integer part changes
        std::string t = s;
        size_t e = s.find_first_of(".eE");
        char& c = t[(e == s.npos ? s.size() : e) - 1];
        if (c != '0' || (t.size() > 1 && t[0] != '-')) {
            c = static_cast<char>('1' + draw(9));
        }
        return ref::is_number_text(t) ? t : s;
    }
    default:
        return edge[draw(std::size(edge))];
    }
}
inline std::string spelling(std::string s)
{
    if (s.empty()) {
        return draw(2) ? " " : std::string(1, '\0');
    }
    const size_t at = draw(s.size());
    switch (draw(8)) {
    case 0:
    case 1: // other case
        for (auto& c : s) {
            if (draw(2)) {
                c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c);
            }
        }
        return s;
    case 2:
        return s + std::string(1, "x \0_"[draw(4)]);
    case 3:
        return " " + s;
    case 4:
        return s.substr(0, s.size() - 1);
    case 5:
        return s + s;
    case 6: // a neighbour that differs in the case bit without being a letter
        s[at] = static_cast<char>(s[at] ^ 0x20);
        return s;
    default:
        s[at] = static_cast<char>(s[at] + 1);
        return s;
    }
}
// One change somewhere in the message.
inline void once(RV& root, const RV* donor = nullptr)
{
    std::vector<RV*> all;
    collect(root, all);
    RV& v = *all[draw(all.size())];
    switch (draw(12)) {
    case 0: // another kind altogether
    case 1:
        switch (draw(9)) {
        case 0:
            v = RV::null();
            break;
        case 1:
            v = RV::boolean(draw(2));
            break;
        case 2:
            v = RV::num(number_near("1"));
            break;
        case 3:
            v = RV::str("");
            break;
        case 4:
            v = RV::str(v.k == K::Num || v.k == K::Bool ? v.s : "text");
            break;
        case 5:
            v = RV::arr();
            break;
        case 6:
            v = RV::obj();
            break;
        case 7: {
            RV a = RV::arr();
            a.a.push_back(std::move(v));
            v = std::move(a);
            break;
        }
        default:
            if (donor) {
                v = *donor;
            }
            else {
                v = RV::null();
            }
        }
        sim::fault("message: another kind");
        return;
    case 2:
    case 3:
    case 4: { // within the same kind: look for a scalar if this is a container
        RV* p = &v;
        for (RV* x : all) {
            if (p->container() && !x->container()) {
                p = x;
            }
        }
        if (p->k == K::Num) {
            p->s = number_near(p->s);
            sim::fault("message: number");
        }
        else if (p->k == K::Str) {
            p->s = spelling(p->s);
            sim::fault("message: spelling");
        }
        else if (p->k == K::Bool) {
            *p = draw(2) ? RV::num(p->s == "true" ? "1" : "0") : RV::str(p->s);
            sim::fault("message: boolean");
        }
        else {
            *p = RV::num("0");
            sim::fault("message: null");
        }
        return;
    }
    default:
        break;
    }
    // structure: find a container
    RV* p = &v;
    for (size_t i = 0; i < all.size() && !p->container(); ++i) {
        p = all[i];
    }
    if (p->k == K::Arr) {
        switch (draw(5)) {
        case 0:
            if (!p->a.empty()) {
                p->a.erase(p->a.begin() + static_cast<long>(draw(p->a.size())));
            }
            break;
        case 1:
            p->a.push_back(p->a.empty() ? RV::null() : p->a[draw(p->a.size())]);
            break;
        case 2:
            p->a.insert(p->a.begin(), RV::null());
            break;
        case 3:
            if (p->a.size() > 1) {
                std::swap(p->a.front(), p->a.back());
            }
            break;
        default: { // an object with numbers as keys instead
            RV o = RV::obj();
            for (size_t i = 0; i < p->a.size(); ++i) {
                o.o[std::to_string(i)] = p->a[i];
            }
            *p = std::move(o);
        }
        }
        sim::fault("message: array shape");
    }
    else if (p->k == K::Obj) {
        auto it = p->o.begin();
        if (!p->o.empty()) {
            std::advance(it, static_cast<long>(draw(p->o.size())));
        }
        switch (draw(6)) {
        case 0:
        case 1:
            if (!p->o.empty()) {
                p->o.erase(it);
            }
            break;
        case 2: // a field this version does not know
            p->o[sim::draw(2) ? "unknown" : ref::gen_key()] = p->o.empty() ? RV::num("1") : it->second;
            break;
        case 3:
            if (!p->o.empty()) { // renamed
                RV x = std::move(it->second);
                std::string k = spelling(it->first);
                p->o.erase(it);
                p->o[k] = std::move(x);
            }
            break;
        case 4:
            if (!p->o.empty()) {
                it->second = RV::null();
            }
            break;
        default: { // only the values
            RV a = RV::arr();
            for (auto& [k, x] : p->o) {
                a.a.push_back(x);
            }
            *p = std::move(a);
        }
        }
        sim::fault("message: object shape");
    }
}
} // namespace skew
