// C08: what a moved-from document has to support.
#pragma once
#include "bridge.hpp"

namespace p08
{
using namespace sim;
// A moved-from value: queried, printed, copied, compared, written to, assigned. `write` also changes it.
inline void probe_source(json::value& v, bool write = true)
{
    step();
    probe("moved-from source used");
    const json::value& c = v;
    const ref::RV now = bridge::read(c);
    bridge::expect_value(c, now, "moved-from value");
    json::value copy = c;
    bridge::expect_value(copy, now, "copy of a moved-from value");
    if (!(copy == c) || copy != c) {
        violate("moved-from", "a copy of a moved-from value differs from it");
    }
    const std::string t = draw(2) ? c.format() : c.to_string();
    auto back = ref::parse("[" + t + "]", ref::Dialect::Strict);
    if (!back || !(back->a.at(0) == now)) {
        violate("moved-from", "a moved-from value prints as " + show(t));
    }
    (void)c.type_name();
    (void)c.value_info();
    (void)c.contains("a");
    (void)c.contains(size_t(0));
    (void)c.find<int>("a");
    (void)c.get("a", "b", 1);
    if (!write) {
        return;
    }
    auto guarded = [&](auto&& f) {
        try {
            f();
        }
        catch (const json::exception&) {
        }
    };
    switch (draw(9)) {
    case 0:
        v = json::value("assigned");
        bridge::expect_value(v, ref::RV::str("assigned"), "moved-from value after assignment");
        break;
    case 1:
        guarded([&] { v.emplace(1); });
        break;
    case 2:
        guarded([&] { v["a"] = 2; });
        break;
    case 3:
        guarded([&] { v.as_array().push_back(1); });
        break;
    case 4:
        guarded([&] { v.as_object().emplace("k", 1); });
        break;
    case 5:
        v.clear();
        bridge::expect_value(v, ref::RV::null(), "cleared moved-from value");
        break;
    case 6:
        v = copy;
        bridge::expect_value(v, now, "moved-from value after assignment of its copy");
        break;
    case 7: {
        json::value again = std::move(v);
        bridge::expect_value(again, now, "moved again");
        break;
    }
    default:
        guarded([&] { v.erase("a"); });
        guarded([&] { v.erase(size_t(0)); });
    }
    bridge::expect_value(v, bridge::read(v), "moved-from value after use");
}
template <typename C> // json::array, json::object
void probe_container(C& c)
{
    step();
    probe("moved-from container used");
    const ref::RV now = bridge::read(std::as_const(c));
    if (now.size() != c.size() || c.empty() != (now.size() == 0)) {
        violate("moved-from", "size() of a moved-from container disagrees with iteration");
    }
    C copy = c;
    if (!(copy == c)) {
        violate("moved-from", "a copy of a moved-from container differs from it");
    }
    const std::string t = draw(2) ? c.format() : c.to_string();
    auto back = ref::parse(t, ref::Dialect::Strict);
    if (!back || !(*back == now)) {
        violate("moved-from", "a moved-from container prints as " + show(t));
    }
    switch (draw(3)) {
    case 0:
        c = copy;
        break;
    case 1:
        c.clear();
        break;
    default:
        c = C();
        if constexpr (std::is_same_v<C, json::array>) {
            c.push_back(1);
        }
        else {
            c["x"] = 1;
        }
        if (c.size() != 1) {
            violate("moved-from", "a moved-from container cannot be used again");
        }
    }
}
} // namespace p08
