// C08: typed objects and documents around conversions in both directions.
#include "forms.hpp"
#include "p08.hpp"
#include "universe.hpp"

namespace
{
using namespace sim;
using ref::RV;

template <typename W>
struct F
{
    using T = typename W::type;
    using Y = typed::Ty<T>;
    static void go()
    {
        const RV origin = Y::rv(Y::gen(3));
        if (!W::exact && Y::conforms(origin) != typed::Conf::Yes) {
            return;
        }
        const T v0 = Y::from(origin);
        const RV want = Y::rv(v0);
        note("document %s", ref::show(want, 300).c_str());
        state(mix(ref::hash(want), 11));
        T v = Y::from(origin);
        auto kept = [&](const T& x, const char* what) {
            if (!Y::eq(x, v0)) {
                violate("source", std::string(what) + ": the typed source is now " + ref::show(Y::rv(x), 400) + ", it was " + ref::show(want, 400));
            }
        };
        auto made = [&](const json::value& d, const char* what) {
            RV got = bridge::read(d);
            if (!typed::same_doc(got, want)) {
                violate("content", std::string(what) + " gave " + ref::show(got, 400) + " instead of " + ref::show(want, 400));
            }
        };
        std::vector<json::value> results;
        // ---------------- typed object -> document, the object is kept
        for (uint64_t n = 1 + draw(3); n--;) {
            step();
            const uint64_t how = draw(12);
            note("to document, form %d", (int)how);
            json::value d;
            switch (how) {
            case 0: {
                json::value t(v); // a variable that is not const
                d = t;
                break;
            }
            case 1:
                d = json::value(std::as_const(v));
                break;
            case 2:
                d = v;
                break;
            case 3:
                d["k"] = v;
                d = json::value(d.at("k"));
                break;
            case 4:
                d.emplace(v);
                d = json::value(d.at(size_t(0)));
                break;
            case 5:
                d.emplace("k", v);
                d = json::value(d.at("k"));
                break;
            case 6: {
                json::array a { v, v };
                made(a.at(0), "array{v, v}, first element");
                d = a[1];
                break;
            }
            case 7: {
                json::object o { { "x", v }, { "y", v } };
                made(o.at("x"), "object{{x, v}, {y, v}}, x");
                d = o.at("y");
                break;
            }
            case 8:
            case 9:
                if constexpr (forms::any<T>) { // the array or object itself
                    using C = forms::Container<T>;
                    const uint64_t way = draw(3);
                    C c = way == 0 ? C(v) : way == 1 ? C(std::as_const(v)) : C();
                    if constexpr (typed::copyable<T>) {
                        if (way == 2) {
                            c = v;
                        }
                    }
                    if (way < 2 || typed::copyable<T>) {
                        d = c;
                        bridge::expect_value(d, bridge::read(std::as_const(c)), "value of an array or object");
                        probe("array or object made of a typed value");
                        break;
                    }
                }
                [[fallthrough]];
            case 10: {
                json::array a;
                a.push_back(v);
                a.emplace_back(v);
                made(a.at(0), "push_back");
                d = a[1];
                break;
            }
            default: {
                json::object o;
                o.insert("a", v);
                o["b"] = v;
                made(o.at("a"), "insert");
                d = o["b"];
            }
            }
            kept(v, "conversion to a document");
            made(d, "conversion to a document");
            results.push_back(std::move(d));
            nontrivial();
        }
        // ---------------- a moved object: other owners of its parts keep them
        if constexpr (typed::copyable<T>) {
            if (draw(2)) {
                T moved = v; // shares pointees with v
                json::value d;
                switch (draw(5)) {
                case 4:
                    if constexpr (forms::any<T>) {
                        forms::Container<T> c(std::move(moved));
                        d = std::move(c);
                        break;
                    }
                    [[fallthrough]];
                case 0:
                    d = json::value(std::move(moved));
                    break;
                case 1:
                    d["k"] = std::move(moved);
                    d = json::value(d.at("k"));
                    break;
                case 2:
                    d.emplace(std::move(moved));
                    d = json::value(d.at(size_t(0)));
                    break;
                default: {
                    std::deque<T> some;
                    some.push_back(std::move(moved));
                    some.push_back(v);
                    d = json::value(std::move(some));
                    made(d.at(1), "conversion of a moved sequence, second element");
                    d = json::value(d.at(size_t(0)));
                }
                }
                made(d, "conversion of a moved object");
                kept(v, "an object that shares parts with a moved one");
                probe("moved object with other owners");
            }
        }
        else if (draw(2)) {
            json::value d = std::move(v);
            made(d, "conversion of a moved object");
            v = Y::from(origin);
        }
        // ---------------- document -> typed object, the document is kept
        json::value doc = bridge::plain(want);
        json::object holder;
        holder.emplace("k", doc);
        for (uint64_t n = 1 + draw(2); n--;) {
            step();
            const uint64_t how = draw(10);
            note("from document, form %d", (int)how);
            auto right = [&](const T& x, const char* what) {
                if (W::exact && !Y::eq(x, v0)) {
                    violate("content", std::string(what) + " gave " + ref::show(Y::rv(x), 400) + " instead of " + ref::show(want, 400));
                }
            };
            switch (how) {
            case 0:
                right(doc.as<T>(), "as");
                break;
            case 1:
                if constexpr (!std::is_same_v<T, json::value> && !typed::is_optional_v<T>) {
                    right(static_cast<T>(doc), "conversion");
                    break;
                }
                [[fallthrough]];
            case 2:
                right(std::as_const(doc).template as<T>(), "as on a const document");
                break;
            case 3: {
                auto r = holder.find<T>("k");
                if (!r) {
                    violate("content", "find<T> found nothing");
                }
                right(*r, "find");
                break;
            }
            case 4: {
                json::value hv(holder);
                auto r = hv.find<T>("k");
                if (!r || !(hv == json::value(holder))) {
                    violate("source", "find<T> found nothing or changed the document");
                }
                right(*r, "find");
                break;
            }
            case 5:
                if (!doc.is<T>()) {
                    violate("content", "is<T>() is false");
                }
                break;
            case 6: { // the pieces of a typed value belong to the caller
                T x = doc.as<T>();
                right(x, "as");
                x = Y::from(origin);
                break;
            }
            case 7:
            case 8:
                if constexpr (forms::any<T>) { // out of the array or object itself
                    const uint64_t way = draw(forms::out_ways);
                    if (way < 2) {
                        right(forms::out<T>(forms::part<T>(std::as_const(doc)), way), "conversion of an array or object");
                    }
                    else {
                        json::value c = doc;
                        right(forms::out_moved<T>(std::move(forms::part<T>(c)), way), "conversion of a moved array or object");
                        if (draw(2)) {
                            p08::probe_container(forms::part<T>(c));
                        }
                        p08::probe_source(c);
                    }
                    probe("array or object converted");
                    break;
                }
                [[fallthrough]];
            default: { // moved: whatever is left can be used
                json::value c = doc;
                T x = std::move(c).template as<T>();
                right(x, "as of a moved copy");
                p08::probe_source(c);
            }
            }
            bridge::expect_value(doc, want, "document after reading a typed value");
            bridge::expect_value(holder.at("k"), want, "document after find");
        }
        // ---------------- everything made before is still what it was
        if (draw(2)) {
            v = Y::gen(2);
            doc = json::value();
        }
        for (auto& d : results) {
            made(d, "a document made earlier");
        }
        sample("conversions of " + ref::show(want, 120));
    }
};
} // namespace
template <>
void universe::entry<CHUNK>(size_t i)
{
    call_chunk<F, CHUNK>(All {}, i);
}
