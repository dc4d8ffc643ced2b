// C09, C10: typed items of a thread's program.
#include "bridge.hpp"
#include "forms.hpp"
#include "skew.hpp"
#include "threads.hpp"
#include "universe.hpp"

namespace
{
using namespace sim;
using ref::K;
using ref::RV;
using threads::Do;
using typed::Conf;

template <typename W>
struct F
{
    using T = typename W::type;
    using Y = typed::Ty<T>;

    static void right(const T& x, const RV& m, const char* what)
    {
        if (!Y::eq(x, Y::from(m))) {
            violate("value", std::string(what) + " gave " + ref::show(Y::rv(x), 300) + " for " + ref::show(m, 300));
        }
    }
    static void read(const json::value& d, const RV& m, uint64_t form)
    {
        const Conf c = Y::conforms(m);
        const bool is = d.is<T>();
        if (c != Conf::Either && is != (c == Conf::Yes)) {
            violate("check", std::string("is() is ") + (is ? "true" : "false") + " for " + ref::show(m, 300));
        }
        std::optional<T> x;
        switch (form % 5) {
        case 4:
            if constexpr (forms::any<T>) {
                if (forms::holds<T>(d)) {
                    try {
                        x.emplace(forms::out<T>(forms::part<T>(d), form / 5));
                    }
                    catch (const json::exception&) {
                    }
                    break;
                }
            }
            [[fallthrough]];
        case 0:
        case 1:
            try {
                x.emplace(d.as<T>());
            }
            catch (const json::exception&) {
            }
            break;
        case 2:
            if constexpr (typed::copyable<T>) {
                const json::object o { { "k", d } };
                x = o.find<T>("k");
            }
            else {
                return;
            }
            break;
        default:
            if constexpr (!std::is_same_v<T, json::value> && !typed::is_optional_v<T>) {
                try {
                    x.emplace(static_cast<T>(d));
                }
                catch (const json::exception&) {
                }
            }
            else {
                return;
            }
        }
        if (x.has_value() != is) {
            violate("conversion", std::string("is() is ") + (is ? "true" : "false") + ", the conversion " + (x ? "succeeded" : "failed") + " for " +
                                      ref::show(m, 300));
        }
        if (x && c == Conf::Yes) {
            right(*x, m, "a typed read");
        }
    }
    static void convert(const T& x, const RV& m, uint64_t form)
    {
        if constexpr (typed::copyable<T>) {
            std::optional<json::value> v;
            if (form % 5 == 4) {
                if constexpr (forms::any<T>) {
                    v.emplace(forms::Container<T>(x));
                }
                else {
                    v.emplace(x);
                }
            }
            else if (form & 1) {
                v.emplace(x);
            }
            else {
                T y = x;
                v.emplace(std::move(y));
            }
            const std::string t = form & 2 ? v->to_string() : form & 4 ? v->format() : v->dumps(2);
            if (v->is_array() || v->is_object()) {
                auto r = form & 8 ? json::parsec(t) : json::parse(t);
                if (!r) {
                    violate("parse", "the text of a converted value was refused: " + show(t));
                }
                if (bridge::read(*r) != bridge::read(*v)) {
                    violate("parse", "the text of a converted value reads back differently: " + show(t));
                }
                v = std::move(*r);
            }
            if (Y::conforms(m) == Conf::Yes) {
                T y = v->template as<T>();
                if (W::exact) {
                    right(y, m, "conversion to a document and back");
                }
            }
        }
    }
    static void go()
    {
        threads::Job& j = *threads::job;
        switch (j.what) {
        case Do::Message:
            *j.out = Y::rv(Y::gen(2));
            break;
        case Do::Value: {
            auto p = std::make_shared<T>(Y::gen(2));
            RV m = Y::rv(*p);
            if (Y::conforms(m) == Conf::Yes) {
                *p = Y::from(m);
            }
            *j.out = std::move(m);
            j.own = p;
            break;
        }
        case Do::Read:
            read(*static_cast<const json::value*>(j.node), *j.want, j.form);
            break;
        case Do::Convert:
            convert(*static_cast<const T*>(j.own.get()), *j.want, j.form);
            break;
        case Do::Receive: {
            json::value d = bridge::plain(*j.want);
            read(d, *j.want, j.form);
            break;
        }
        }
    }
};
} // namespace
template <>
void universe::entry<CHUNK>(size_t i)
{
    call_chunk<F, CHUNK>(All {}, i);
}
