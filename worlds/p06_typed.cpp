// C06: conversions of every supported type while allocations fail.
#include "forms.hpp"
#include "p06.hpp"
#include "universe.hpp"

namespace
{
using namespace sim;
using ref::RV;

template <typename W>
struct F
{
    using T = typename W::type;
    using Y = typed::Ty<T>;
    struct S
    {
        std::optional<T> in, out;
        std::optional<json::value> doc, made;
        std::optional<std::optional<T>> found;
        int flag = -1;
        bool consumed = false;
    };
    static void go()
    {
        const RV origin = Y::rv(Y::gen(2));
        const T v = Y::from(origin);
        const RV want = Y::rv(v); // (sets without an order keep the one they got from this origin)
        note("document %s", ref::show(want, 300).c_str());
        RV holder = RV::obj();
        holder.o["k"] = want;
        holder.o["other"] = RV::str("a string long enough to be allocated");
        const uint64_t how = draw(14);
        auto same_doc = [&](const json::value& d, const RV& w, const char* what) {
            if (!typed::same_doc(bridge::read(d), w)) {
                violate("result", std::string(what) + " gave " + ref::show(bridge::read(d), 400) + " instead of " + ref::show(w, 400));
            }
        };
        auto same = [&](const T& x, const char* what) {
            if (W::exact && !Y::eq(x, v)) {
                violate("result", std::string(what) + " gave " + ref::show(Y::rv(x), 400) + " instead of " + ref::show(want, 400));
            }
        };
        auto source_kept = [&](S& s) {
            if (s.in && !s.consumed && !Y::eq(*s.in, v)) {
                violate("source", "the typed source changed");
            }
            if (s.doc && !s.consumed) {
                bridge::expect_value(*s.doc, holder, "source document");
            }
        };
        auto typed_source = [&] {
            S s;
            s.in.emplace(Y::from(origin));
            return s;
        };
        auto doc_source = [&] {
            S s;
            s.doc.emplace(bridge::plain(holder));
            return s;
        };
        auto nothing_made = [&](S& s) {
            if (s.made || s.out || s.found || s.flag != -1) {
                violate("outcome", "a failed operation left a result");
            }
            source_kept(s);
        };
        if constexpr (!W::exact) {
            if (Y::conforms(want) != typed::Conf::Yes) {
                return;
            }
        }
        switch (how) {
        case 0:
            p06::sweep(
                "document from a typed value", typed_source,
                [](S& s) {
                    const T& c = *s.in;
                    p06::Seam on;
                    s.made.emplace(c);
                },
                [&](S& s) { source_kept(s), same_doc(*s.made, want, "construction"); }, nothing_made);
            break;
        case 1:
            p06::sweep(
                "document from a moved typed value", typed_source,
                [](S& s) {
                    s.consumed = true;
                    p06::Seam on;
                    s.made.emplace(std::move(*s.in));
                },
                [&](S& s) { same_doc(*s.made, want, "construction"); }, nothing_made);
            break;
        case 2:
            p06::sweep(
                "as<T>", doc_source,
                [](S& s) {
                    const json::value& c = *s.doc->find_value("k");
                    p06::Seam on;
                    s.out.emplace(c.as<T>());
                },
                [&](S& s) { source_kept(s), same(*s.out, "as"); }, nothing_made);
            break;
        case 3:
            p06::sweep(
                "as<T> of a moved document", doc_source,
                [](S& s) {
                    s.consumed = true;
                    json::value c = std::move((*s.doc)["k"]);
                    p06::Seam on;
                    s.out.emplace(std::move(c).template as<T>());
                },
                [&](S& s) { same(*s.out, "as of a moved document"); }, nothing_made);
            break;
        case 4:
            p06::sweep(
                "is<T>", doc_source,
                [](S& s) {
                    const json::value& c = *s.doc->find_value("k");
                    p06::Seam on;
                    s.flag = c.is<T>();
                },
                [&](S& s) {
                    source_kept(s);
                    if (!s.flag) {
                        violate("result", "is<T>() is false for the document of a T");
                    }
                },
                nothing_made);
            break;
        case 5:
            p06::sweep(
                "find<T>", doc_source,
                [](S& s) {
                    const json::value& c = *s.doc;
                    p06::Seam on;
                    s.found.emplace(c.find<T>("k"));
                },
                [&](S& s) {
                    source_kept(s);
                    if (!*s.found) {
                        violate("result", "find<T> found nothing");
                    }
                    same(**s.found, "find");
                },
                nothing_made);
            break;
        case 6:
            if constexpr (std::is_copy_constructible_v<T> && (std::is_arithmetic_v<T> || std::is_same_v<T, std::string>)) {
                const T def = Y::gen(1);
                const bool absent = draw(2);
                p06::sweep(
                    "get with default", doc_source,
                    [&](S& s) {
                        const json::value& c = *s.doc;
                        p06::Seam on;
                        s.out.emplace(c.get(absent ? "x" : "k", def));
                    },
                    [&](S& s) {
                        source_kept(s);
                        if (absent ? !Y::eq(*s.out, def) : false) {
                            violate("result", "get returned something else than the default");
                        }
                        if (!absent) {
                            same(*s.out, "get");
                        }
                    },
                    nothing_made);
                break;
            }
            [[fallthrough]];
        case 7:
        case 8: {
            const bool fresh = draw(2);
            RV wanted = holder;
            wanted.o[fresh ? "new" : "other"] = want;
            p06::sweep(
                "document element assigned from a typed value",
                [&] {
                    S s = typed_source();
                    s.doc.emplace(bridge::plain(holder));
                    return s;
                },
                [&](S& s) {
                    if (how == 8) {
                        s.consumed = true;
                        p06::Seam on;
                        (*s.doc)[fresh ? "new" : "other"] = std::move(*s.in);
                    }
                    else {
                        const T& c = *s.in;
                        p06::Seam on;
                        (*s.doc)[fresh ? "new" : "other"] = c;
                    }
                },
                [&](S& s) {
                    same_doc(*s.doc, wanted, "assignment");
                    if (!s.consumed) {
                        same(*s.in, "the source of the assignment");
                    }
                },
                [&](S& s) {
                    const RV now = bridge::read(*s.doc);
                    bridge::expect_value(*s.doc, now, "document after a failed assignment");
                    RV half = holder;
                    if (fresh) {
                        half.o["new"] = RV::null();
                    }
                    if (!(now == holder) && !(now == half)) {
                        violate("state", "a failed assignment left " + ref::show(now, 400));
                    }
                    if (!s.consumed) {
                        same(*s.in, "the source of the failed assignment");
                        const T& c = *s.in;
                        (*s.doc)[fresh ? "new" : "other"] = c;
                        same_doc(*s.doc, wanted, "assignment tried again");
                    }
                });
            break;
        }
        case 9:
            // (a cast to std::optional uses the converting constructor of std::optional, which never asks the document)
            if constexpr (!std::is_same_v<T, json::value> && !typed::is_optional_v<T>) {
                p06::sweep(
                    "conversion operator", doc_source,
                    [](S& s) {
                        const json::value& c = *s.doc->find_value("k");
                        p06::Seam on;
                        s.out.emplace(static_cast<T>(c));
                    },
                    [&](S& s) { source_kept(s), same(*s.out, "conversion"); }, nothing_made);
                break;
            }
            [[fallthrough]];
        case 10: { // the wrong type: the refusal survives a failing allocation too
            const RV other = Y::conforms(RV::str("nowhere")) == typed::Conf::No ? RV::str("nowhere") : RV::boolean(false);
            if (Y::conforms(other) != typed::Conf::No) {
                return;
            }
            RV h2 = holder;
            h2.o["k"] = other;
            p06::sweep(
                "refused as<T>",
                [&] {
                    S s;
                    s.doc.emplace(bridge::plain(h2));
                    return s;
                },
                [](S& s) {
                    const json::value& c = *s.doc->find_value("k");
                    try {
                        p06::Seam on;
                        s.out.emplace(c.as<T>());
                    }
                    catch (const json::exception&) {
                        mem::plan.on = false;
                        s.flag = 7;
                    }
                },
                [&](S& s) {
                    bridge::expect_value(*s.doc, h2, "source document");
                    if (s.flag != 7) {
                        violate("result", "as<T> accepted " + ref::show(other));
                    }
                },
                [&](S& s) { bridge::expect_value(*s.doc, h2, "source document"); });
            break;
        }
        case 11: // the array or object itself
            if constexpr (forms::any<T>) {
                using C = forms::Container<T>;
                const uint64_t way = draw(3);
                p06::sweep(
                    "array or object from a typed value", typed_source,
                    [&](S& s) {
                        s.consumed = way == 2;
                        p06::Seam on;
                        C c = way == 0 ? C(std::as_const(*s.in)) : way == 1 ? C(*s.in) : C(std::move(*s.in));
                        s.made.emplace(std::move(c));
                    },
                    [&](S& s) { source_kept(s), same_doc(*s.made, want, "construction"); }, nothing_made);
                break;
            }
            [[fallthrough]];
        case 12:
            if constexpr (forms::any<T>) {
                if (!forms::holds<T>(bridge::plain(want))) {
                    return;
                }
                const uint64_t way = draw(forms::out_ways);
                p06::sweep(
                    "typed value from an array or object", doc_source,
                    [&](S& s) {
                        s.consumed = way > 1;
                        json::value& k = (*s.doc)["k"];
                        auto& part = forms::part<T>(k);
                        p06::Seam on;
                        if (way > 1) {
                            s.out.emplace(forms::out_moved<T>(std::move(part), way));
                        }
                        else {
                            s.out.emplace(forms::out<T>(std::as_const(part), way));
                        }
                    },
                    [&](S& s) { source_kept(s), same(*s.out, "conversion of an array or object"); }, nothing_made);
                break;
            }
            [[fallthrough]];
        default:
            p06::sweep(
                "emplace of a typed value",
                [&] {
                    S s = typed_source();
                    s.doc.emplace(json::array { "first element, long enough to be allocated" });
                    return s;
                },
                [](S& s) {
                    const T& c = *s.in;
                    p06::Seam on;
                    s.doc->emplace(c);
                },
                [&](S& s) {
                    if (bridge::read(*s.doc).a.size() != 2) {
                        violate("result", "emplace did not add one element");
                    }
                    same_doc(*s.doc->find_value(size_t(1)), want, "emplace");
                    same(*s.in, "the source of emplace");
                },
                [&](S& s) {
                    RV one = RV::arr();
                    one.a.push_back(RV::str("first element, long enough to be allocated"));
                    bridge::expect_value(*s.doc, one, "array after a failed emplace");
                    same(*s.in, "the source of emplace");
                });
        }
    }
};
} // namespace
template <>
void universe::entry<CHUNK>(size_t i)
{
    call_chunk<F, CHUNK>(All {}, i);
}
