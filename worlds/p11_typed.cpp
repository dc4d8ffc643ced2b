// C11: the operations, for every type.
#include "p11.hpp"

namespace
{
using namespace sim;
using namespace p11;

template <typename T, typename = void>
struct is_struct : std::false_type
{
};
template <typename T>
struct is_struct<T, std::void_t<decltype(T::fields())>> : std::true_type
{
};

template <typename W>
struct F
{
    using T = typename W::type;
    using Y = typed::Ty<T>;
    static constexpr bool moving_only = std::is_same_v<T, H4>;
    static constexpr bool copies = typed::copyable<T> && !moving_only;
    static constexpr bool listed = json::_utils::is_collection<T> || json::_utils::is_fixed_array<T> || json::_utils::is_tuple_like<T>;
    static constexpr bool mapped = json::_utils::is_map<T>;
    struct S
    {
        std::optional<T> in, out, in2;
        std::optional<json::value> doc, made;
        std::optional<std::optional<T>> found;
        int flag = -1;
        bool consumed = false;
        std::string key;
        void reset()
        {
            out.reset();
            made.reset();
            found.reset();
            flag = -1;
            key.clear();
        }
    };
    static void go()
    {
        const RV origin = Y::rv(Y::gen(2));
        const T v = Y::from(origin);
        const RV want = Y::rv(v);
        note("document %s", ref::show(want, 300).c_str());
        RV holder = RV::obj();
        holder.o["k"] = want;
        holder.o["other"] = RV::str("a string long enough to be allocated");
        RV row = RV::arr();
        row.a.push_back(holder.o["other"]);
        row.a.push_back(want);

        auto is_doc = [&](const json::value& d, const RV& w, const std::string& say) {
            if (!(bridge::read(d) == w)) {
                violate("result", say + " gave " + ref::show(bridge::read(d), 400) + " instead of " + ref::show(w, 400));
            }
        };
        auto is_val = [&](const T& x, const std::string& say) {
            if (!Y::eq(x, v)) {
                violate("result", say + " gave " + ref::show(Y::rv(x), 400) + " instead of " + ref::show(want, 400));
            }
        };
        const RV* source = &holder;
        auto kept = [&](S& s, const std::string& say) {
            if (s.made || s.out || s.found) {
                violate("half-made", say + "a result although the operation failed");
            }
            if (s.consumed) {
                return;
            }
            if (s.in) {
                is_val(*s.in, say + "the source");
            }
            if (s.doc) {
                bridge::expect_value(*s.doc, *source, say + "the document");
            }
        };
        auto typed_source = [&] {
            S s;
            s.in.emplace(Y::from(origin));
            return s;
        };
        auto doc_source = [&] {
            S s;
            s.doc.emplace(bridge::plain(*source));
            return s;
        };
        auto both = [&] {
            S s = typed_source();
            s.doc.emplace(bridge::plain(*source));
            return s;
        };
        auto good_made = [&](S& s) {
            is_doc(*s.made, want, "conversion");
            if (!s.consumed) {
                is_val(*s.in, "the source of a conversion");
            }
        };
        auto good_out = [&](S& s) {
            is_val(*s.out, "conversion");
            if (!s.consumed) {
                bridge::expect_value(*s.doc, *source, "the document");
            }
        };
        auto answer_false = [&](S& s, const std::string& say) {
            if (s.flag != 0) {
                violate("answer", say + "the type check is true");
            }
            s.reset();
        };

        switch (is_struct<T>::value && draw(3) == 2 ? 12 : draw(14)) {
        case 0: // document from a value
            if constexpr (!moving_only) {
                return sweep(
                    "document from a value", typed_source,
                    [](S& s) {
                        const T& c = *s.in;
                        Seam on;
                        s.made.emplace(c);
                    },
                    good_made, kept, nullptr);
            }
            [[fallthrough]];
        case 1:
            return sweep(
                "document from a moved value", typed_source,
                [](S& s) {
                    s.consumed = true;
                    Seam on;
                    s.made.emplace(std::move(*s.in));
                },
                good_made, kept, nullptr);
        case 2: { // element assigned
            const bool fresh = draw(3) == 0, move = draw(2);
            const bool merge = draw(3) == 0;
            RV wanted = holder;
            wanted.o[fresh ? "new" : "other"] = want;
            auto run = [&](S& s) {
                const std::string key = fresh ? "new" : "other";
                s.consumed = move || moving_only;
                if (move || moving_only) {
                    Seam on;
                    (*s.doc)[key] = std::move(*s.in);
                }
                else if constexpr (!moving_only) {
                    const T& c = *s.in;
                    Seam on;
                    if (merge) {
                        *s.doc |= json::object { { key, c } };
                    }
                    else {
                        (*s.doc)[key] = c;
                    }
                }
            };
            return sweep(
                "element assigned", both, run, [&](S& s) { is_doc(*s.doc, wanted, "assignment"); },
                [&](S& s, const std::string& say) {
                    const RV now = bridge::read(*s.doc);
                    bridge::expect_value(*s.doc, now, say + "the document");
                    RV half = holder;
                    if (fresh && !merge) {
                        half.o["new"] = RV::null();
                    }
                    if (!(now == holder) && !(now == half)) {
                        violate("destination", say + "left " + ref::show(now, 400));
                    }
                    if (!s.consumed) {
                        is_val(*s.in, say + "the source");
                    }
                },
                nullptr);
        }
        case 3: { // element added
            const bool move = draw(2);
            const uint64_t way = draw(6);
            source = way < 3 ? &holder : &row;
            RV wanted = *source;
            if (way < 3) {
                wanted.o["new"] = want;
            }
            else {
                wanted.a.push_back(want);
            }
            auto add = [way](json::value& d, auto&& x) {
                using X = decltype(x);
                switch (way) {
                case 0:
                    d.emplace("new", std::forward<X>(x));
                    break;
                case 1:
                    d.as_object().emplace("new", std::forward<X>(x));
                    break;
                case 2:
                    d.as_object().insert("new", std::forward<X>(x));
                    break;
                case 3:
                    d.emplace(std::forward<X>(x));
                    break;
                case 4:
                    d.as_array().emplace_back(std::forward<X>(x));
                    break;
                default:
                    d.as_array().push_back(std::forward<X>(x));
                }
            };
            return sweep(
                "element added", both,
                [&](S& s) {
                    s.consumed = move || moving_only;
                    if (move || moving_only) {
                        Seam on;
                        add(*s.doc, std::move(*s.in));
                    }
                    else if constexpr (!moving_only) {
                        const T& c = *s.in;
                        Seam on;
                        add(*s.doc, c);
                    }
                },
                [&](S& s) { is_doc(*s.doc, wanted, "adding an element"); },
                [&](S& s, const std::string& say) {
                    bridge::expect_value(*s.doc, *source, say + "the destination");
                    if (!s.consumed) {
                        is_val(*s.in, say + "the source");
                    }
                },
                nullptr);
        }
        case 4: // several at once
            if constexpr (!moving_only) {
                const bool object = draw(2);
                RV wanted = object ? RV::obj() : RV::arr();
                if (object) {
                    wanted.o["a"] = wanted.o["b"] = want;
                }
                else {
                    wanted.a = { want, RV::str("x"), want };
                }
                return sweep(
                    "document with several elements", typed_source,
                    [&](S& s) {
                        const T& c = *s.in;
                        Seam on;
                        if (object) {
                            s.made.emplace(json::object { { "a", json::value(c) }, { "b", json::value(c) } });
                        }
                        else {
                            s.made.emplace(json::array { json::value(c), "x", json::value(c) });
                        }
                    },
                    [&](S& s) { is_doc(*s.made, wanted, "construction"), is_val(*s.in, "the source"); }, kept, nullptr);
            }
            [[fallthrough]];
        case 5: // array or object made directly
            if constexpr (listed || mapped) {
                using C = std::conditional_t<mapped, json::object, json::array>;
                const bool move = draw(2) || !copies;
                return sweep(
                    "array or object from a value", typed_source,
                    [&](S& s) {
                        s.consumed = move;
                        if (move) {
                            Seam on;
                            C made(std::move(*s.in));
                            s.made.emplace(std::move(made));
                        }
                        else if constexpr (copies) {
                            const T& c = *s.in;
                            Seam on;
                            C made(c);
                            s.made.emplace(std::move(made));
                        }
                    },
                    good_made, kept, nullptr);
            }
            [[fallthrough]];
        case 6: // values out of a document
            if constexpr (!moving_only) {
                const bool op = !typed::is_optional_v<T> && draw(2);
                return sweep(
                    "as", doc_source,
                    [&](S& s) {
                        const json::value& c = *s.doc->find_value("k");
                        Seam on;
                        if (op) {
                            if constexpr (!typed::is_optional_v<T>) {
                                s.out.emplace(static_cast<T>(c));
                            }
                        }
                        else {
                            s.out.emplace(c.template as<T>());
                        }
                    },
                    good_out, kept, nullptr);
            }
            [[fallthrough]];
        case 7: {
            const bool op = !typed::is_optional_v<T> && draw(2);
            return sweep(
                "as of a moved document", doc_source,
                [&](S& s) {
                    s.consumed = true;
                    json::value c = std::move((*s.doc)["k"]);
                    Seam on;
                    if (op) {
                        if constexpr (!typed::is_optional_v<T>) {
                            s.out.emplace(static_cast<T>(std::move(c)));
                        }
                    }
                    else {
                        s.out.emplace(std::move(c).template as<T>());
                    }
                },
                good_out, kept, nullptr);
        }
        case 8: // from the array or object itself
            if constexpr (listed || mapped) {
                source = &want;
                const bool move = draw(2);
                const bool op = !typed::is_optional_v<T> && draw(2);
                return sweep(
                    "conversion of an array or object", doc_source,
                    [&](S& s) {
                        auto part = [&]() -> auto& {
                            if constexpr (mapped) {
                                return s.doc->as_object();
                            }
                            else {
                                return s.doc->as_array();
                            }
                        };
                        auto& p = part();
                        s.consumed = move;
                        Seam on;
                        if (move) {
                            if (op) {
                                s.out.emplace(static_cast<T>(std::move(p)));
                            }
                            else {
                                s.out.emplace(std::move(p).template as<T>());
                            }
                        }
                        else if (op) {
                            s.out.emplace(static_cast<T>(std::as_const(p)));
                        }
                        else {
                            s.out.emplace(std::as_const(p).template as<T>());
                        }
                    },
                    good_out, kept, nullptr);
            }
            [[fallthrough]];
        case 9: { // type checks
            const uint64_t way = draw(4);
            if (way) {
                const size_t n = 1 + draw(5);
                const bool obj = way == 3 || (way == 1 && draw(2));
                row = obj ? RV::obj() : RV::arr();
                for (size_t i = 0; i < n; ++i) {
                    if (obj) {
                        row.o["k" + std::to_string(i)] = want;
                    }
                    else {
                        row.a.push_back(want);
                    }
                }
                source = &row;
            }
            return sweep(
                "type check", doc_source,
                [&](S& s) {
                    const json::value& c = *s.doc;
                    Seam on;
                    s.flag = way == 0 ? c.find_value("k")->template is<T>() : way == 1 ? c.template all<T>()
                             : way == 2 ? c.as_array().template all<T>()
                                        : c.as_object().template all<T>();
                },
                [&](S& s) {
                    bridge::expect_value(*s.doc, *source, "the document");
                    if (s.flag != 1) {
                        violate("result", "the type check is false for a document of the type");
                    }
                },
                kept, answer_false);
        }
        case 10: // typed find
            if constexpr (!moving_only) {
                const uint64_t way = draw(4);
                source = way < 2 ? &holder : &row;
                return sweep(
                    "typed find", doc_source,
                    [&](S& s) {
                        const json::value& c = *s.doc;
                        Seam on;
                        switch (way) {
                        case 0:
                            s.found.emplace(c.template find<T>("k"));
                            break;
                        case 1:
                            s.found.emplace(c.as_object().template find<T>("k"));
                            break;
                        case 2:
                            s.found.emplace(c.template find<T>(1));
                            break;
                        default:
                            s.found.emplace(c.as_array().template find<T>(1));
                        }
                    },
                    [&](S& s) {
                        bridge::expect_value(*s.doc, *source, "the document");
                        if (!*s.found) {
                            violate("result", "find found nothing");
                        }
                        is_val(**s.found, "find");
                    },
                    kept,
                    [&](S& s, const std::string& say) {
                        if (*s.found) {
                            violate("answer", say + "find found something");
                        }
                        s.reset();
                    },
                    true);
            }
            [[fallthrough]];
        case 11: // get with a default
            if constexpr (copies) {
                const RV other = Y::rv(Y::gen(1));
                const T def = Y::from(other);
                const uint64_t way = draw(5);
                RV deep = RV::obj();
                if (way < 2) {
                    source = &holder;
                }
                else if (way < 4) {
                    source = &row;
                }
                else {
                    deep.o["d"] = row;
                    source = &deep;
                }
                return sweep(
                    "get", doc_source,
                    [&](S& s) {
                        const json::value& c = *s.doc;
                        Seam on;
                        switch (way) {
                        case 0:
                            s.out.emplace(c.get("k", def));
                            break;
                        case 1:
                            s.out.emplace(c.as_object().get("k", def));
                            break;
                        case 2:
                            s.out.emplace(c.get(1, def));
                            break;
                        case 3:
                            s.out.emplace(c.as_array().get(1, def));
                            break;
                        default:
                            s.out.emplace(c.get("d", 1, def));
                        }
                    },
                    good_out, kept,
                    [&](S& s, const std::string& say) {
                        if (!Y::eq(*s.out, def)) {
                            violate("answer", say + "get gave " + ref::show(Y::rv(*s.out), 400) + " instead of the default");
                        }
                        s.reset();
                    },
                    true);
            }
            [[fallthrough]];
        case 12: // the members of a struct
            if constexpr (is_struct<T>::value) {
                const uint64_t way = draw(3);
                source = &want;
                switch (way) {
                case 0:
                    return sweep(
                        "to_json", typed_source,
                        [](S& s) {
                            const T& c = *s.in;
                            Seam on;
                            s.made.emplace(c.to_json());
                        },
                        good_made, kept, nullptr);
                case 1:
                    return sweep(
                        "check_json", doc_source,
                        [&](S& s) {
                            T t {};
                            Seam on;
                            s.flag = t.check_json(*s.doc, s.key);
                        },
                        [&](S& s) {
                            if (s.flag != 1) {
                                violate("result", "check_json is false for a document of the type");
                            }
                        },
                        kept,
                        [&](S& s, const std::string& say) {
                            if (s.flag != 0 || !want.o.count(s.key)) {
                                violate("answer", say + "check_json is true or names no field: '" + s.key + "'");
                            }
                            s.reset();
                        });
                default:
                    return sweep(
                        "from_json", doc_source,
                        [&](S& s) {
                            T t {};
                            {
                                Seam on;
                                s.flag = t.from_json(*s.doc, s.key);
                            }
                            if (s.flag == 1) {
                                s.out.emplace(std::move(t));
                            }
                        },
                        good_out, kept,
                        [&](S& s, const std::string& say) {
                            if (s.flag != 0 || !want.o.count(s.key)) {
                                violate("answer", say + "from_json is true or names no field: '" + s.key + "'");
                            }
                            s.reset();
                        },
                        true);
                }
            }
            [[fallthrough]];
        default:
            return refusing(want, holder);
        }
    }
    // A check hook that does not accept a certain payload, every time.
    static void refusing(const RV& want, const RV& holder)
    {
        plan.has_refused = true;
        plan.refused = static_cast<int>(draw(8));
        nontrivial();
        step();
        const Conf c = Y::conforms(want);
        note("payload %d is refused: %s", plan.refused, c == Conf::Yes ? "conforms all the same" : "does not conform");
        fault("check hook refuses a payload", c != Conf::Yes);
        const json::value doc = bridge::plain(holder);
        const json::value& d = *doc.find_value("k");
        const bool yes = c == Conf::Yes;
        auto expect = [&](bool got, const char* what) {
            if (got != yes) {
                violate("answer", std::string(what) + (got ? " accepts" : " refuses") + " a document whose check hooks " + (yes ? "all say yes" : "say no"));
            }
        };
        expect(d.is<T>(), "is");
        json::value two = json::array { d, d };
        expect(two.all<T>(), "all");
        if constexpr (!moving_only) {
            expect(doc.find<T>("k").has_value(), "find");
        }
        if constexpr (copies) {
            const T def = Y::gen(1);
            const RV got = Y::rv(doc.get("k", def));
            if (!(got == (yes ? want : Y::rv(def)))) {
                violate("answer", "get gave " + ref::show(got, 300) + " instead of " + (yes ? "the value" : "the default"));
            }
        }
        if constexpr (is_struct<T>::value) {
            T t {};
            std::string key;
            expect(t.check_json(d, key), "check_json");
            const char* bad = Y::offending(want);
            if (!yes && key != bad) {
                violate("answer", "check_json names '" + key + "' instead of '" + bad + "'");
            }
            key.clear();
            T u {};
            expect(u.from_json(d, key), "from_json");
            if (!yes && key != bad) {
                violate("answer", "from_json names '" + key + "' instead of '" + bad + "'");
            }
            bool threw = false;
            try {
                T w = d.as<T>();
                if (yes && !(Y::rv(w) == want)) {
                    violate("result", "as gave " + ref::show(Y::rv(w), 300));
                }
            }
            catch (const json::exception&) {
                threw = true;
            }
            if (threw == yes) {
                violate("answer", yes ? "as refuses a conforming document" : "as accepts a struct with a refused field");
            }
        }
        bridge::expect_value(doc, holder, "the document");
        plan.has_refused = false;
    }
};
template <typename... Ts, size_t... I>
void call(List<Ts...>, std::index_sequence<I...>, size_t i)
{
    (void)((I == i ? (
                         [] {
                             if constexpr (I % CHUNKS == CHUNK) {
                                 F<Type<Ts>>::go();
                             }
                         }(),
                         true)
                   : false)
           || ...);
}
template <typename... Ts>
void all(List<Ts...> l, size_t i)
{
    call(l, std::make_index_sequence<sizeof...(Ts)> {}, i);
}
} // namespace
template <>
void p11::entry<CHUNK>(size_t i)
{
    all(All {}, i);
}
