// C13: one type under changing ambient locales.
#include "bridge.hpp"
#include "p13.hpp"
#include "skew.hpp"
#include "universe.hpp"

#include <sstream>

namespace
{
using namespace sim;
using p13::Ambient;
using ref::RV;

template <typename W>
struct F
{
    using T = typename W::type;
    using Y = typed::Ty<T>;

    static void recase(RV& m)
    {
        for (char& c : m.s) {
            if (m.k == ref::K::Str && draw(2)) {
                c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c);
            }
        }
        for (auto& x : m.a) {
            recase(x);
        }
        for (auto& [k, x] : m.o) {
            recase(x);
        }
    }
    struct Answer
    {
        bool is = false, failed = false;
        std::optional<T> x;
        std::string show() const { return std::string(is ? "is, " : "is not, ") + (x ? ref::show(Y::rv(*x), 300) : failed ? "refused" : "nothing"); }
    };
    static Answer answer(const json::value& d)
    {
        Answer a;
        a.is = d.is<T>();
        if (a.is) {
            try {
                a.x.emplace(d.as<T>());
            }
            catch (const json::exception&) {
                a.failed = true;
            }
        }
        return a;
    }
    static void go()
    {
        const RV origin = Y::rv(Y::gen(3));
        if (!W::exact && Y::conforms(origin) != typed::Conf::Yes) {
            return;
        }
        const T v = Y::from(origin);
        const RV want = Y::rv(v);
        state(mix(ref::hash(want), 13));
        note("value %s", ref::show(want, 300).c_str());
        const json::value classic = json::value(json::object { { "v", v }, { "a", json::array { v, 1, true } } });
        const RV doc = bridge::read(classic);
        if (!typed::same_doc(doc.o.at("v"), want)) {
            violate("content", "conversion gave " + ref::show(doc.o.at("v"), 400) + " instead of " + ref::show(want, 400));
        }
        const std::string compact = classic.dumps(), pretty = classic.format();
        const T back = classic.at("v").template as<T>();
        for (uint64_t n = 1 + draw(4); n--;) {
            step();
            const uint64_t how = draw(12);
            note("operation %d", (int)how);
            nontrivial();
            switch (how) {
            case 0:
            case 1: { // typed value -> document
                json::value d;
                {
                    Ambient on;
                    d = how ? json::value(json::object { { "v", v }, { "a", json::array { v, 1, true } } }) : classic;
                    if (!how) {
                        d["v"] = v;
                        d["a"].as_array().clear();
                        d["a"].emplace(v);
                        d["a"].emplace(1);
                        d["a"].emplace(true);
                    }
                }
                const RV got = bridge::read(d);
                if (got != doc) {
                    violate("text", "conversion under another locale gave " + ref::show(got, 400) + " instead of " + ref::show(doc, 400));
                }
                break;
            }
            case 2: { // print
                std::string t;
                {
                    Ambient on;
                    t = classic.dumps();
                }
                SIM_CHECK(t == compact, "text", "printing under another locale gave " + show(t, 400) + " instead of " + show(compact, 400));
                break;
            }
            case 3: {
                std::string t;
                {
                    Ambient on;
                    t = classic.format();
                }
                SIM_CHECK(t == pretty, "text", "pretty printing under another locale gave " + show(t, 400) + " instead of " + show(pretty, 400));
                break;
            }
            case 4: { // stream insertion
                p13::Sink sink;
                sink.flips = draw(2);
                const uint64_t l = draw(32), flags = draw(4), form = draw(4);
                {
                    Ambient on;
                    std::ostream os(&sink);
                    os.imbue(p13::stream_locale(l));
                    if (flags & 1) {
                        os << std::hex << std::showpos << std::boolalpha;
                    }
                    if (flags & 2) {
                        os.precision(2);
                    }
                    switch (form) {
                    case 0:
                        os << classic;
                        break;
                    case 1:
                        os << classic.as_object();
                        break;
                    case 2:
                        os << classic.at("a").as_array();
                        break;
                    default:
                        os << classic.at("v");
                        break;
                    }
                }
                fault("imbued stream");
                if (form >= 2) {
                    const RV& part = doc.o.at(form == 2 ? "a" : "v");
                    auto r = ref::parse("[" + sink.text + "]", ref::Dialect::Strict); // (a document has a container at the top)
                    std::ostringstream plain;
                    form == 2 ? plain << classic.at("a").as_array() : plain << classic.at("v");
                    if (!r || r->a.size() != 1 || r->a[0] != part || sink.text != plain.str()) {
                        violate("text", "inserting into an imbued stream gave " + show(sink.text, 400) + " instead of " + show(plain.str(), 400));
                    }
                    break;
                }
                // (both forms are valid; which layout stream insertion uses is not the point here)
                auto r = ref::parse(sink.text, ref::Dialect::Strict);
                std::ostringstream plain;
                plain << classic;
                std::ostringstream plain_object;
                plain_object << classic.as_object();
                if (!r || *r != doc || (sink.text != plain.str() && sink.text != plain_object.str())) {
                    violate("text", "inserting into an imbued stream gave " + show(sink.text, 400) + " instead of " + show(plain.str(), 400));
                }
                break;
            }
            case 5: { // read
                std::optional<T> x;
                bool is = false;
                {
                    Ambient on;
                    const json::value& e = classic.at("v");
                    is = e.is<T>();
                    if (is) {
                        x.emplace(e.as<T>());
                    }
                }
                if (!is || !Y::eq(*x, back)) {
                    violate("value", std::string("reading under another locale gave ") + (x ? ref::show(Y::rv(*x), 400) : "nothing") + " instead of "
                                         + ref::show(Y::rv(back), 400));
                }
                break;
            }
            case 6: {
                std::optional<T> x;
                {
                    Ambient on;
                    x = classic.find<T>("v");
                }
                if (!x || !Y::eq(*x, back)) {
                    violate("value", std::string("find under another locale gave ") + (x ? ref::show(Y::rv(*x), 400) : "nothing") + " instead of "
                                         + ref::show(Y::rv(back), 400));
                }
                break;
            }
            case 7: { // load
                std::optional<json::value> r;
                const bool text = draw(2);
                const std::string& in = draw(2) ? compact : pretty;
                p13::Source src;
                src.data = in;
                src.chunk = pick(1, 7, 64);
                src.flips = draw(2);
                const uint64_t l = draw(32), mode = draw(3);
                {
                    Ambient on;
                    if (text) {
                        r = mode ? json::parse(in) : json::parsec(in);
                    }
                    else {
                        std::istream is(&src);
                        is.imbue(p13::stream_locale(l));
                        r = json::parse(is, mode == 1, mode == 2);
                    }
                }
                if (!r) {
                    violate("load", "loading under another locale fails for " + show(in, 400));
                }
                bridge::expect_value(*r, doc, "document loaded under another locale");
                break;
            }
            case 8: { // the whole way there and back
                std::optional<T> x;
                std::string t;
                {
                    Ambient on;
                    t = json::object { { "v", v } }.dumps();
                    auto r = json::parse(t);
                    if (r) {
                        x = r->template find<T>("v");
                    }
                }
                if (!x || !Y::eq(*x, back)) {
                    violate("value", "print, load and read under another locale gave " + (x ? ref::show(Y::rv(*x), 400) : "nothing") + " instead of "
                                         + ref::show(Y::rv(back), 400) + ", text " + show(t, 400));
                }
                break;
            }
            case 9: { // another program's document, which may or may not be a T
                RV m = doc.o.at("v");
                if (draw(2)) {
                    recase(m); // (how an enum value is spelled is up to the peer)
                }
                else {
                    for (uint64_t k = 1 + draw(3); k--;) {
                        skew::once(m, &want);
                    }
                }
                const json::value d = bridge::build(m);
                const Answer there = answer(d);
                Answer here;
                {
                    Ambient on;
                    here = answer(d);
                }
                note("skewed document %s: %s", ref::show(m, 200).c_str(), there.is ? "is a T" : "is not");
                if (here.is != there.is || here.failed != there.failed || here.x.has_value() != there.x.has_value()
                    || (there.x && !Y::eq(*here.x, *there.x))) {
                    violate("value", "reading " + ref::show(m, 300) + " under another locale gave " + here.show() + " instead of " + there.show());
                }
                break;
            }
            case 10: { // another program's text, which may or may not be a document
                std::string in = draw(2) ? compact : pretty;
                for (uint64_t k = 1 + draw(3); k--;) {
                    static const std::string_view foreign[] = { "\xa0", "\x85", "\xc2\xa0", "\x0b", "\x0c", "\xe3\x80\x80", "\xb2", "\xd9\xa3", ",", ".", "\xd9\xab",
                                                                "1", "_", " ", "+", "-", "I", "\xdd", "\xfd", "\x00", "/**/", "inf", "nan", "0x1" };
                    const std::string_view f = foreign[draw(std::size(foreign))];
                    const bool number = draw(2); // near a digit, where a number is read, or anywhere
                    size_t at = draw(in.size() + 1);
                    if (number) {
                        const size_t found = in.find_first_of("0123456789", at);
                        at = found == in.npos ? at : found + draw(2);
                    }
                    if (draw(3)) {
                        in.insert(at, f);
                    }
                    else {
                        in.replace(at, std::min(f.size(), in.size() - at), f);
                    }
                }
                const uint64_t l = draw(32), mode = draw(5);
                auto load = [&](bool ambient) {
                    p13::Source src;
                    src.data = in;
                    src.chunk = 7;
                    src.flips = ambient;
                    std::istream is(&src);
                    if (ambient) {
                        is.imbue(p13::stream_locale(l));
                    }
                    return mode == 0 ? json::parse(in) : mode == 1 ? json::parsec(in) : json::parse(is, mode == 3, mode == 4);
                };
                const std::optional<json::value> there = load(false);
                std::optional<json::value> here;
                {
                    Ambient on;
                    here = load(true);
                }
                if (there.has_value() != here.has_value()) {
                    violate("load", show(in, 400) + (here ? " is accepted under another locale only" : " is rejected under another locale only"));
                }
                if (there) {
                    bridge::expect_value(*here, bridge::read(*there), "foreign document loaded under another locale");
                }
                break;
            }
            default: { // numbers of another program
                const std::string num = ref::gen_number();
                const json::value d(json::value::value_type::number, num);
                bool isd, isf, isl, isi, isu;
                double dv = 0;
                float fv = 0;
                long double lv = 0;
                long long iv = 0;
                unsigned long long uv = 0;
                std::string t;
                {
                    Ambient on;
                    isd = d.is<double>(), isf = d.is<float>(), isl = d.is<long double>(), isi = d.is<long long>(), isu = d.is<unsigned long long>();
                    dv = isd ? d.as<double>() : 0;
                    fv = isf ? d.as_float() : 0;
                    lv = isl ? d.as_long_double() : 0;
                    iv = isi ? d.as_long_long() : 0;
                    uv = isu ? d.as<unsigned long long>() : 0;
                    t = d.to_string();
                }
                auto check = [&](auto got, bool is, const char* what) {
                    using N = decltype(got);
                    const typed::Conf c = typed::Ty<N>::conforms(RV::num(num));
                    if (c == typed::Conf::Either) {
                        return;
                    }
                    if (is != (c == typed::Conf::Yes) || (is && !typed::Ty<N>::eq(got, typed::Ty<N>::from(RV::num(num))))) {
                        violate("value", "reading the number " + num + " as " + what + " under another locale gave "
                                             + (is ? ref::show(typed::Ty<N>::rv(got)) : "nothing"));
                    }
                };
                check(dv, isd, "double");
                check(fv, isf, "float");
                check(lv, isl, "long double");
                check(iv, isi, "long long");
                check(uv, isu, "unsigned long long");
                SIM_CHECK(t == num, "text", "the number " + num + " is printed as " + t);
            }
            }
        }
        sample("conversions of " + ref::show(want, 120));
    }
};
} // namespace
template <>
void universe::entry<CHUNK>(size_t i)
{
    call_chunk<F, CHUNK>(All {}, i);
}
