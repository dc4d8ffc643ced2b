// C11: application types with conversion hooks that fail when the plan says so, and the sweep over all hook calls.
#pragma once
#include "p06.hpp"
#include "typed.hpp"

#include <stdexcept>

namespace p11
{
using namespace sim;
using ref::K;
using ref::RV;
using typed::Conf;

// ---------------------------------------------------------------- the plan
enum class What
{
    To,
    Check,
    From
};
enum How // how a hook fails
{
    Boom,     // throws something that is no std::exception
    Runtime,  // throws a std::exception
    Int,      // throws an int
    Json,     // throws json::exception itself
    Alloc,    // throws std::bad_alloc
    No,       // reports failure (a check or from hook; a to hook throws instead)
    HOWS
};
struct BoomError
{
    uint64_t tag;
};
struct Plan
{
    bool on = false;
    uint64_t count = 0;
    uint64_t fail_at = 0;
    How how = Boom;
    bool late = false; // after the hook did its work
    bool fired = false;
    bool harmless = false; // a check hook said no where it would have said no anyway
    What what {};      // which hook failed
    bool has_refused = false;
    int refused = 0;   // a payload that the check hooks do not accept
};
inline Plan plan;
// Called at the begin and the end of every hook, if it is set.
inline void (*on_hook)() = nullptr;

inline void begin(uint64_t fail_at, How how, bool late)
{
    plan.on = false;
    plan.count = 0;
    plan.fail_at = fail_at;
    plan.how = how;
    plan.late = late;
    plan.fired = false;
    plan.harmless = false;
}
struct Seam // hook calls count while it lives
{
    Seam() { plan.on = true; }
    ~Seam() { plan.on = false; }
};
inline bool fire(What w) // throws, or returns true for a reported failure
{
    plan.fired = true;
    plan.what = w;
    const bool on = plan.on;
    plan.on = false;
    const std::string text = "hook " + std::to_string(plan.fail_at);
    plan.on = on;
    switch (plan.how) {
    case Runtime:
        throw std::runtime_error(text);
    case Int:
        throw static_cast<int>(plan.fail_at);
    case Json:
        throw json::exception(text);
    case Alloc:
        throw std::bad_alloc();
    case No:
        if (w != What::To) {
            return true;
        }
        [[fallthrough]];
    default:
        throw BoomError { plan.fail_at };
    }
}

class Call // one call of a hook
{
public:
    explicit Call(What w)
        : w_(w)
        , hit_(plan.on && ++plan.count == plan.fail_at)
    {
        if (plan.on && on_hook) {
            on_hook();
        }
    }
    // true: report failure (a check that will say no does its work first, to see whether that makes a difference)
    bool enter() { return hit_ && !plan.late && !(w_ == What::Check && plan.how == No) && fire(w_); }
    bool leave(bool ok = true)
    {
        if (plan.on && on_hook) {
            on_hook();
        }
        if (!hit_ || plan.fired) {
            return ok;
        }
        plan.harmless = w_ == What::Check && plan.how == No && !ok;
        return fire(w_) ? false : ok;
    }

private:
    What w_;
    bool hit_;
};

// ---------------------------------------------------------------- application types with hooks
template <int Kind>
struct Payload
{
    int n = 0;
    std::string s;
    bool operator==(const Payload& r) const { return n == r.n && s == r.s; }
    bool operator<(const Payload& r) const { return n != r.n ? n < r.n : s < r.s; }
};
inline bool refused(int n)
{
    return plan.has_refused && plan.refused == n;
}
// Kind 1: hooks are members; the document is [n, s]
struct H1 : Payload<1>
{
    json::value to_json() const
    {
        Call c(What::To);
        c.enter();
        json::value v = json::array { n, s };
        c.leave();
        return v;
    }
    bool check_json(const json::value& v) const
    {
        Call c(What::Check);
        if (c.enter()) {
            return false;
        }
        const bool ok = v.is_array() && v.as_array().size() == 2 && v.at(0).is<int>() && v.at(1).is_string() && !refused(v.at(0).as_integer());
        return c.leave(ok);
    }
    bool from_json(const json::value& v)
    {
        Call c(What::From);
        if (c.enter()) {
            return false;
        }
        n = v.at(0).as_integer();
        s = v.at(1).as_string();
        return c.leave();
    }
};
// Kind 2: hooks in a specialisation; the document is {"n": n, "s": s}
struct H2 : Payload<2>
{
};
// Kind 3: with moving hooks; the document is "n:s"
struct H3 : Payload<3>
{
};
// Kind 4: cannot be copied, moving hooks only; the document is {"four": n, "s": s}
struct H4 : Payload<4>
{
    H4() = default;
    H4(H4&&) = default;
    H4& operator=(H4&&) = default;
};
// Kind 5: moving hooks next to members; the document is {"five": s, "n": n}
struct H5 : Payload<5>
{
    json::value to_json() const
    {
        Call c(What::To);
        c.enter();
        json::value v = json::object { { "five", s }, { "n", n } };
        c.leave();
        return v;
    }
    bool check_json(const json::value& v) const
    {
        Call c(What::Check);
        if (c.enter()) {
            return false;
        }
        const auto five = v.find<std::string>("five");
        const auto num = v.find<int>("n");
        const bool ok = five && num && !refused(*num);
        return c.leave(ok);
    }
    bool from_json(const json::value& v)
    {
        Call c(What::From);
        if (c.enter()) {
            return false;
        }
        n = v.at("n").as_integer();
        s = v.get("five", "");
        return c.leave();
    }
};
} // namespace p11

namespace json::ext
{
template <>
class jsonization<p11::H2>
{
public:
    json::value to_json(const p11::H2& h) const
    {
        p11::Call c(p11::What::To);
        c.enter();
        json::object o;
        o["n"] = h.n;
        o.emplace("s", h.s);
        c.leave();
        return o;
    }
    bool check_json(const json::value& v) const
    {
        p11::Call c(p11::What::Check);
        if (c.enter()) {
            return false;
        }
        const bool ok = v.find<int>("n") && v.find<std::string>("s") && !p11::refused(v.at("n").as_integer());
        return c.leave(ok);
    }
    bool from_json(const json::value& v, p11::H2& h) const
    {
        p11::Call c(p11::What::From);
        if (c.enter()) {
            return false;
        }
        h.n = v.at("n").as<int>();
        h.s = v.at("s").as<std::string>();
        return c.leave();
    }
};
template <>
class jsonization<p11::H3>
{
    static bool parse(const json::value& v, int& n, std::string& s)
    {
        if (!v.is_string()) {
            return false;
        }
        const std::string t = v.as_string();
        const size_t p = t.find(':');
        if (p == t.npos || p == 0) {
            return false;
        }
        n = 0;
        for (size_t i = 0; i < p; ++i) {
            if (t[i] < '0' || t[i] > '9' || i > 6) {
                return false;
            }
            n = n * 10 + (t[i] - '0');
        }
        s = t.substr(p + 1);
        return true;
    }

public:
    json::value to_json(const p11::H3& h) const
    {
        p11::Call c(p11::What::To);
        c.enter();
        json::value v(std::to_string(h.n) + ":" + h.s);
        c.leave();
        return v;
    }
    json::value move_to_json(p11::H3&& h) const
    {
        p11::Call c(p11::What::To);
        c.enter();
        std::string s = std::move(h.s);
        json::value v(std::to_string(h.n) + ":" + s);
        c.leave();
        return v;
    }
    bool check_json(const json::value& v) const
    {
        p11::Call c(p11::What::Check);
        if (c.enter()) {
            return false;
        }
        int n;
        std::string s;
        const bool ok = parse(v, n, s) && !p11::refused(n);
        return c.leave(ok);
    }
    bool from_json(const json::value& v, p11::H3& h) const
    {
        p11::Call c(p11::What::From);
        if (c.enter()) {
            return false;
        }
        const bool ok = parse(v, h.n, h.s);
        return c.leave(ok);
    }
    bool move_from_json(json::value&& v, p11::H3& h) const
    {
        p11::Call c(p11::What::From);
        if (c.enter()) {
            return false;
        }
        json::value taken = std::move(v);
        const bool ok = parse(taken, h.n, h.s);
        return c.leave(ok);
    }
};
template <>
class jsonization<p11::H4>
{
public:
    json::value move_to_json(p11::H4&& h) const
    {
        p11::Call c(p11::What::To);
        c.enter();
        json::object o;
        o["four"] = h.n;
        o["s"] = std::move(h.s);
        c.leave();
        return o;
    }
    bool check_json(const json::value& v) const
    {
        p11::Call c(p11::What::Check);
        if (c.enter()) {
            return false;
        }
        const bool ok = v.find<int>("four") && v.find<std::string>("s") && !p11::refused(v.at("four").as_integer());
        return c.leave(ok);
    }
    bool move_from_json(json::value&& v, p11::H4& h) const
    {
        p11::Call c(p11::What::From);
        if (c.enter()) {
            return false;
        }
        h.n = v.at("four").as<int>();
        h.s = std::move(v)["s"].as<std::string>();
        return c.leave();
    }
};
} // namespace json::ext

namespace typed
{
inline RV payload_doc(int kind, int n, const std::string& s)
{
    RV r;
    switch (kind) {
    case 1:
        r = RV::arr();
        r.a.push_back(RV::num(std::to_string(n)));
        r.a.push_back(RV::str(s));
        break;
    case 3:
        r = RV::str(std::to_string(n) + ":" + s);
        break;
    default:
        r = RV::obj();
        r.o[kind == 4 ? "four" : "n"] = RV::num(std::to_string(n));
        r.o[kind == 5 ? "five" : "s"] = RV::str(s);
    }
    return r;
}
inline bool payload_of(int kind, const RV& d, int& n, std::string& s)
{
    const RV* num = nullptr;
    const RV* str = nullptr;
    switch (kind) {
    case 1:
        if (d.k != K::Arr || d.a.size() != 2) {
            return false;
        }
        num = &d.a[0];
        str = &d.a[1];
        break;
    case 3: {
        if (d.k != K::Str) {
            return false;
        }
        const size_t p = d.s.find(':');
        if (p == d.s.npos || p == 0 || p > 7 || d.s.find_first_not_of("0123456789") != p) {
            return false;
        }
        n = std::stoi(d.s.substr(0, p));
        s = d.s.substr(p + 1);
        return true;
    }
    default: {
        if (d.k != K::Obj) {
            return false;
        }
        auto i = d.o.find(kind == 4 ? "four" : "n"), j = d.o.find(kind == 5 ? "five" : "s");
        if (i == d.o.end() || j == d.o.end()) {
            return false;
        }
        num = &i->second;
        str = &j->second;
    }
    }
    if (num->k != K::Num || !int_of<int>(num->s) || str->k != K::Str) {
        return false;
    }
    n = *int_of<int>(num->s);
    s = str->s;
    return true;
}
template <typename H, int Kind>
struct TyHook
{
    static H gen(int)
    {
        H h;
        h.n = static_cast<int>(draw(8));
        if (draw(2)) {
            h.s = "a payload long enough to need memory of its own";
        }
        else {
            ref::Gen g;
            h.s = ref::gen_string(g);
        }
        return h;
    }
    static RV rv(const H& h) { return payload_doc(Kind, h.n, h.s); }
    static Conf conforms(const RV& d)
    {
        int n;
        std::string s;
        return yes(payload_of(Kind, d, n, s) && !p11::refused(n));
    }
    static H from(const RV& d)
    {
        H h;
        payload_of(Kind, d, h.n, h.s);
        return h;
    }
    static bool eq(const H& a, const H& b) { return a.n == b.n && a.s == b.s; }
};
template <>
struct Ty<p11::H1> : TyHook<p11::H1, 1>
{
};
template <>
struct Ty<p11::H2> : TyHook<p11::H2, 2>
{
};
template <>
struct Ty<p11::H3> : TyHook<p11::H3, 3>
{
};
template <>
struct Ty<p11::H4> : TyHook<p11::H4, 4>
{
};
template <>
struct Ty<p11::H5> : TyHook<p11::H5, 5>
{
};
} // namespace typed

// ---------------------------------------------------------------- types around them
namespace p11
{
struct Frame
{
    H1 head;
    std::vector<H2> body;
    int count = 7;
    std::optional<H3> tail;
    H5 sign;
    MEO_JSONIZATION(head, MEO_OPT body, count, MEO_OPT MEO_KEY("the tail") tail, sign);
    static auto fields()
    {
        using typed::field;
        return std::make_tuple(field("head", &Frame::head), field("body", &Frame::body, true), field("count", &Frame::count),
                               field("the tail", &Frame::tail, true), field("sign", &Frame::sign));
    }
};
struct Outer
{
    std::string title;
    Frame frame;
    std::map<std::string, H3> named;
    MEO_JSONIZATION(title, frame, named);
    static auto fields()
    {
        using typed::field;
        return std::make_tuple(field("title", &Outer::title), field("frame", &Outer::frame), field("named", &Outer::named));
    }
};
template <typename T>
struct Type
{
    using type = T;
};
template <typename... Ts>
struct List
{
    static constexpr size_t size = sizeof...(Ts);
};
template <typename... A, typename... B>
List<A..., B...> operator+(List<A...>, List<B...>);
template <typename H>
using Around = List<H, std::vector<H>, std::list<H>, std::deque<H>, std::map<std::string, H>, std::unordered_map<std::string, H>,
                    std::optional<H>, std::shared_ptr<H>, std::unique_ptr<H>, std::tuple<int, H, std::string>, std::pair<H, H>, std::array<H, 2>,
                    std::variant<int, H>, std::variant<H, bool, std::vector<std::string>>, std::map<std::string, std::vector<std::optional<H>>>>;
// (a set of H3 cannot be moved into a document: its elements are const, and the moving hook takes no const value)
using Mixed = List<std::set<H1>, std::set<H2>, std::tuple<H1, H2, H3>, std::variant<H3, H1, H2>, std::vector<std::variant<H1, std::monostate, H3>>, std::pair<H3, std::unique_ptr<H2>>,
                   Frame, Outer, std::vector<Frame>, std::optional<Frame>, std::variant<int, Frame>, std::map<std::string, Outer>, std::unique_ptr<Outer>, H5,
                   std::vector<H5>, std::array<H5, 1>, H4>;
using All = decltype(Around<H1>() + Around<H2>() + Around<H3>() + Mixed());

constexpr size_t CHUNKS = 8;
template <size_t C>
void entry(size_t i);
template <>
void entry<0>(size_t i);
template <>
void entry<1>(size_t i);
template <>
void entry<2>(size_t i);
template <>
void entry<3>(size_t i);
template <>
void entry<4>(size_t i);
template <>
void entry<5>(size_t i);
template <>
void entry<6>(size_t i);
template <>
void entry<7>(size_t i);

inline void dispatch(size_t i)
{
    switch (i % CHUNKS) {
    case 0:
        return entry<0>(i);
    case 1:
        return entry<1>(i);
    case 2:
        return entry<2>(i);
    case 3:
        return entry<3>(i);
    case 4:
        return entry<4>(i);
    case 5:
        return entry<5>(i);
    case 6:
        return entry<6>(i);
    default:
        return entry<7>(i);
    }
}

// ---------------------------------------------------------------- the sweep
struct Caught
{
    enum
    {
        None,
        Boom,
        Runtime,
        Int,
        Json,
        Alloc,
        Other
    } kind = None;
    bool ours = false; // carries what the hook gave it
    std::string text;
};
// prepare() makes a fresh state, run(state) performs the operation with the seam around library calls, good(state) checks a
// completed operation, kept(state) what must hold after a failed one, no(state) the answer when a check hook said no
// (nullptr: that must end in json::exception).
template <typename Prepare, typename Run, typename Good, typename Kept, typename Answer>
void sweep(const char* what, Prepare prepare, Run run, Good good, Kept kept, Answer no, bool may_throw_too = false)
{
    plan.fail_at = 0;
    auto st = prepare();
    begin(0, Boom, false);
    run(st);
    const uint64_t n = plan.count;
    good(st);
    probe(what);
    step();
    if (!n) {
        return;
    }
    nontrivial();
    for (uint64_t k : p06::points(n, 6)) {
        auto s = prepare();
        const How how = static_cast<How>(draw(2) ? No : draw(HOWS));
        const bool late = draw(2);
        begin(k, how, late);
        Caught c;
        try {
            run(s);
        }
        catch (const BoomError& e) {
            c.kind = Caught::Boom;
            c.ours = e.tag == k;
        }
        catch (int i) {
            c.kind = Caught::Int;
            c.ours = i == static_cast<int>(k);
        }
        catch (const json::exception& e) {
            c.kind = Caught::Json;
            c.text = e.what();
            c.ours = c.text == "hook " + std::to_string(k);
        }
        catch (const std::bad_alloc&) {
            c.kind = Caught::Alloc;
            c.ours = true;
        }
        catch (const std::runtime_error& e) {
            c.kind = Caught::Runtime;
            c.text = e.what();
            c.ours = c.text == "hook " + std::to_string(k);
        }
        catch (const sim::Violation&) {
            throw;
        }
        catch (...) {
            c.kind = Caught::Other;
        }
        plan.on = false;
        static const char* const names[] = { "to", "check", "from" };
        static const char* const hows[] = { "throws",      "throws a std::exception", "throws an int", "throws json::exception",
                                            "throws bad_alloc", "reports failure" };
        const char* const which = names[static_cast<int>(plan.what)];
        note("%s: hook call %llu of %llu (%s) %s %s: caught %d %s", what, (unsigned long long)k, (unsigned long long)n, which, hows[how],
             late ? "after its work" : "at once", c.kind, c.text.c_str());
        step();
        if (!plan.fired) {
            violate("calls", std::string(what) + " did not call the same hooks as before");
        }
        const std::string label = std::string(which) + " hook " + (how == No && plan.what == What::To ? hows[0] : hows[how]);
        fault(label.c_str());
        state(mix(hash_str(what), mix(k, mix(how, mix(late, static_cast<uint64_t>(plan.what))))));
        const std::string say = std::string(what) + ", " + label + ": ";
        const bool harmless = plan.harmless;
        const What hook = plan.what;
        begin(0, Boom, false);
        if (harmless) {
            if (c.kind != Caught::None) {
                violate("outcome", say + "an unused alternative made it fail: " + c.text);
            }
            good(s);
            continue;
        }
        const bool reported = how == No && hook != What::To;
        if (!reported) {
            static const int want[] = { Caught::Boom, Caught::Runtime, Caught::Int, Caught::Json, Caught::Alloc, Caught::Boom };
            if (c.kind == Caught::None) {
                violate("swallowed", say + "the caller never saw the exception");
            }
            if (c.kind != want[how] || !c.ours) {
                violate("replaced", say + "the caller got another exception " + c.text);
            }
        }
        else if (hook == What::From || std::is_same_v<Answer, std::nullptr_t>) {
            if (c.kind == Caught::None) {
                violate("swallowed", say + "no failure was reported");
            }
            if (c.kind != Caught::Json) {
                violate("replaced", say + "the caller did not get json::exception");
            }
        }
        else if (c.kind != Caught::None && !(may_throw_too && c.kind == Caught::Json)) {
            violate("outcome", say + "an exception instead of an answer: " + c.text);
        }
        if constexpr (!std::is_same_v<Answer, std::nullptr_t>) {
            if (reported && hook == What::Check && c.kind == Caught::None) {
                no(s, say);
                kept(s, say);
                continue;
            }
        }
        kept(s, say);
        if (!s.consumed) { // and again, now that the hooks work
            s.reset();
            run(s);
            good(s);
        }
    }
}
} // namespace p11
