// C06: every operation, retried with each of its allocations failing.
#include "p06.hpp"
#include "load.hpp"
#include "ops.hpp"
#include "universe.hpp"

#include <sstream>

namespace
{
using namespace sim;
using ops::Op;
using ops::Path;
using ops::Step;
using ref::K;
using ref::RV;

// ---------------------------------------------------------------- what a failed step may leave behind
bool resolves(const RV& r, const Path& p)
{
    const RV* x = &r;
    for (auto& e : p) {
        x = ops::find(*x, e);
        if (!x) {
            return false;
        }
    }
    return true;
}
bool container_of(Op op, K& k)
{
    switch (op) {
    case Op::Emplace:
    case Op::EmplaceNode:
    case Op::ErasePos:
    case Op::SetPos:
    case Op::Append:
    case Op::AppendNode:
    case Op::TouchArr:
    case Op::ArrAssign:
    case Op::ArrAssignNode:
        k = K::Arr;
        return true;
    case Op::EmplaceKey:
    case Op::EmplaceKeyNode:
    case Op::SetKey:
    case Op::SetKeyNode:
    case Op::TouchKey:
    case Op::EraseKey:
    case Op::Merge:
    case Op::MergeNode:
    case Op::TouchObj:
    case Op::ObjAssign:
    case Op::ObjAssignNode:
        k = K::Obj;
        return true;
    default:
        return false;
    }
}
bool acceptable(const Step& s, const std::vector<RV>& pre, const std::vector<RV>& post, const std::vector<RV>& now)
{
    if (now == pre || now == post) {
        return true;
    }
    const size_t a = static_cast<size_t>(s.a);
    const RV& px = ops::at(const_cast<RV&>(pre[a]), s.pa);
    auto with_x = [&](RV x) {
        std::vector<RV> t = pre;
        ops::at(t[a], s.pa) = std::move(x);
        return t;
    };
    K k {};
    if (container_of(s.op, k) && px.empty() && now == with_x(RV::text(k, ""))) {
        return true;
    }
    switch (s.op) {
    case Op::SetKey:
    case Op::SetKeyNode:
    case Op::TouchKey: {
        RV x = px.k == K::Obj ? px : RV::obj();
        if (x.o.count(s.key)) {
            return false;
        }
        x.o[s.key];
        return (px.k == K::Obj || px.empty()) && now == with_x(x);
    }
    case Op::Merge:
    case Op::MergeNode: {
        if (!resolves(now[a], s.pa)) {
            return false;
        }
        const RV nx = ops::at(const_cast<RV&>(now[a]), s.pa);
        const RV src = s.op == Op::Merge ? s.val : ops::at(const_cast<RV&>(pre[static_cast<size_t>(s.b)]), s.pb);
        if (nx.k != K::Obj || now != with_x(nx)) {
            return false;
        }
        RV old = px.k == K::Obj ? px : RV::obj();
        for (auto& [key, v] : old.o) {
            auto it = nx.o.find(key);
            auto sv = src.o.find(key);
            if (it == nx.o.end() || !(it->second == v || (sv != src.o.end() && it->second == sv->second))) {
                return false;
            }
        }
        for (auto& [key, v] : nx.o) {
            if (!old.o.count(key)) {
                auto sv = src.o.find(key);
                if (sv == src.o.end() || !(v == sv->second)) {
                    return false;
                }
            }
        }
        return true;
    }
    case Op::EachElem: {
        if (!resolves(now[a], s.pa)) {
            return false;
        }
        RV nx = ops::at(const_cast<RV&>(now[a]), s.pa);
        if (now != with_x(nx) || nx.k != px.k || nx.size() != px.size()) {
            return false;
        }
        for (size_t i = 0; i < nx.a.size(); ++i) {
            if (!(nx.a[i] == px.a[i]) && !(nx.a[i] == s.val)) {
                return false;
            }
        }
        for (auto &[key, v] : nx.o) {
            auto it = px.o.find(key);
            if (it == px.o.end() || (!(v == it->second) && !(v == s.val))) {
                return false;
            }
        }
        return true;
    }
    case Op::Plus:
    case Op::Pipe: // a left operand that was given up may hold anything
        return s.variant % 4 >= 2 && resolves(now[a], s.pa) && now == with_x(ops::at(const_cast<RV&>(now[a]), s.pa));
    default:
        return false;
    }
}
bool can_retry(const Step& s, const std::vector<RV>& pre, const std::vector<RV>& now)
{
    if ((s.op == Op::Plus || s.op == Op::Pipe || s.op == Op::MoveDoc || s.op == Op::MoveNode) && now != pre) {
        return false;
    }
    if (!resolves(now[static_cast<size_t>(s.a)], s.pa) || !resolves(now[static_cast<size_t>(s.b)], s.pb)) {
        return false;
    }
    // a merge with a part of the target may have replaced that part
    const RV& y = ops::at(const_cast<RV&>(now[static_cast<size_t>(s.b)]), s.pb);
    return s.op == Op::AppendNode || s.op == Op::ArrAssignNode ? y.k == K::Arr : s.op == Op::MergeNode || s.op == Op::ObjAssignNode ? y.k == K::Obj : true;
}

struct Docs
{
    std::vector<json::value> d;
    ops::Out out;
};
void on()
{
    mem::plan.on = true;
}
void off()
{
    mem::plan.on = false;
}
void run_step()
{
    const size_t n = 2;
    std::vector<RV> pre;
    for (size_t i = 0; i < n; ++i) {
        ref::Gen g;
        g.max_nodes = 10;
        pre.push_back(ref::gen(g, draw(4) != 0));
        note("d%zu = %s", i, ref::show(pre[i]).c_str());
    }
    const Step s = ops::gen(pre, 4);
    note("%s", ops::show(s).c_str());
    std::vector<RV> post = pre;
    const ops::Out want = ops::model(s, post);
    state(mix(mix(ref::hash(pre[0]), ref::hash(pre[1])), static_cast<uint64_t>(s.op) * 64 + static_cast<uint64_t>(s.variant)));
    auto prepare = [&] {
        Docs d;
        for (auto& r : pre) {
            d.d.push_back(bridge::plain(r));
        }
        return d;
    };
    auto read = [&](Docs& d) {
        std::vector<RV> now;
        for (size_t i = 0; i < d.d.size(); ++i) {
            now.push_back(bridge::read(d.d[i]));
            bridge::expect_value(d.d[i], now.back(), "document " + std::to_string(i));
        }
        return now;
    };
    auto good = [&](Docs& d) {
        if (!(d.out == want)) {
            violate(std::string("result/") + ops::name(s.op), ops::show(s) + " reported " + ops::show(d.out) + " instead of " + ops::show(want));
        }
        for (size_t i = 0; i < n; ++i) {
            bridge::expect_value(d.d[i], post[i], "document " + std::to_string(i) + " after " + ops::name(s.op));
        }
    };
    p06::sweep(
        ops::name(s.op), prepare,
        [&](Docs& d) {
            ops::seam::hook = { on, off };
            struct Reset
            {
                ~Reset()
                {
                    ops::seam::hook = {};
                    off();
                }
            } reset;
            d.out = ops::real(s, d.d);
        },
        good,
        [&](Docs& d) {
            const std::vector<RV> now = read(d);
            if (!acceptable(s, pre, post, now)) {
                std::string t;
                for (auto& r : now) {
                    t += " " + ref::show(r, 300);
                }
                violate(std::string("state/") + ops::name(s.op), ops::show(s) + " failed for lack of memory and left" + t);
            }
            if (can_retry(s, pre, now)) {
                std::vector<RV> again = now;
                const ops::Out w = ops::model(s, again);
                const ops::Out g = ops::real(s, d.d);
                if (!(w == g)) {
                    violate(std::string("retry/") + ops::name(s.op), ops::show(s) + " tried again reported " + ops::show(g) + " instead of " + ops::show(w));
                }
                for (size_t i = 0; i < n; ++i) {
                    bridge::expect_value(d.d[i], again[i], std::string("document after retrying ") + ops::name(s.op));
                }
                probe("retried with memory back");
            }
        });
    sample(ops::show(s));
}

// ---------------------------------------------------------------- text
void run_parse()
{
    ref::Gen g;
    g.max_nodes = 14;
    const RV doc = ref::gen(g, true);
    std::string t = draw(2) ? ref::compact(doc) : ref::write(doc, ref::Dialect::Strict);
    if (draw(3) == 0 && t.size()) { // damaged text
        t[draw(t.size())] = static_cast<char>(pick('"', '\\', '}', ']', ',', 'x', 0, 0xc3, '/'));
    }
    const auto dialect = draw(2) ? ref::Dialect::Jsonc : ref::Dialect::Strict;
    const auto want = ref::parse(t, dialect);
    note_bytes("text", t);
    state(hash_str(t));
    struct S
    {
        std::optional<json::value> r;
        bool absent_ok = false;
    };
    auto prepare = [] { return S(); };
    auto good = [&](S& s) {
        if (s.r.has_value() != want.has_value()) {
            if (s.absent_ok && !s.r) {
                return;
            }
            violate("result", std::string("loading ") + (s.r ? "accepted " : "rejected ") + show(t));
        }
        if (want) {
            bridge::expect_value(*s.r, *want, "loaded document");
        }
    };
    // a stream keeps to itself what fails while it works, and is an unreadable source then
    auto in_stream = [](uint64_t at_last) { return mem::plan.failed && mem::plan.fail_at <= at_last; };
    auto bad = [&](S& s) {
        if (s.r) {
            violate("outcome", "a failed load left a document");
        }
    };
    switch (draw(5)) {
    case 0:
        p06::sweep(
            "parse text", prepare,
            [&](S& s) {
                p06::Seam seam;
                s.r = load::text(t, dialect);
            },
            good, bad);
        break;
    case 1: {
        std::deque<char> bytes(t.begin(), t.end());
        p06::sweep(
            "parse deque", prepare,
            [&](S& s) {
                p06::Seam seam;
                s.r = load::text(bytes, dialect);
            },
            good, bad);
        break;
    }
    case 2: {
        p06::sweep(
            "parse stream", prepare,
            [&](S& s) {
                simio::In in(t);
                in.chunk = 7;
                std::istream is(&in);
                p06::Seam seam;
                s.r = json::parse(is, true, dialect == ref::Dialect::Jsonc);
                s.absent_ok = in_stream(in.allocs_at_last);
            },
            good, bad);
        break;
    }
    case 3: {
        simio::MemFile f;
        f.put(t);
        const std::string path = f.path();
        p06::sweep(
            "open file", prepare,
            [&](S& s) {
                simio::sys = {};
                simio::sys.on = true;
                p06::Seam seam;
                s.r = json::open(path, true, dialect == ref::Dialect::Jsonc);
                simio::sys.on = false;
                s.absent_ok = in_stream(simio::sys.allocs_at_last);
            },
            good, bad);
        break;
    }
    default: {
        auto lit = [&](const char* c) { return json::literals::operator""_jvalue(c, strlen(c)); };
        if (t.find('\0') != std::string::npos) {
            return;
        }
        const bool valid = ref::parse(t, ref::Dialect::Strict).has_value();
        if (!valid) {
            return;
        }
        p06::sweep(
            "literal", prepare,
            [&](S& s) {
                p06::Seam seam;
                s.r = lit(t.c_str());
            },
            [&](S& s) { bridge::expect_value(*s.r, *ref::parse(t, ref::Dialect::Strict), "literal"); }, bad);
    }
    }
    sample("load of " + show(t));
}

void run_print()
{
    ref::Gen g;
    g.max_nodes = 14;
    const RV doc = ref::gen(g, true);
    note("document %s", ref::show(doc, 400).c_str());
    state(mix(ref::hash(doc), 5));
    const size_t indent = draw(5);
    const uint64_t how = draw(6);
    const json::value v = bridge::plain(doc);
    struct S
    {
        std::string text;
        bool stream_failed = false;
        bool done = false;
    };
    auto prepare = [] { return S(); };
    auto good = [&](S& s) {
        bridge::expect_value(v, doc, "printed document");
        if (s.stream_failed && mem::plan.failed) {
            return;
        }
        auto back = ref::parse(s.text, ref::Dialect::Strict);
        if (!back || !(*back == doc)) {
            violate("result", "printing gave " + show(s.text));
        }
    };
    auto bad = [&](S& s) {
        bridge::expect_value(v, doc, "document whose printing failed");
        if (s.done) {
            violate("outcome", "a failed print left a text");
        }
    };
    p06::sweep(
        "print", prepare,
        [&](S& s) {
            switch (how) {
            case 0: {
                p06::Seam seam;
                s.text = v.to_string();
                break;
            }
            case 1: {
                p06::Seam seam;
                s.text = v.format(indent);
                break;
            }
            case 2: {
                p06::Seam seam;
                s.text = v.dumps(indent);
                break;
            }
            case 3: {
                p06::Seam seam;
                s.text = v.is_array() ? v.as_array().format() : v.as_object().format();
                break;
            }
            case 4: {
                p06::Seam seam;
                s.text = v.is_array() ? v.as_array().to_string() : v.as_object().to_string();
                break;
            }
            default: {
                std::ostringstream os;
                {
                    p06::Seam seam;
                    if (indent % 2) {
                        os << v;
                    }
                    else if (v.is_array()) {
                        os << v.as_array();
                    }
                    else {
                        os << v.as_object();
                    }
                }
                s.stream_failed = !os;
                s.text = os.str();
            }
            }
            s.done = true;
        },
        good, bad);
    sample("printing of " + ref::show(doc, 100));
}

void run()
{
    switch (draw(8)) {
    case 0:
    case 1:
    case 2:
    case 3:
        return run_step();
    case 4:
        return run_parse();
    case 5:
        return run_print();
    default: {
        const size_t i = draw(universe::All::size);
        note("type %zu", i);
        universe::dispatch(i);
        sample("conversion of type " + std::to_string(i));
    }
    }
}
} // namespace

const sim::World sim::world { "C06",
                              "each run draws one operation (any public document operation on drawn documents, loading, printing, or a conversion of one of "
                              "the supported types), performs it once to count its allocations and then again with each (or a drawn choice) of them failing, "
                              "once or from then on; outcome, sources and the documents' state are checked, and the operation is tried again; "
                              "non-trivial: the operation allocates",
                              run, true, 256 };
