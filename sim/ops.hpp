// Operations on documents, each as plain data that can be applied to the real documents and to the tree model. Used by
// the worlds about histories, ownership, failing allocations and threads. Executing an operation draws nothing.
#pragma once
#include "typed.hpp"

#include <algorithm>

namespace ops
{
using ref::K;
using ref::RV;

struct Elem
{
    bool is_key;
    std::string key;
    size_t pos;
};
using Path = std::vector<Elem>;

enum class Op : int
{
    // ---- change the document
    AssignVal,   // x = fresh value, in a drawn form
    AssignNode,  // x = y, y any node of any document
    MoveNode,    // x = std::move(y), y not an ancestor of x; a disjoint y is probed and then assigned
    Emplace,     // x.emplace(value)
    EmplaceNode, // x.emplace(y)
    EmplaceKey,  // x.emplace(key, value)
    EmplaceKeyNode,
    SetKey,   // x[key] = value
    SetKeyNode,
    TouchKey, // x[key]
    SetPos,   // x[i] = value
    ErasePos,
    EraseKey,
    EraseIter,
    Clear,
    ClearInner,
    Append,     // x += array
    AppendNode, // x += own or other part
    Merge,      // x |= object
    MergeNode,
    TouchArr,
    TouchObj,
    EachElem, // non-const iteration, assigns to every other element
    ArrAssign,
    ArrAssignNode,
    ObjAssign,
    ObjAssignNode,
    Plus, // documents[b] = x + array
    Pipe, // documents[b] = x | object
    CopyDoc,
    MoveDoc,
    SwapDocs,
    Extract, // take a json::array / json::object out, change it, put it into documents[b]
    InitList,
    Reparse, // documents[a] = parse(text)
    // ---- look at it
    QKinds,
    QContains,
    QAt,
    QFind,
    QFindValue,
    QGet,
    QCompare,
    QAs,
    QIs,
    QAll,
    QIter,
    QIndex,
    QCopy,
    QText,
    QInfo,
    N
};
constexpr int first_query = static_cast<int>(Op::QKinds);
inline const char* name(Op o)
{
    static const char* const n[] = { "AssignVal", "AssignNode", "MoveNode", "Emplace", "EmplaceNode", "EmplaceKey", "EmplaceKeyNode", "SetKey",
                                     "SetKeyNode", "TouchKey", "SetPos", "ErasePos", "EraseKey", "EraseIter", "Clear", "ClearInner",
                                     "Append", "AppendNode", "Merge", "MergeNode", "TouchArr", "TouchObj", "EachElem", "ArrAssign",
                                     "ArrAssignNode", "ObjAssign", "ObjAssignNode", "Plus", "Pipe", "CopyDoc", "MoveDoc", "SwapDocs",
                                     "Extract", "InitList", "Reparse", "QKinds", "QContains", "QAt", "QFind", "QFindValue", "QGet",
                                     "QCompare", "QAs", "QIs", "QAll", "QIter", "QIndex", "QCopy", "QText", "QInfo" };
    static_assert(std::size(n) == static_cast<size_t>(Op::N));
    return n[static_cast<int>(o)];
}

struct Step
{
    Op op;
    int a = 0, b = 0; // documents
    Path pa, pb;      // nodes in them
    RV val, val2;
    std::string key;
    size_t pos = 0;
    int variant = 0;
    int style = 0; // how nodes are reached
    Path keys;     // QGet
};

// What a step is expected to report: a description of what it returned, or that it failed with a library exception.
struct Out
{
    bool failed = false;
    std::string text;
    bool operator==(const Out& o) const { return failed == o.failed && text == o.text; }
    static Out fail() { return { true, "" }; }
    static Out ok(std::string t = "") { return { false, std::move(t) }; }
};
inline std::string show(const Out& o)
{
    return o.failed ? "an exception" : o.text.empty() ? "success" : o.text;
}

// ---------------------------------------------------------------- seam: only library calls run with it on
namespace seam
{
struct Hook
{
    void (*enter)() = nullptr;
    void (*leave)() = nullptr;
};
inline thread_local Hook hook;
struct In
{
    In()
    {
        if (hook.enter) {
            hook.enter();
        }
    }
    ~In()
    {
        if (hook.leave) {
            hook.leave();
        }
    }
};
} // namespace seam
#define LIB(...)             \
    {                        \
        ::ops::seam::In in_; \
        __VA_ARGS__;         \
    }

// ---------------------------------------------------------------- paths
inline RV& at(RV& r, const Path& p, size_t n = ~size_t(0))
{
    RV* x = &r;
    for (size_t i = 0; i < p.size() && i < n; ++i) {
        x = p[i].is_key ? &x->o.at(p[i].key) : &x->a.at(p[i].pos);
    }
    return *x;
}
inline const RV* find(const RV& r, const Elem& e)
{
    if (e.is_key) {
        if (r.k != K::Obj) {
            return nullptr;
        }
        auto it = r.o.find(e.key);
        return it == r.o.end() ? nullptr : &it->second;
    }
    return r.k == K::Arr && e.pos < r.a.size() ? &r.a[e.pos] : nullptr;
}
inline json::value& at(json::value& r, const Path& p, int style)
{
    json::value* x = &r;
    for (auto& e : p) {
        if (e.is_key) {
            switch (style % 3) {
            case 0:
                x = &(*x)[e.key];
                break;
            case 1:
                x = &x->as_object()[std::string(e.key)];
                break;
            default:
                for (auto& [k, v] : x->as_object()) {
                    if (k == e.key) {
                        x = &v;
                        break;
                    }
                }
            }
        }
        else {
            switch (style % 3) {
            case 0:
                x = &(*x)[e.pos];
                break;
            case 1:
                x = &x->as_array()[e.pos];
                break;
            default:
                x = &*(x->as_array().begin() + static_cast<std::ptrdiff_t>(e.pos));
            }
        }
        style /= 3;
    }
    return *x;
}
inline const json::value& cat(const json::value& r, const Path& p)
{
    const json::value* x = &r;
    for (auto& e : p) {
        x = e.is_key ? x->find_value(e.key) : x->find_value(e.pos);
        if (!x) {
            sim::violate("content", "an element of the document cannot be found");
        }
    }
    return *x;
}
inline bool prefix(const Path& p, const Path& q) // p leads to q's node or an ancestor of it
{
    if (p.size() > q.size()) {
        return false;
    }
    for (size_t i = 0; i < p.size(); ++i) {
        if (p[i].is_key != q[i].is_key || (p[i].is_key ? p[i].key != q[i].key : p[i].pos != q[i].pos)) {
            return false;
        }
    }
    return true;
}
inline std::string show(const Path& p)
{
    std::string r;
    for (auto& e : p) {
        r += e.is_key ? "." + sim::show(e.key, 24) : "[" + std::to_string(e.pos) + "]";
    }
    return r.empty() ? "(root)" : r;
}
inline std::string show(const Step& s)
{
    std::string r = std::string(name(s.op)) + "/" + std::to_string(s.variant) + " d" + std::to_string(s.a) + show(s.pa);
    r += " d" + std::to_string(s.b) + show(s.pb) + " key " + sim::show(s.key, 30) + " pos " + std::to_string(s.pos);
    r += " val " + ref::show(s.val, 120);
    if (!s.val2.s.empty() || s.val2.container()) {
        r += " val2 " + ref::show(s.val2, 60);
    }
    if (!s.keys.empty()) {
        r += " path " + show(s.keys);
    }
    return r;
}

// ---------------------------------------------------------------- drawing a step
inline Path gen_path(const RV& r, uint64_t stop = 3)
{
    Path p;
    const RV* x = &r;
    while (x->size() && sim::draw(stop)) {
        size_t i = sim::draw(x->size());
        if (x->k == K::Arr) {
            p.push_back({ false, "", i });
            x = &x->a[i];
        }
        else {
            auto it = x->o.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(i));
            p.push_back({ true, it->first, 0 });
            x = &it->second;
        }
    }
    return p;
}
inline std::string gen_key_near(const RV& x)
{
    if (x.k == K::Obj && x.o.size() && sim::draw(3)) {
        auto it = x.o.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(sim::draw(x.o.size())));
        return it->first;
    }
    return ref::gen_key();
}
inline RV gen_val(size_t nodes = 6)
{
    ref::Gen g;
    g.max_nodes = nodes;
    g.max_depth = 3;
    return ref::gen(g, false);
}
inline RV gen_kind(K k, size_t nodes = 6)
{
    ref::Gen g;
    g.max_nodes = nodes;
    g.max_depth = 3;
    RV v = ref::gen(g);
    if (v.k == k) {
        return v;
    }
    if (k == K::Arr) {
        RV r = RV::arr();
        for (auto& [key, x] : v.o) {
            r.a.push_back(x);
        }
        return r;
    }
    RV r = RV::obj();
    for (auto& x : v.a) {
        r.o.emplace(ref::gen_key(g), x);
    }
    return r;
}
inline const RV* pick_container(const std::vector<RV>& m, K k, int& d, Path& p)
{
    // walks to some container of the kind, if a few tries find one
    for (int i = 0; i < 4; ++i) {
        d = static_cast<int>(sim::draw(m.size()));
        p = gen_path(m[static_cast<size_t>(d)]);
        while (true) {
            const RV& x = at(const_cast<RV&>(m[static_cast<size_t>(d)]), p);
            if (x.k == k) {
                return &x;
            }
            if (p.empty()) {
                break;
            }
            p.pop_back();
        }
    }
    return nullptr;
}
// Draws a step that is allowed in the given state (no undefined behaviour by contract: positions of non-const
// operator[] in range, no move of an ancestor into its own part, no append of an ancestor to its own part).
// Set: most steps are this one.
inline int usual_op = -1, usual_variant = 0;

inline Step gen(const std::vector<RV>& m, uint64_t query_share = 3, uint64_t max_nodes = 120)
{
    Step s {};
    size_t total = 0;
    for (auto& x : m) {
        total += x.nodes();
    }
    const bool query = sim::draw(query_share) == query_share - 1;
    s.op = static_cast<Op>(query ? first_query + static_cast<int>(sim::draw(static_cast<uint64_t>(Op::N) - first_query)) : static_cast<int>(sim::draw(first_query)));
    if (total > max_nodes && !query) {
        static const Op shrink[] = { Op::Clear, Op::EraseKey, Op::ErasePos, Op::EraseIter, Op::AssignVal, Op::MoveNode, Op::ClearInner };
        s.op = shrink[sim::draw(std::size(shrink))];
    }
    const bool usual = usual_op >= 0 && total <= max_nodes && sim::draw(8) != 0;
    if (usual) {
        s.op = static_cast<Op>(usual_op);
    }
    s.a = static_cast<int>(sim::draw(m.size()));
    s.b = static_cast<int>(sim::draw(m.size()));
    const RV& ra = m[static_cast<size_t>(s.a)];
    const RV& rb = m[static_cast<size_t>(s.b)];
    s.pa = gen_path(ra);
    s.pb = gen_path(rb);
    s.variant = usual && sim::draw(4) ? usual_variant : static_cast<int>(sim::draw(24));
    s.style = static_cast<int>(sim::draw(81));
    const RV* x = &at(const_cast<RV&>(ra), s.pa);
    auto prefer = [&](K k) { // mostly operate on a node of the fitting kind
        if (sim::draw(5)) {
            int d;
            Path p;
            if (const RV* c = pick_container(m, k, d, p)) {
                s.a = d;
                s.pa = p;
                x = c;
            }
        }
    };
    auto pos_near = [&] { return x->a.empty() || !sim::draw(4) ? sim::draw(4) + (sim::draw(8) ? 0 : ~size_t(0) / 2) : sim::draw(x->a.size() + 1); };
    switch (s.op) {
    case Op::AssignVal:
    case Op::Reparse:
        s.val = s.op == Op::Reparse ? gen_kind(sim::draw(2) ? K::Obj : K::Arr, 12) : gen_val();
        break;
    case Op::MoveNode:
        if (s.a == s.b && prefix(s.pb, s.pa)) { // the source would be an ancestor of the target, or the target itself
            s.pb = s.pa;
            const RV* y = x;
            Path rest = gen_path(*y, 4);
            if (rest.empty()) {
                s.op = Op::AssignNode;
            }
            s.pb.insert(s.pb.end(), rest.begin(), rest.end());
        }
        s.val = gen_val(4);
        break;
    case Op::Emplace:
        prefer(K::Arr);
        s.val = gen_val();
        break;
    case Op::EmplaceNode:
        prefer(K::Arr);
        break;
    case Op::EmplaceKey:
    case Op::SetKey:
        prefer(K::Obj);
        s.val = gen_val();
        s.key = gen_key_near(*x);
        break;
    case Op::EmplaceKeyNode:
    case Op::SetKeyNode:
    case Op::TouchKey:
        prefer(K::Obj);
        s.key = gen_key_near(*x);
        break;
    case Op::SetPos: {
        prefer(K::Arr);
        if (x->k != K::Arr || x->a.empty()) {
            if (x->k == K::Arr || x->empty()) { // no position exists, and the access would be undefined
                s.op = Op::TouchArr;
                break;
            }
        }
        s.pos = x->a.empty() ? sim::draw(3) : sim::draw(x->a.size());
        s.val = gen_val();
        break;
    }
    case Op::ErasePos:
        prefer(K::Arr);
        s.pos = pos_near();
        break;
    case Op::EraseKey:
        prefer(K::Obj);
        s.key = gen_key_near(*x);
        break;
    case Op::EraseIter:
        prefer(sim::draw(2) ? K::Obj : K::Arr);
        if (!x->container()) {
            s.op = Op::Clear;
            break;
        }
        s.pos = sim::draw(x->size() + 1);
        break;
    case Op::Clear:
        break;
    case Op::ClearInner:
        prefer(sim::draw(2) ? K::Obj : K::Arr);
        if (!x->container()) {
            s.op = Op::Clear;
        }
        break;
    case Op::Append:
        prefer(K::Arr);
        s.val = gen_kind(K::Arr);
        break;
    case Op::Merge:
        prefer(K::Obj);
        s.val = gen_kind(K::Obj);
        if (x->k == K::Obj && s.val.o.size() && sim::draw(2)) { // share a key
            auto n = s.val.o.extract(s.val.o.begin());
            n.key() = gen_key_near(*x);
            s.val.o.insert(std::move(n));
        }
        break;
    case Op::AppendNode:
    case Op::ArrAssignNode:
    case Op::MergeNode:
    case Op::ObjAssignNode: {
        const K k = s.op == Op::AppendNode || s.op == Op::ArrAssignNode ? K::Arr : K::Obj;
        prefer(k);
        int d;
        Path p;
        bool found = false;
        if (x->k == k && sim::draw(2)) { // a part of the target itself
            Path rest = gen_path(*x, 4);
            for (; !found && !rest.empty(); rest.pop_back()) {
                if (at(const_cast<RV&>(*x), rest).k == k) {
                    s.b = s.a;
                    s.pb = s.pa;
                    s.pb.insert(s.pb.end(), rest.begin(), rest.end());
                    found = true;
                    break;
                }
            }
        }
        if (!found) {
            if (!pick_container(m, k, d, p) || (d == s.a && prefix(p, s.pa) && p.size() < s.pa.size())) {
                s.op = Op::TouchArr;
                break;
            }
            s.b = d;
            s.pb = p;
        }
        if (!(x->k == k || x->empty()) || (x->empty() && x->k != k && s.a == s.b && prefix(s.pa, s.pb))) {
            s.op = Op::TouchArr;
        }
        break;
    }
    case Op::EachElem:
        prefer(sim::draw(2) ? K::Obj : K::Arr);
        s.val = gen_val(3);
        if (!x->container()) {
            s.op = Op::Clear;
        }
        break;
    case Op::ArrAssign:
        prefer(K::Arr);
        s.val = gen_kind(K::Arr);
        break;
    case Op::ObjAssign:
        prefer(K::Obj);
        s.val = gen_kind(K::Obj);
        break;
    case Op::Plus:
        prefer(K::Arr);
        s.val = gen_kind(K::Arr, 4);
        s.val2 = gen_val(3);
        break;
    case Op::Pipe:
        prefer(K::Obj);
        s.val = gen_kind(K::Obj, 4);
        s.val2 = gen_val(3);
        break;
    case Op::MoveDoc:
        s.val = gen_val(4);
        break;
    case Op::Extract:
        prefer(sim::draw(2) ? K::Obj : K::Arr);
        s.val = gen_val(3);
        s.key = gen_key_near(*x);
        break;
    case Op::InitList:
        s.val = gen_val(3);
        s.val2 = gen_val(3);
        s.key = ref::gen_key();
        s.pos = sim::draw(4);
        break;
    case Op::QContains:
    case Op::QAt:
    case Op::QFind:
    case Op::QFindValue:
        prefer(sim::draw(2) ? K::Obj : K::Arr);
        s.key = gen_key_near(*x);
        s.pos = pos_near();
        break;
    case Op::QGet: {
        if (sim::draw(3)) {
            s.pa.clear();
            x = &m[static_cast<size_t>(s.a)];
        }
        const RV* y = x;
        size_t n = 1 + sim::draw(4);
        while (s.keys.size() < n) {
            Elem e { sim::draw(2) == 0, "", 0 };
            if (y && y->size() && sim::draw(8)) {
                e.is_key = y->k == K::Obj;
            }
            e.key = gen_key_near(y ? *y : RV());
            e.pos = y && y->k == K::Arr && y->a.size() ? sim::draw(y->a.size() + 1) : sim::draw(3);
            y = y ? find(*y, e) : nullptr;
            s.keys.push_back(e);
        }
        break;
    }
    case Op::QIndex:
        prefer(K::Arr);
        if (x->k == K::Arr) {
            if (x->a.empty()) {
                s.op = Op::QKinds;
                break;
            }
            s.pos = sim::draw(x->a.size());
        }
        break;
    default:
        break;
    }
    return s;
}

// ---------------------------------------------------------------- the model
inline bool to_kind(RV& x, K k) // first write access
{
    if (x.k == k) {
        return true;
    }
    if (!x.empty()) {
        return false;
    }
    x = RV::text(k, "");
    return true;
}
template <typename T>
std::string tshow(const T& v)
{
    return ref::show(typed::Ty<T>::rv(v), 4000);
}
template <typename T>
Out model_find(const RV* y)
{
    if (!y || typed::Ty<T>::conforms(*y) != typed::Conf::Yes) {
        return Out::ok("nothing");
    }
    return Out::ok(tshow(typed::Ty<T>::from(*y)));
}
template <typename T>
Out model_get(const RV* y, const T& def)
{
    if (!y || typed::Ty<T>::conforms(*y) != typed::Conf::Yes) {
        return Out::ok(tshow(def));
    }
    return Out::ok(tshow(typed::Ty<T>::from(*y)));
}
template <typename T>
Out model_as(const RV& y)
{
    if (typed::Ty<T>::conforms(y) != typed::Conf::Yes) {
        return Out::fail();
    }
    return Out::ok(tshow(typed::Ty<T>::from(y)));
}
// Types used by the typed queries of a history (the typed layer has its own worlds).
template <typename F>
auto with_type(int v, F&& f)
{
    switch (v % 11) {
    case 0:
        return f(static_cast<json::value*>(nullptr));
    case 1:
        return f(static_cast<int*>(nullptr));
    case 2:
        return f(static_cast<std::string*>(nullptr));
    case 3:
        return f(static_cast<bool*>(nullptr));
    case 4:
        return f(static_cast<json::array*>(nullptr));
    case 5:
        return f(static_cast<json::object*>(nullptr));
    case 6:
        return f(static_cast<std::vector<json::value>*>(nullptr));
    case 7:
        return f(static_cast<std::map<std::string, json::value>*>(nullptr));
    case 8:
        return f(static_cast<unsigned long long*>(nullptr));
    case 9:
        return f(static_cast<std::vector<std::string>*>(nullptr));
    default:
        return f(static_cast<long*>(nullptr));
    }
}
inline Out model(const Step& s, std::vector<RV>& docs)
{
    RV& ra = docs[static_cast<size_t>(s.a)];
    RV& rb = docs[static_cast<size_t>(s.b)];
    RV& x = at(ra, s.pa);
    auto num = [](auto v) { return std::to_string(v); };
    switch (s.op) {
    case Op::AssignVal:
    case Op::Reparse:
        (s.op == Op::Reparse ? ra : x) = s.val;
        return Out::ok();
    case Op::AssignNode: {
        RV t = at(rb, s.pb);
        x = std::move(t);
        return Out::ok();
    }
    case Op::MoveNode: {
        RV t = at(rb, s.pb);
        const bool inside = s.a == s.b && prefix(s.pa, s.pb);
        if (!inside) {
            at(rb, s.pb) = s.val; // a moved-from value is assigned right afterwards
        }
        at(ra, s.pa) = std::move(t);
        return Out::ok();
    }
    case Op::Emplace:
        if (!to_kind(x, K::Arr)) {
            return Out::fail();
        }
        x.a.push_back(s.val);
        return Out::ok(ref::show(s.val, 4000));
    case Op::EmplaceNode: {
        if (!to_kind(x, K::Arr)) {
            return Out::fail();
        }
        RV t = at(rb, s.pb);
        x.a.push_back(std::move(t));
        return Out::ok();
    }
    case Op::EmplaceKey: {
        if (!to_kind(x, K::Obj)) {
            return Out::fail();
        }
        bool fresh = x.o.insert_or_assign(s.key, s.val).second;
        return Out::ok(fresh ? "inserted" : "assigned");
    }
    case Op::EmplaceKeyNode: {
        if (!to_kind(x, K::Obj)) {
            return Out::fail();
        }
        RV t = at(rb, s.pb);
        bool fresh = x.o.insert_or_assign(s.key, std::move(t)).second;
        return Out::ok(fresh ? "inserted" : "assigned");
    }
    case Op::SetKey:
        if (!to_kind(x, K::Obj)) {
            return Out::fail();
        }
        x.o[s.key] = s.val;
        return Out::ok();
    case Op::SetKeyNode: {
        if (!to_kind(x, K::Obj)) {
            return Out::fail();
        }
        x.o[s.key];
        RV t = at(rb, s.pb);
        x.o[s.key] = std::move(t);
        return Out::ok();
    }
    case Op::TouchKey:
        if (!to_kind(x, K::Obj)) {
            return Out::fail();
        }
        x.o[s.key];
        return Out::ok();
    case Op::SetPos:
        if (x.k != K::Arr) {
            return Out::fail();
        }
        x.a[s.pos] = s.val;
        return Out::ok();
    case Op::ErasePos:
        if (!to_kind(x, K::Arr)) {
            return Out::fail();
        }
        if (s.pos >= x.a.size()) {
            return Out::ok("0");
        }
        x.a.erase(x.a.begin() + static_cast<std::ptrdiff_t>(s.pos));
        return Out::ok("1");
    case Op::EraseKey:
        if (!to_kind(x, K::Obj)) {
            return Out::fail();
        }
        return Out::ok(num(x.o.erase(s.key)));
    case Op::EraseIter:
        if (s.pos >= x.size()) {
            return Out::ok("0");
        }
        if (x.k == K::Arr) {
            x.a.erase(x.a.begin() + static_cast<std::ptrdiff_t>(s.pos));
        }
        else {
            auto it = x.o.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(s.pos));
            x.o.erase(it);
        }
        return Out::ok("1");
    case Op::Clear:
        x = RV();
        return Out::ok();
    case Op::ClearInner:
        x.a.clear();
        x.o.clear();
        return Out::ok();
    case Op::Append:
        if (!to_kind(x, K::Arr)) {
            return Out::fail();
        }
        x.a.insert(x.a.end(), s.val.a.begin(), s.val.a.end());
        return Out::ok();
    case Op::AppendNode: {
        RV t = at(rb, s.pb);
        to_kind(x, K::Arr);
        x.a.insert(x.a.end(), t.a.begin(), t.a.end());
        return Out::ok();
    }
    case Op::Merge:
        if (!to_kind(x, K::Obj)) {
            return Out::fail();
        }
        for (auto& [k, v] : s.val.o) {
            x.o[k] = v;
        }
        return Out::ok();
    case Op::MergeNode: {
        RV t = at(rb, s.pb);
        to_kind(x, K::Obj);
        for (auto& [k, v] : t.o) {
            x.o[k] = v;
        }
        return Out::ok();
    }
    case Op::TouchArr:
        return to_kind(x, K::Arr) ? Out::ok(num(x.a.size())) : Out::fail();
    case Op::TouchObj:
        return to_kind(x, K::Obj) ? Out::ok(num(x.o.size())) : Out::fail();
    case Op::EachElem: {
        size_t i = 0;
        for (auto& e : x.a) {
            if (i++ % 2 == 0) {
                e = s.val;
            }
        }
        for (auto& [k, e] : x.o) {
            if (i++ % 2 == 0) {
                e = s.val;
            }
        }
        return Out::ok(num(i));
    }
    case Op::ArrAssign:
        if (!to_kind(x, K::Arr)) {
            return Out::fail();
        }
        x = s.val;
        return Out::ok();
    case Op::ObjAssign:
        if (!to_kind(x, K::Obj)) {
            return Out::fail();
        }
        x = s.val;
        return Out::ok();
    case Op::ArrAssignNode:
    case Op::ObjAssignNode: {
        RV t = at(rb, s.pb);
        x = std::move(t);
        return Out::ok();
    }
    case Op::Plus:
    case Op::Pipe: {
        const K k = s.op == Op::Plus ? K::Arr : K::Obj;
        const bool moving = s.variant % 4 >= 2;
        RV t = x;
        if (moving ? !to_kind(t, k) : t.k != k) {
            return Out::fail();
        }
        if (moving) {
            x = s.val2;
        }
        if (k == K::Arr) {
            t.a.insert(t.a.end(), s.val.a.begin(), s.val.a.end());
        }
        else {
            for (auto& [key, v] : s.val.o) {
                t.o[key] = v;
            }
        }
        rb = std::move(t);
        return Out::ok();
    }
    case Op::CopyDoc: {
        RV t = ra;
        rb = std::move(t);
        return Out::ok();
    }
    case Op::MoveDoc: {
        RV t = ra;
        ra = s.val;
        if (&ra != &rb) {
            rb = std::move(t);
        }
        return Out::ok();
    }
    case Op::SwapDocs:
        if (&ra != &rb) {
            std::swap(ra, rb);
        }
        return Out::ok();
    case Op::Extract: {
        RV t = x;
        if (!t.container()) {
            return Out::fail();
        }
        if (t.k == K::Arr) {
            t.a.push_back(s.val);
        }
        else {
            t.o[s.key] = s.val;
        }
        rb = std::move(t);
        return Out::ok();
    }
    case Op::InitList: {
        RV t;
        switch (s.variant % 4) {
        case 0:
        case 1:
            t = RV::obj();
            t.o.emplace(s.key, s.val);
            t.o.emplace(s.key + "2", s.val2);
            break;
        case 2:
            t = RV::arr();
            t.a = { s.val, s.val2 };
            break;
        default:
            t = RV::arr();
            t.a.resize(s.pos);
        }
        rb = std::move(t);
        return Out::ok();
    }
    // ------------------------------------------------ queries
    case Op::QKinds:
    case Op::QCopy:
    case Op::QIter:
        return Out::ok(ref::show(x, 4000));
    case Op::QContains:
        return Out::ok(num(s.variant % 2 ? x.k == K::Arr && s.pos < x.a.size() : x.k == K::Obj && x.o.count(s.key)));
    case Op::QAt: {
        const RV* y = find(x, { s.variant % 2 == 0, s.key, s.pos });
        return y ? Out::ok(ref::show(*y, 4000)) : Out::fail();
    }
    case Op::QFind: {
        const RV* y = find(x, { s.variant % 2 == 0, s.key, s.pos });
        return with_type(s.variant / 2, [&](auto* t) { return model_find<std::remove_pointer_t<decltype(t)>>(y); });
    }
    case Op::QFindValue: {
        const RV* y = find(x, { s.variant % 2 == 0, s.key, s.pos });
        return y ? Out::ok(ref::show(*y, 4000)) : Out::ok("nothing");
    }
    case Op::QGet: {
        const RV* y = &x;
        for (auto& e : s.keys) {
            y = y ? find(*y, e) : nullptr;
        }
        switch (s.variant % 6) {
        case 0:
            return model_get<int>(y, -7);
        case 1:
            return model_get<std::string>(y, "fallback");
        case 2:
            return model_get<std::string>(y, "fallback too");
        case 3:
            return model_get<bool>(y, true);
        case 4:
            return model_get<json::value>(y, json::value("default"));
        default:
            return model_get<json::array>(y, json::array { 1, 2 });
        }
    }
    case Op::QCompare:
        return Out::ok(num(x == at(rb, s.pb)));
    case Op::QAs:
        return with_type(s.variant, [&](auto* t) { return model_as<std::remove_pointer_t<decltype(t)>>(x); });
    case Op::QIs:
        return with_type(s.variant, [&](auto* t) { return Out::ok(num(typed::Ty<std::remove_pointer_t<decltype(t)>>::conforms(x) == typed::Conf::Yes)); });
    case Op::QAll:
        return with_type(s.variant, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            bool all = x.container();
            for (auto& e : x.a) {
                all = all && typed::Ty<T>::conforms(e) == typed::Conf::Yes;
            }
            for (auto& [k, e] : x.o) {
                all = all && typed::Ty<T>::conforms(e) == typed::Conf::Yes;
            }
            return Out::ok(num(all));
        });
    case Op::QIndex:
        return x.k == K::Arr ? Out::ok(ref::show(x.a[s.pos], 4000)) : Out::fail();
    case Op::QText:
        return Out::ok(ref::show(x, 4000));
    case Op::QInfo: {
        static const char* const names[] = { "null", "boolean", "number", "string", "array", "object" };
        return Out::ok(names[static_cast<int>(x.k)]);
    }
    case Op::N:
        break;
    }
    return Out::ok();
}

// ---------------------------------------------------------------- the real thing
inline std::string vshow(const json::value& v)
{
    return ref::show(bridge::read(v), 4000);
}
// A moved-from value must answer, print, copy, compare and be destroyed without harm.
inline void probe_moved(json::value& v, const char* what)
{
    if (!v.valid() && v.type() != json::value::value_type::invalid) {
        sim::violate("moved-from", std::string(what) + ": inconsistent");
    }
    (void)v.empty();
    (void)v.is_array();
    (void)v.type_name();
    try {
        json::value c = v;
        (void)(c == v);
        std::string t = v.to_string() + v.format() + v.dumps(2);
        sim::note("moved-from: %s", sim::show(t, 40).c_str());
        const json::value& cv = v;
        (void)cv.contains("a");
        (void)cv.find_value(size_t(0));
        (void)cv.get("a", 1);
    }
    catch (const json::exception&) {
    }
}
inline void probe_moved(json::array& v)
{
    json::array c = v;
    (void)(c == v);
    (void)v.to_string();
    (void)v.size();
}
inline void probe_moved(json::object& v)
{
    json::object c = v;
    (void)(c == v);
    (void)v.to_string();
    (void)v.size();
}
inline json::array to_array(const RV& v)
{
    return typed::Ty<json::array>::from(v);
}
inline json::object to_object(const RV& v)
{
    return typed::Ty<json::object>::from(v);
}

template <typename Def>
auto get_n(const json::value& v, const Path& p, const Def& def, bool whole)
{
    auto k = [](const Elem& e) -> const std::string& { return e.key; };
    auto i = [](const Elem& e) { return e.pos; };
    using R = decltype(v.get("x", def));
    const size_t n = p.size();
    int mask = 0;
    for (size_t j = 0; j < n; ++j) {
        mask |= p[j].is_key << j;
    }
    seam::In in;
    if (whole && n <= 2 && p[0].is_key && v.is_object()) {
        const json::object& o = v.as_object();
        return n == 1 ? o.get(k(p[0]), def) : p[1].is_key ? o.get(k(p[0]), k(p[1]), def) : o.get(k(p[0]), i(p[1]), def);
    }
    if (whole && n <= 2 && !p[0].is_key && v.is_array()) {
        const json::array& a = v.as_array();
        return n == 1 ? a.get(i(p[0]), def) : p[1].is_key ? a.get(i(p[0]), k(p[1]), def) : a.get(i(p[0]), i(p[1]), def);
    }
    switch (n) {
    case 1:
        return mask ? v.get(k(p[0]), def) : v.get(i(p[0]), def);
    case 2:
        switch (mask) {
        case 0:
            return v.get(i(p[0]), static_cast<int>(i(p[1])), def);
        case 1:
            return v.get(k(p[0]), i(p[1]), def);
        case 2:
            return v.get(i(p[0]), k(p[1]), def);
        default:
            return v.get(k(p[0]), k(p[1]), def);
        }
    case 3:
        switch (mask) {
        case 0:
            return v.get(i(p[0]), i(p[1]), i(p[2]), def);
        case 1:
            return v.get(k(p[0]), i(p[1]), i(p[2]), def);
        case 2:
            return v.get(i(p[0]), k(p[1]), i(p[2]), def);
        case 3:
            return v.get(k(p[0]), k(p[1]), i(p[2]), def);
        case 4:
            return v.get(i(p[0]), i(p[1]), k(p[2]), def);
        case 5:
            return v.get(k(p[0]), i(p[1]), k(p[2]), def);
        case 6:
            return v.get(i(p[0]), k(p[1]), k(p[2]), def);
        default:
            return v.get(k(p[0]), k(p[1]), k(p[2]), def);
        }
    default:
        switch (mask) {
        case 0:
            return v.get(i(p[0]), i(p[1]), i(p[2]), i(p[3]), def);
        case 5:
            return v.get(k(p[0]), i(p[1]), k(p[2]), i(p[3]), def);
        case 10:
            return v.get(i(p[0]), k(p[1]), i(p[2]), k(p[3]), def);
        case 15:
            return v.get(k(p[0]), k(p[1]), k(p[2]), k(p[3]), def);
        default: { // the remaining mixtures in two halves
            const json::value* h = mask & 1 ? v.find_value(k(p[0])) : v.find_value(i(p[0]));
            h = !h ? nullptr : mask & 2 ? h->find_value(k(p[1])) : h->find_value(i(p[1]));
            if (!h) {
                return R(def);
            }
            switch (mask >> 2) {
            case 0:
                return h->get(i(p[2]), i(p[3]), def);
            case 1:
                return h->get(k(p[2]), i(p[3]), def);
            case 2:
                return h->get(i(p[2]), k(p[3]), def);
            default:
                return h->get(k(p[2]), k(p[3]), def);
            }
        }
        }
    }
}

// Applies the step. Library exceptions become Out::fail(); anything else (bad_alloc) goes to the caller.
inline Out real_(const Step& s, std::vector<json::value>& docs)
{
    json::value& ra = docs[static_cast<size_t>(s.a)];
    json::value& rb = docs[static_cast<size_t>(s.b)];
    const bool query = static_cast<int>(s.op) >= first_query;
    const json::value& cx = cat(ra, s.pa);
    json::value& x = query ? ra : at(ra, s.pa, s.style);
    auto num = [](auto v) { return std::to_string(v); };
    switch (s.op) {
    case Op::AssignVal: {
        json::value v = bridge::plain(s.val);
        const bool nul = s.val.s.find('\0') != std::string::npos;
        switch (s.variant % 4) {
        case 0:
            LIB(x = v);
            break;
        case 1:
            LIB(x = std::move(v));
            break;
        default:
            switch (s.val.k) {
            case K::Null:
                if (s.variant % 8 == 2) {
                    LIB(x = nullptr);
                }
                else {
                    LIB(x = json::value(std::monostate {}));
                }
                break;
            case K::Bool:
                LIB(x = s.val.s == "true");
                break;
            case K::Num:
                if (auto i = typed::int_of<int>(s.val.s); i && s.val.s != "-0") {
                    LIB(x = *i);
                }
                else if (auto u = typed::int_of<unsigned long long>(s.val.s); u) {
                    LIB(x = *u);
                }
                else {
                    LIB(x = json::value(json::value::value_type::number, s.val.s));
                }
                break;
            case K::Str:
                if (s.variant % 8 == 2 && !nul) {
                    const char* c = s.val.s.c_str();
                    LIB(x = c);
                }
                else if (s.variant % 8 == 3) {
                    std::string_view w = s.val.s;
                    LIB(x = w);
                }
                else {
                    LIB(x = s.val.s);
                }
                break;
            case K::Arr: {
                json::array t = to_array(s.val);
                if (s.variant % 8 == 2) {
                    LIB(x = t);
                }
                else if (s.variant % 8 == 3) {
                    LIB(x = std::move(t));
                }
                else {
                    std::list<json::value> l(t.begin(), t.end());
                    LIB(x = l);
                }
                break;
            }
            case K::Obj: {
                json::object t = to_object(s.val);
                if (s.variant % 8 == 2) {
                    LIB(x = t);
                }
                else if (s.variant % 8 == 3) {
                    LIB(x = std::move(t));
                }
                else {
                    std::unordered_map<std::string, json::value> l(t.begin(), t.end());
                    LIB(x = l);
                }
                break;
            }
            }
        }
        return Out::ok();
    }
    case Op::AssignNode: {
        const json::value& y = cat(rb, s.pb);
        LIB(x = y);
        return Out::ok();
    }
    case Op::MoveNode: {
        const bool inside = s.a == s.b && prefix(s.pa, s.pb);
        json::value& y = at(rb, s.pb, s.style / 3);
        LIB(x = std::move(y));
        if (!inside) {
            probe_moved(y, "value after a move");
            json::value v = bridge::plain(s.val);
            // the source may live inside what was just replaced: it does not, x is no ancestor of y here
            y = v;
        }
        return Out::ok();
    }
    case Op::Emplace: {
        json::value v = bridge::plain(s.val);
        json::value* r = nullptr;
        const auto i = s.val.k == K::Num ? typed::int_of<long>(s.val.s) : std::nullopt;
        if (s.variant % 4 == 1) {
            LIB(r = &x.emplace(std::move(v)));
        }
        else if (s.variant % 4 == 2 && s.val.k == K::Str) {
            LIB(r = &x.emplace(s.val.s));
        }
        else if (s.variant % 4 == 2 && i && s.val.s != "-0") {
            LIB(r = &x.emplace(*i));
        }
        else if (s.variant % 4 == 3 && x.is_array()) {
            if (s.variant % 3 == 0) { // a reference to the array survives later accesses through the value
                json::array& held = x.as_array();
                LIB(x.as_array().size());
                LIB(r = &held.emplace_back(v));
            }
            else if (s.variant % 8 == 3) {
                LIB(r = &x.as_array().push_back(v));
            }
            else {
                LIB(r = &x.as_array().emplace_back(v));
            }
        }
        else {
            LIB(r = &x.emplace(v));
        }
        return Out::ok(vshow(*r));
    }
    case Op::EmplaceNode: {
        const json::value& y = cat(rb, s.pb);
        LIB(x.emplace(y));
        return Out::ok();
    }
    case Op::EmplaceKey: {
        json::value v = bridge::plain(s.val);
        bool fresh = false;
        json::object::iterator it;
        switch (s.variant % 4) {
        case 0:
            LIB(std::tie(it, fresh) = x.emplace(s.key, v));
            break;
        case 1: {
            std::string k = s.key;
            LIB(std::tie(it, fresh) = x.emplace(std::move(k), std::move(v)));
            break;
        }
        case 2:
            LIB(std::tie(it, fresh) = x.as_object().insert(s.key, v));
            break;
        default: {
            json::object* held = nullptr;
            LIB(held = &x.as_object());
            LIB((void)x.as_object().contains(s.key));
            if (s.variant % 8 >= 4 && held->size()) {
                LIB((void)x[held->begin()->first]);
            }
            LIB(std::tie(it, fresh) = held->emplace(s.key, std::move(v)));
        }
        }
        if (it->first != s.key || !bridge::same(it->second, s.val)) {
            sim::violate("result", "emplace returned an iterator to something else");
        }
        return Out::ok(fresh ? "inserted" : "assigned");
    }
    case Op::EmplaceKeyNode: {
        const json::value& y = cat(rb, s.pb);
        bool fresh = false;
        LIB(fresh = x.emplace(s.key, y).second);
        return Out::ok(fresh ? "inserted" : "assigned");
    }
    case Op::SetKey: {
        json::value v = bridge::plain(s.val);
        json::value* slot = nullptr;
        if (s.variant % 2) {
            std::string k = s.key;
            LIB(slot = &x[std::move(k)]);
        }
        else {
            LIB(slot = &x[s.key]);
        }
        LIB(*slot = std::move(v));
        return Out::ok();
    }
    case Op::SetKeyNode: {
        json::value* slot = nullptr;
        LIB(slot = &x[s.key]);
        const json::value& y = cat(rb, s.pb);
        LIB(*slot = y);
        return Out::ok();
    }
    case Op::TouchKey:
        if (s.variant % 2 && x.is_object()) {
            LIB((void)x.as_object()[s.key]);
        }
        else {
            LIB((void)x[s.key]);
        }
        return Out::ok();
    case Op::SetPos: {
        json::value v = bridge::plain(s.val);
        json::value* slot = nullptr;
        LIB(slot = &x[s.pos]);
        if (s.variant % 2) {
            LIB(*slot = v);
        }
        else {
            LIB(*slot = std::move(v));
        }
        return Out::ok();
    }
    case Op::ErasePos: {
        bool r = false;
        LIB(r = x.erase(s.pos));
        return Out::ok(num(r));
    }
    case Op::EraseKey: {
        bool r = false;
        LIB(r = x.erase(s.key));
        return Out::ok(num(r));
    }
    case Op::EraseIter: {
        bool r = false;
        if (x.is_array()) {
            auto& a = x.as_array();
            auto it = a.begin() + static_cast<std::ptrdiff_t>(s.pos);
            LIB(r = a.erase(it));
        }
        else {
            auto& o = x.as_object();
            auto it = o.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(s.pos));
            LIB(r = o.erase(it));
        }
        return Out::ok(num(r));
    }
    case Op::Clear:
        LIB(x.clear());
        return Out::ok();
    case Op::ClearInner:
        if (x.is_array()) {
            LIB(x.as_array().clear());
        }
        else {
            LIB(x.as_object().clear());
        }
        return Out::ok();
    case Op::Append: {
        json::array v = to_array(s.val);
        json::array* target = s.variant % 4 >= 2 && x.is_array() ? &x.as_array() : nullptr;
        if (s.variant % 2) {
            if (target) {
                LIB(*target += std::move(v));
            }
            else {
                LIB(x += std::move(v));
            }
            probe_moved(v);
        }
        else {
            if (target) {
                LIB(*target += v);
            }
            else {
                LIB(x += v);
            }
            if (bridge::read(v) != s.val) {
                sim::violate("source", "the appended array changed");
            }
        }
        return Out::ok();
    }
    case Op::AppendNode: {
        if (s.a == s.b && s.pa.size() == s.pb.size() && prefix(s.pa, s.pb)) {
            json::array& t = x.as_array();
            LIB(t += t);
        }
        else {
            const json::array& y = cat(rb, s.pb).as_array();
            LIB(x += y);
        }
        return Out::ok();
    }
    case Op::Merge: {
        json::object v = to_object(s.val);
        json::object* target = s.variant % 4 >= 2 && x.is_object() ? &x.as_object() : nullptr;
        if (s.variant % 2) {
            if (target) {
                LIB(*target |= std::move(v));
            }
            else {
                LIB(x |= std::move(v));
            }
            probe_moved(v);
        }
        else {
            if (target) {
                LIB(*target |= v);
            }
            else {
                LIB(x |= v);
            }
            if (bridge::read(v) != s.val) {
                sim::violate("source", "the merged object changed");
            }
        }
        return Out::ok();
    }
    case Op::MergeNode: {
        const json::object& y = cat(rb, s.pb).as_object();
        LIB(x |= y);
        return Out::ok();
    }
    case Op::TouchArr: {
        json::array* t = nullptr;
        LIB(t = &x.as_array());
        return Out::ok(num(t->size()));
    }
    case Op::TouchObj: {
        json::object* t = nullptr;
        LIB(t = &x.as_object());
        return Out::ok(num(t->size()));
    }
    case Op::EachElem: {
        json::value v = bridge::plain(s.val);
        size_t i = 0;
        if (x.is_array()) {
            auto& a = x.as_array();
            if (s.variant % 2) {
                size_t n = a.size();
                size_t back = n;
                for (auto it = a.rbegin(); it != a.rend(); ++it) {
                    if (--back % 2 == 0) {
                        LIB(*it = v);
                    }
                    ++i;
                }
            }
            else {
                for (auto& e : a) {
                    if (i++ % 2 == 0) {
                        LIB(e = v);
                    }
                }
            }
        }
        else {
            for (auto& [k, e] : x.as_object()) {
                if (i++ % 2 == 0) {
                    LIB(e = v);
                }
            }
        }
        return Out::ok(num(i));
    }
    case Op::ArrAssign: {
        json::array v = to_array(s.val);
        json::array* t = nullptr;
        LIB(t = &x.as_array());
        switch (s.variant % 3) {
        case 0:
            LIB(*t = v);
            break;
        case 1:
            LIB(*t = std::move(v));
            probe_moved(v);
            break;
        default: {
            std::vector<json::value> w(v.begin(), v.end());
            LIB(*t = std::move(w));
        }
        }
        return Out::ok();
    }
    case Op::ObjAssign: {
        json::object v = to_object(s.val);
        json::object* t = nullptr;
        LIB(t = &x.as_object());
        switch (s.variant % 3) {
        case 0:
            LIB(*t = v);
            break;
        case 1:
            LIB(*t = std::move(v));
            probe_moved(v);
            break;
        default: {
            std::map<std::string, json::value> w(v.begin(), v.end());
            LIB(*t = std::move(w));
        }
        }
        return Out::ok();
    }
    case Op::ArrAssignNode: {
        json::array* t = nullptr;
        LIB(t = &x.as_array());
        const json::array& y = cat(rb, s.pb).as_array();
        LIB(*t = y);
        return Out::ok();
    }
    case Op::ObjAssignNode: {
        json::object* t = nullptr;
        LIB(t = &x.as_object());
        const json::object& y = cat(rb, s.pb).as_object();
        LIB(*t = y);
        return Out::ok();
    }
    case Op::Plus:
    case Op::Pipe: {
        json::value r;
        const bool moving = s.variant % 4 >= 2, rmove = s.variant % 2;
        const bool whole = s.variant % 8 >= 4; // operators of the container class instead of value's
        if (s.op == Op::Plus) {
            json::array v = to_array(s.val);
            if (whole && x.is_array()) {
                json::array& xa = x.as_array();
                if (moving) {
                    if (rmove) {
                        LIB(r = std::move(xa) + std::move(v));
                    }
                    else {
                        LIB(r = std::move(xa) + v);
                    }
                    probe_moved(xa);
                }
                else if (rmove) {
                    LIB(r = xa + std::move(v));
                }
                else {
                    LIB(r = xa + v);
                }
            }
            else if (moving) {
                if (rmove) {
                    LIB(r = std::move(x) + std::move(v));
                }
                else {
                    LIB(r = std::move(x) + v);
                }
                probe_moved(x, "left operand of +");
            }
            else if (rmove) {
                LIB(r = cx + std::move(v));
            }
            else {
                LIB(r = cx + v);
            }
            if (rmove) {
                probe_moved(v);
            }
            else if (bridge::read(v) != s.val) {
                sim::violate("source", "the right operand of + changed");
            }
        }
        else {
            json::object v = to_object(s.val);
            if (whole && x.is_object()) {
                json::object& xo = x.as_object();
                if (moving) {
                    if (rmove) {
                        LIB(r = std::move(xo) | std::move(v));
                    }
                    else {
                        LIB(r = std::move(xo) | v);
                    }
                    probe_moved(xo);
                }
                else if (rmove) {
                    LIB(r = xo | std::move(v));
                }
                else {
                    LIB(r = xo | v);
                }
            }
            else if (moving) {
                if (rmove) {
                    LIB(r = std::move(x) | std::move(v));
                }
                else {
                    LIB(r = std::move(x) | v);
                }
                probe_moved(x, "left operand of |");
            }
            else if (rmove) {
                LIB(r = cx | std::move(v));
            }
            else {
                LIB(r = cx | v);
            }
            if (rmove) {
                probe_moved(v);
            }
            else if (bridge::read(v) != s.val) {
                sim::violate("source", "the right operand of | changed");
            }
        }
        if (moving) {
            json::value v = bridge::plain(s.val2);
            x = std::move(v);
        }
        rb = std::move(r);
        return Out::ok();
    }
    case Op::CopyDoc: {
        if (s.variant % 2) {
            LIB(rb = ra);
        }
        else {
            std::optional<json::value> c;
            LIB(c.emplace(ra));
            rb = std::move(*c);
        }
        return Out::ok();
    }
    case Op::MoveDoc: {
        json::value v = bridge::plain(s.val);
        if (&ra == &rb) {
            std::optional<json::value> c;
            LIB(c.emplace(std::move(ra)));
            probe_moved(ra, "document after move construction");
            ra = v;
        }
        else {
            LIB(rb = std::move(ra));
            probe_moved(ra, "document after move assignment");
            ra = std::move(v);
        }
        return Out::ok();
    }
    case Op::SwapDocs:
        if (&ra != &rb) {
            LIB(std::swap(ra, rb));
        }
        return Out::ok();
    case Op::Extract: {
        json::value v = bridge::plain(s.val);
        json::value r;
        if (cx.is_array()) {
            std::optional<json::array> t;
            if (s.variant % 2) {
                LIB(t.emplace(cx.as_array()));
            }
            else {
                LIB(t.emplace(static_cast<json::array>(cx)));
            }
            LIB(t->push_back(v));
            LIB(r = std::move(*t));
        }
        else {
            std::optional<json::object> t;
            if (s.variant % 2) {
                LIB(t.emplace(cx.as_object()));
            }
            else {
                LIB(t.emplace(cx.as<json::object>()));
            }
            LIB((*t)[s.key] = v);
            LIB(r = *t);
        }
        rb = std::move(r);
        return Out::ok();
    }
    case Op::InitList: {
        json::value v = bridge::plain(s.val), w = bridge::plain(s.val2);
        json::value r;
        const std::string k2 = s.key + "2";
        switch (s.variant % 4) {
        case 0:
            LIB(r = json::object({ { s.key, v }, { k2, w } }));
            break;
        case 1:
            LIB((r = json::value { { s.key, v }, { k2, w } }));
            break;
        case 2:
            LIB((r = json::array { v, w }));
            break;
        default:
            LIB(r = json::array(s.pos));
        }
        rb = std::move(r);
        return Out::ok();
    }
    case Op::Reparse: {
        std::string t = ref::compact(s.val);
        std::optional<json::value> r;
        LIB(r = s.variant % 2 ? json::parsec(t) : json::parse(t));
        if (!r) {
            sim::violate("parse", "a well-formed text was rejected: " + sim::show(t));
        }
        ra = std::move(*r);
        return Out::ok();
    }
    // ------------------------------------------------ queries
    case Op::QKinds: {
        auto t = bridge::read(cx);
        bridge::expect_value(cx, t, "query");
        return Out::ok(ref::show(t, 4000));
    }
    case Op::QContains: {
        bool r = false;
        if (s.variant % 4 < 2) {
            if (s.style % 2 && s.variant % 2 && cx.is_array()) {
                LIB(r = cx.as_array().contains(s.pos) && cx.as_array().exists(s.pos));
            }
            else if (s.style % 2 && s.variant % 2 == 0 && cx.is_object()) {
                LIB(r = cx.as_object().contains(s.key) && cx.as_object().exists(s.key));
            }
            else {
                LIB(r = s.variant % 2 ? cx.contains(s.pos) : cx.contains(s.key));
            }
        }
        else {
            LIB(r = s.variant % 2 ? cx.exists(s.pos) : cx.exists(s.key));
        }
        return Out::ok(num(r));
    }
    case Op::QAt: {
        const json::value* r = nullptr;
        if (s.variant % 4 >= 2 && s.variant % 2 && cx.is_array()) {
            LIB(r = &cx.as_array().at(s.pos));
        }
        else if (s.variant % 4 >= 2 && s.variant % 2 == 0 && cx.is_object()) {
            LIB(r = &cx.as_object().at(s.key));
        }
        else {
            LIB(r = s.variant % 2 ? &cx.at(s.pos) : &cx.at(s.key));
        }
        return Out::ok(vshow(*r));
    }
    case Op::QFind:
        return with_type(s.variant / 2, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            std::optional<T> r;
            if (s.style % 2 && s.variant % 2 && cx.is_array()) {
                LIB(r = cx.as_array().find<T>(s.pos));
            }
            else if (s.style % 2 && s.variant % 2 == 0 && cx.is_object()) {
                LIB(r = cx.as_object().find<T>(s.key));
            }
            else {
                LIB(r = s.variant % 2 ? cx.find<T>(s.pos) : cx.find<T>(s.key));
            }
            return Out::ok(r ? tshow(*r) : "nothing");
        });
    case Op::QFindValue: {
        const json::value* r = nullptr;
        LIB(r = s.variant % 2 ? cx.find_value(s.pos) : cx.find_value(s.key));
        return Out::ok(r ? vshow(*r) : "nothing");
    }
    case Op::QGet:
        switch (s.variant % 6) {
        case 0:
            return Out::ok(tshow(get_n(cx, s.keys, -7, s.style % 2)));
        case 1:
            return Out::ok(tshow(get_n(cx, s.keys, std::string("fallback"), s.style % 2)));
        case 2: {
            const char* d = "fallback too";
            return Out::ok(tshow(get_n(cx, s.keys, d, s.style % 2)));
        }
        case 3:
            return Out::ok(tshow(get_n(cx, s.keys, true, s.style % 2)));
        case 4:
            return Out::ok(tshow(get_n(cx, s.keys, json::value("default"), s.style % 2)));
        default:
            return Out::ok(tshow(get_n(cx, s.keys, json::array { 1, 2 }, s.style % 2)));
        }
    case Op::QCompare: {
        const json::value& y = cat(rb, s.pb);
        bool e = false, n = false;
        LIB(e = cx == y);
        LIB(n = y != cx);
        if (e == n) {
            sim::violate("result", "== and != agree");
        }
        if (cx.is_array() && y.is_array()) {
            LIB(n = cx.as_array() != y.as_array());
            if (e == n || e != (cx.as_array() == y.as_array())) {
                sim::violate("result", "== and != of arrays differ from those of the values that hold them");
            }
        }
        if (cx.is_object() && y.is_object()) {
            LIB(n = cx.as_object() != y.as_object());
            if (e == n || e != (cx.as_object() == y.as_object())) {
                sim::violate("result", "== and != of objects differ from those of the values that hold them");
            }
        }
        return Out::ok(num(e));
    }
    case Op::QAs:
        return with_type(s.variant, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            std::optional<T> r;
            if (s.variant >= 12) {
                LIB(r.emplace(static_cast<T>(cx)));
            }
            else {
                LIB(r.emplace(cx.as<T>()));
            }
            return Out::ok(tshow(*r));
        });
    case Op::QIs:
        return with_type(s.variant, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            bool r = false;
            LIB(r = cx.is<T>());
            return Out::ok(num(r));
        });
    case Op::QAll:
        return with_type(s.variant, [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            bool r = false;
            LIB(r = cx.all<T>());
            return Out::ok(num(r));
        });
    case Op::QIter: {
        RV r = bridge::read(cx);
        if (r.k == K::Arr) {
            const json::array& a = cx.as_array();
            size_t i = r.a.size();
            for (auto it = a.crbegin(); it != a.crend(); ++it) {
                if (i == 0 || bridge::read(*it) != r.a[--i]) {
                    sim::violate("result", "reverse iteration disagrees with forward iteration");
                }
            }
            if (i != 0 || static_cast<size_t>(a.cend() - a.cbegin()) != a.size() || static_cast<size_t>(a.rend() - a.rbegin()) != a.size()) {
                sim::violate("result", "iterator ranges disagree with size()");
            }
        }
        else if (r.k == K::Obj) {
            const json::object& o = cx.as_object();
            if (static_cast<size_t>(std::distance(o.cbegin(), o.cend())) != o.size()) {
                sim::violate("result", "iterator range disagrees with size()");
            }
        }
        return Out::ok(ref::show(r, 4000));
    }
    case Op::QIndex: {
        const json::value* r = nullptr;
        LIB(r = &cx[s.pos]);
        return Out::ok(vshow(*r));
    }
    case Op::QCopy: {
        std::optional<json::value> c;
        LIB(c.emplace(cx));
        if (!(*c == cx)) {
            sim::violate("result", "a copy differs from its origin");
        }
        return Out::ok(vshow(*c));
    }
    case Op::QText: {
        std::string t;
        if (s.variant % 3 == 0) {
            LIB(t = cx.to_string());
        }
        else if (s.variant % 3 == 1) {
            LIB(t = cx.format(static_cast<size_t>(s.variant % 5)));
        }
        else {
            LIB(t = cx.dumps(s.variant % 2 ? std::optional<size_t>(3) : std::nullopt));
        }
        auto r = ref::parse("[" + t + "]", ref::Dialect::Strict);
        if (!r) {
            sim::violate("text", "printed text is not JSON: " + sim::show(t));
        }
        return Out::ok(ref::show(r->a.at(0), 4000));
    }
    case Op::QInfo: {
        std::string t;
        LIB(t = cx.type_name());
        std::string i;
        LIB(i = cx.value_info());
        return Out::ok(t);
    }
    case Op::N:
        break;
    }
    return Out::ok();
}
inline Out real(const Step& s, std::vector<json::value>& docs)
{
    try {
        return real_(s, docs);
    }
    catch (const json::exception&) {
        return Out::fail();
    }
    catch (const std::out_of_range&) {
        return Out::fail();
    }
}
} // namespace ops
