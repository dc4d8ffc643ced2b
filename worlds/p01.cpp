// C01: a saved document reloads as the same document.
#include "bridge.hpp"
#include "load.hpp"

using namespace sim;
using ref::Dialect;
using ref::RV;

namespace
{
const char* forms[] = { "dumps()", "to_string()", "dumps(n)", "format()", "format(n)", "<<", "array/object text", "array/object <<" };

std::string serialise(const json::value& v, uint64_t form, size_t indent)
{
    switch (form) {
    case 0:
        return v.dumps();
    case 1:
        return v.to_string();
    case 2:
        return v.dumps(indent);
    case 3:
        return v.format();
    case 4:
        return v.format(indent);
    case 6:
        if (v.is_array()) {
            return draw(2) ? v.as_array().dumps(indent) : draw(2) ? v.as_array().to_string() : v.as_array().format(indent);
        }
        return draw(2) ? v.as_object().dumps(indent) : draw(2) ? v.as_object().to_string() : v.as_object().format(indent);
    default: {
        std::ostringstream os;
        if (form == 5) {
            os << v;
        }
        else if (v.is_array()) {
            os << v.as_array();
        }
        else {
            os << v.as_object();
        }
        return os.str();
    }
    }
}

// Writes through a medium; returns what is stored there.
std::string save(const json::value& v, uint64_t form, size_t indent, uint64_t medium)
{
    auto put = [&](std::ostream& os) {
        if (form == 5) {
            os << v;
        }
        else if (form == 7) {
            if (v.is_array()) {
                os << v.as_array();
            }
            else {
                os << v.as_object();
            }
        }
        else {
            os << serialise(v, form, indent);
        }
    };
    if (medium == 1) {
        simio::Out out;
        out.use_buffer(pick(0, 1, 3, 16, 512, 4096));
        std::ostream os(&out);
        put(os);
        os.flush();
        SIM_CHECK(os.good(), "save", "a healthy stream reports failure after the document was written to it");
        fault("split transfer (stream writes)", out.transfers);
        return out.stored;
    }
    if (medium == 2) {
        simio::MemFile f;
        simio::sys = {};
        simio::sys.max_write = pick(SIZE_MAX, 1, 3, 64, 1000);
        simio::sys.eintr_every = pick(0, 0, 2, 3, 5);
        std::ofstream os(f.path(), std::ios::out | std::ios::trunc);
        simio::sys.on = true;
        put(os);
        os.close();
        simio::sys.on = false;
        SIM_CHECK(os.good(), "save", "a healthy file stream reports failure after the document was written to it");
        fault("EINTR on write", simio::sys.eintrs);
        fault("short write", simio::sys.short_writes);
        return f.get();
    }
    return serialise(v, form, indent);
}

void append_typed_numbers(json::value& v, RV& m)
{
    size_t n = draw(4);
    for (size_t i = 0; i < n; ++i) {
        json::value x;
        switch (draw(6)) {
        case 0: {
            uint64_t bits = draw(UINT64_MAX);
            double d;
            memcpy(&d, &bits, 8);
            x = d - d == 0 ? json::value(d) : json::value(0.5);
            break;
        }
        case 1: {
            uint32_t bits = static_cast<uint32_t>(draw(UINT32_MAX));
            float d;
            memcpy(&d, &bits, 4);
            x = d - d == 0 ? json::value(d) : json::value(0.5f);
            break;
        }
        case 2:
            x = json::value(static_cast<long double>(static_cast<int64_t>(draw(UINT64_MAX))) / static_cast<long double>(1 + draw(1000)));
            break;
        case 3:
            x = json::value(static_cast<int>(draw(UINT32_MAX)));
            break;
        case 4:
            x = json::value(static_cast<unsigned long long>(draw(UINT64_MAX)));
            break;
        default:
            x = json::value(static_cast<long>(draw(UINT64_MAX)) - 5);
            break;
        }
        std::string t = x.to_string();
        SIM_CHECK(ref::is_number_text(t), "number-text", "a finite number is printed as " + show(t) + ", which is not a JSON number");
        if (m.k == ref::K::Arr) {
            m.a.push_back(RV::num(t));
            v.emplace(x);
        }
        else {
            std::string k = "n" + std::to_string(i);
            m.o[k] = RV::num(t);
            v[k] = x;
        }
    }
}

void run()
{
    ref::Gen g;
    g.huge = true;
    g.max_nodes = pick(3, 8, 24, 60);
    RV model = ref::gen(g);
    json::value v = bridge::build(model);
    append_typed_numbers(v, model);
    bridge::expect_value(v, model, "built document");
    note("model %s", ref::show(model).c_str());

    size_t generations = 1 + draw(3);
    for (size_t gen = 0; gen < generations; ++gen) {
        uint64_t form = draw(8);
        size_t indent = pick(0, 1, 2, 3, 4, 7, 8, 17);
        if (model.depth() > 40 && indent > 4) {
            indent = 1;
        }
        uint64_t medium = draw(3);
        std::string text = save(v, form, indent, medium);
        step();
        note("generation %zu: %s indent=%zu medium=%llu", gen, forms[form], indent, (unsigned long long)medium);
        note_bytes("text", text);
        auto parsed = ref::parse(text, Dialect::Strict);
        SIM_CHECK(parsed.has_value(), "output-not-json", std::string(forms[form]) + " printed text that is not JSON: " + show(text));
        SIM_CHECK(*parsed == model, "output-differs",
                  std::string(forms[form]) + " printed text that denotes " + ref::show(*parsed) + " instead of " + ref::show(model));
        bridge::expect_value(v, model, "document after it was saved");

        // restart: only the stored bytes survive
        uint64_t via = draw(4);
        Dialect d = draw(2) ? Dialect::Jsonc : Dialect::Strict;
        bool bom = via != 0 && draw(2);
        std::string stored = bom && draw(2) ? load::BOM + text : text;
        load::Result r;
        switch (via) {
        case 1:
            r = load::stream(stored, d, bom);
            break;
        case 2:
            r = load::file(stored, d, bom);
            break;
        case 3:
            r = load::string_stream(stored, d, bom);
            break;
        default: {
            uint64_t how = draw(7);
            r = load::memory(stored, d, how);
            break;
        }
        }
        step();
        note("load via=%llu dialect=%d bom=%d/%d -> %d", (unsigned long long)via, (int)d, bom, stored.size() != text.size(), r.has_value());
        SIM_CHECK(r.has_value(), "reload-failed", "the saved text of " + ref::show(model) + " does not load: " + show(text));
        bridge::expect_value(*r, model, "reloaded document");
        SIM_CHECK(*r == v && v == *r && !(*r != v), "reload-unequal", "the reloaded document does not compare equal to " + ref::show(model));
        state(mix(ref::hash(model), mix(form * 8 + medium, via * 4 + (int)d * 2 + bom)));
        if (medium || via) {
            nontrivial();
        }
        if (draw(2)) {
            v = std::move(*r);
        }
        else {
            v = *r;
        }
    }
    sample(std::to_string(generations) + " save/load generations of " + ref::show(model, 400));
}
} // namespace

const sim::World sim::world { "C01",
                              "each run draws a document (biased to vector-step, SSO and buffer boundaries, control characters, escapes, "
                              "raw bytes, numeric edge texts, now and then very long/wide/deep), builds it through a drawn mixture of API "
                              "calls and takes it through 1-3 save/restart/load generations; non-trivial when at least one generation went "
                              "through a simulated stream or file (split transfers, EINTR)",
                              run, true, 64 };
