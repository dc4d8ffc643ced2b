// C02: an interrupted save is never mistaken for a document.
#include "bridge.hpp"
#include "load.hpp"

using namespace sim;
using ref::Dialect;
using ref::RV;

namespace
{
void put(std::ostream& os, const json::value& v, uint64_t form, size_t indent)
{
    switch (form) {
    case 0:
        os << v;
        break;
    case 1:
        os << v.dumps();
        break;
    case 2:
        os << v.dumps(indent);
        break;
    default:
        if (v.is_array()) {
            os << v.as_array();
        }
        else {
            os << v.as_object();
        }
        break;
    }
}

void must_fail(const std::string& stored, const std::string& what)
{
    for (Dialect d : { Dialect::Strict, Dialect::Jsonc }) {
        load::Result r;
        switch (draw(4)) {
        case 0:
            r = load::stream(stored, d, draw(2));
            break;
        case 1:
            r = load::file(stored, d, draw(2));
            break;
        default:
            r = load::memory(stored, d, draw(7));
            break;
        }
        step();
        if (r) {
            violate("prefix-accepted", what + " loads as a document " + ref::show(bridge::read(*r)) + ": " + show(stored));
        }
    }
}

void run()
{
    ref::Gen g;
    g.huge = true;
    g.max_nodes = pick(3, 8, 30);
    RV model = ref::gen(g);
    json::value v = bridge::build(model);
    uint64_t form = draw(4);
    size_t indent = pick(0, 1, 2, 4);
    std::ostringstream healthy;
    put(healthy, v, form, indent);
    const std::string text = healthy.str();
    note("model %s form=%llu", ref::show(model).c_str(), (unsigned long long)form);
    note_bytes("complete", text);
    SIM_CHECK(!text.empty(), "output", "nothing was written");

    // the save is interrupted after `cut` bytes
    size_t cut = chance(1, 3) ? text.size() - 1 - draw(std::min<size_t>(text.size(), 6)) : draw(text.size());
    std::string stored;
    bool reported = true;
    uint64_t kind = draw(5);
    if (kind <= 1) {
        simio::Out out;
        out.use_buffer(pick(0, 1, 7, 64, 4096));
        out.capacity = cut;
        out.full_throws = kind == 1;
        std::ostream os(&out);
        bool exc = draw(4) == 0;
        bool thrown = false;
        if (exc) {
            os.exceptions(std::ios::badbit | std::ios::failbit);
        }
        try {
            put(os, v, form, indent);
            os.flush();
        }
        catch (const std::ios_base::failure&) {
            thrown = true;
        }
        catch (const simio::DeviceError&) {
            thrown = true;
        }
        reported = thrown || !os.good();
        stored = out.stored;
        fault(kind ? "sink throws when full" : "sink full");
    }
    else {
        simio::MemFile f;
        simio::sys = {};
        simio::sys.max_write = pick(SIZE_MAX, 1, 100);
        simio::sys.eintr_every = pick(0, 3);
        if (kind == 4) {
            simio::sys.crash_at = cut;
            fault("crash during save");
        }
        else {
            simio::sys.write_fail_at = cut;
            simio::sys.write_errno = kind == 2 ? 28 : 5;
            fault(kind == 2 ? "disk full (ENOSPC)" : "disk error on write (EIO)");
        }
        std::ofstream os(f.path(), std::ios::out | std::ios::trunc);
        simio::sys.on = true;
        put(os, v, form, indent);
        os.close();
        simio::sys.on = false;
        reported = kind == 4 || !os.good();
        stored = f.get();
    }
    step();
    note_bytes("stored", stored);
    SIM_CHECK(reported, "failure-not-reported",
              "only " + std::to_string(stored.size()) + " of " + std::to_string(text.size()) + " bytes were stored but the stream is good()");
    SIM_CHECK(stored.size() < text.size() && text.compare(0, stored.size(), stored) == 0, "not-a-prefix",
              "what reached the device is not a proper prefix of the complete text: " + show(stored) + " vs " + show(text));
    bridge::expect_value(v, model, "document after the interrupted save");

    // restart
    must_fail(stored, "the interrupted save");
    size_t pad = pick(1, 3, 16, 512, 4096 - stored.size() % 4096);
    fault("zero padding of the torn block");
    must_fail(stored + std::string(pad, '\0'), "the zero-padded interrupted save");
    for (size_t i = 0, n = 2 + draw(4); i < n; ++i) {
        size_t k = draw(text.size());
        std::string p = text.substr(0, k);
        if (draw(3) == 0) {
            p.resize(text.size(), '\0'); // length already extended, data not written
        }
        must_fail(p, "a prefix of the complete text");
    }
    // a healthy sink afterwards
    std::ostringstream again;
    put(again, v, form, indent);
    SIM_CHECK(again.good() && again.str() == text, "second-save", "saving again gives different text: " + show(again.str()));
    auto r = load::memory(again.str(), Dialect::Strict, draw(7));
    SIM_CHECK(r.has_value(), "second-save", "the second save does not load");
    bridge::expect_value(*r, model, "document of the second save");
    nontrivial();
    state(mix(sim::hash_str(text), mix(cut, kind)));
    sample("save of " + show(text, 200) + " interrupted at byte " + std::to_string(cut) + " of " + std::to_string(text.size()));
}
} // namespace

const sim::World sim::world { "C02",
                              "each run draws a document and interrupts its save at a drawn byte (full sink, throwing sink, ENOSPC, EIO, "
                              "crash; drawn buffer and transfer sizes), then loads what was stored, zero-padded variants and further "
                              "prefixes in both dialects; non-trivial: an interruption fired inside the text (every run)",
                              run, true, 64 };
