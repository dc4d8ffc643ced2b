// C15: enums drawn by generate.py, between peers, across restarts, and with values that no enumerator has.
#include "names.hpp"
#include "p14.hpp"
#include "universe.hpp"

ref::RV* p14::sender = nullptr;
void restart_type(size_t i);

namespace
{
void run()
{
    if (sim::draw(3) == 0) {
        const size_t i = sim::draw(universe::Enums::size);
        sim::note("enum %zu", i);
        switch (i % names::CHUNKS) {
        case 0:
            return names::entry<0>(i);
        case 1:
            return names::entry<1>(i);
        case 2:
            return names::entry<2>(i);
        default:
            return names::entry<3>(i);
        }
    }
    const size_t i = sim::draw(universe::All::size);
    sim::note("type %zu", i);
    if (sim::draw(3) == 2) {
        return restart_type(i);
    }
    universe::dispatch(i);
}
} // namespace

const sim::World sim::world { "C15",
                              "the build draws enums (underlying types, ranges, values, names, places, scoped or not); each run draws one of them, a container of "
                              "one or a struct with some, and either values (with and without a name), spellings of names, messages of a peer (skewed, damaged, "
                              "duplicated, reordered), or a history of saves, crashes and restarts; everything is compared with the list of enumerators, for "
                              "two compilers; non-trivial: something was converted",
                              run, true, 128 };
