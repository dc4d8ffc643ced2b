// C17: structs with any list of fields, drawn by generate.py, between peers and across restarts.
#include "p14.hpp"
#include "universe.hpp"

ref::RV* p14::sender = nullptr;
void restart_type(size_t i);

namespace
{
void run()
{
    const size_t i = sim::draw(universe::All::size);
    sim::note("type %zu", i);
    if (sim::draw(3) == 2) {
        return restart_type(i);
    }
    universe::dispatch(i);
}
} // namespace

const sim::World sim::world { "C17",
                              "the build draws structs with 1 to 64 list entries each (marks in any mix and order, any keys and field names, nested, derived, "
                              "private, templates, one macro or three); each run draws one of them and either messages of a peer to it (skewed, damaged, "
                              "duplicated, reordered) or a history of saves, crashes and restarts of state of this type; everything is compared with the "
                              "field list; non-trivial: a message was sent or a state was restored",
                              run, true, 128 };
