// C11: conversions whose user-supplied hooks fail.
#include "p11.hpp"

namespace
{
using namespace sim;
void run()
{
    p11::plan = {};
    const size_t i = draw(p11::All::size);
    note("type %zu", i);
    p11::dispatch(i);
    sample("conversion of type " + std::to_string(i));
}
} // namespace

const sim::World sim::world { "C11",
                              "each run draws a type built around user types with conversion hooks and one operation in either direction, performs it once to "
                              "count the hook calls and then again with each (or a drawn choice) of them failing in a drawn way, at once or after its work; "
                              "the exception, the answer, source and destination are checked, and the operation is tried again; non-trivial: a hook is called",
                              run, true, 256 };
