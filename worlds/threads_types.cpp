// C09, C10: the list of types, for units that do not need the types themselves.
#include "universe.hpp"

namespace universe
{
void dispatch_any(size_t i);
extern const size_t types;
const size_t types = All::size;
void dispatch_any(size_t i)
{
    dispatch(i);
}
} // namespace universe
