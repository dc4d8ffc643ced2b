// The restart world's types (p12_typed.cpp) by number, under another name.
#include "universe.hpp"
void restart_type(size_t i)
{
    universe::dispatch(i);
}
