// The ambient locale as a simulated environment: what other parts of the program may set, between or during operations.
#pragma once
#include "core.hpp"

#include <locale>
#include <streambuf>
#include <string>

namespace p13
{
using namespace sim;

size_t count();                          // number of ambient settings, 0 is the classic one
void set(size_t i);                      // sets it now
const char* name(size_t i);
std::locale stream_locale(uint64_t pick); // a locale to imbue a stream with

// During the lifetime the program runs in a drawn ambient setting that may change at every allocation.
struct Ambient
{
    Ambient();
    ~Ambient();
    Ambient(const Ambient&) = delete;
    void flip(); // change it now
};
extern Ambient* current;

// A sink that changes the ambient setting while it is written to.
struct Sink : std::streambuf
{
    std::string text;
    bool flips = false;

protected:
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int_type overflow(int_type c) override;
};
// A source that changes it while it is read from.
struct Source : std::streambuf
{
    std::string data;
    size_t chunk = 16, at = 0;
    bool flips = false;

protected:
    int_type underflow() override;
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override;
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

private:
    char buf_[64];
};
} // namespace p13
