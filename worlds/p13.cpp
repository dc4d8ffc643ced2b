// C13: ambient locale changes never change the data.
#include "p13.hpp"
#include "universe.hpp"

#include <clocale>
#include <cstdlib>
#include <unistd.h>
#include <vector>

namespace
{
using namespace sim;

struct Punct : std::numpunct<char>
{
    char point, sep;
    std::string group;
    Punct(char p, char s, std::string g) : point(p), sep(s), group(std::move(g)) {}
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return group; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};
struct Ctype : std::ctype<char>
{
    Ctype() : std::ctype<char>(table()) {}
    static const mask* table() // digits are spaces, letters are digits
    {
        static mask t[table_size];
        for (size_t i = 0; i < table_size; ++i) {
            t[i] = i >= '0' && i <= '9' ? space : i >= 'a' && i <= 'z' ? digit : 0;
        }
        return t;
    }
    char do_tolower(char c) const override { return c == 'I' ? 'x' : std::ctype<char>::do_tolower(c); }
};
struct Setting
{
    std::string name;
    std::string c;   // setlocale(LC_ALL, c)
    std::string num; // then setlocale(LC_NUMERIC, num)
    bool thread;     // uselocale(c) instead
    std::locale cpp; // std::locale::global
};
struct Env
{
    std::vector<Setting> settings;
    std::vector<locale_t> threads;
    std::vector<std::locale> imbue;
    locale_t classic;
    Env()
    {
        char exe[4096];
        ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
        std::string dir(exe, n > 0 ? static_cast<size_t>(n) : 0);
        dir = dir.substr(0, dir.rfind('/')) + "/locale";
        setenv("LOCPATH", dir.c_str(), 1);
        classic = newlocale(LC_ALL_MASK, "C", nullptr);
        const std::locale c = std::locale::classic();
        const std::locale comma(c, new Punct(',', '.', "\3"));
        const std::locale odd(c, new Punct('x', '1', "\1"));
        const std::locale dot(c, new Punct('.', ' ', "\2\3"));
        const std::locale kinds(c, new Ctype());
        const std::locale both(comma, new Ctype());
        imbue = { c, comma, odd, dot, kinds, both };
        auto add = [&](const char* name, const char* cl, const char* num, bool thread, const std::locale& l) {
            settings.push_back({ name, cl, num, thread, l });
            threads.push_back(thread ? newlocale(LC_ALL_MASK, cl, nullptr) : nullptr);
        };
        add("classic", "C", "", false, c);
        for (const char* l : { "de_DE.UTF-8", "fr_FR.UTF-8", "ps_AF.UTF-8", "tr_TR.ISO-8859-9", "hi_IN.UTF-8" }) {
            const bool there = setlocale(LC_ALL, l) != nullptr;
            setlocale(LC_ALL, "C");
            if (!there) {
                fprintf(stderr, "C13: locale %s is not available in %s\n", l, dir.c_str());
                abort();
            }
            add(l, l, "", false, c);
            std::locale named(l);
            add(l, l, "", false, named);
            add(l, l, "", true, c);
            imbue.push_back(named);
        }
        add("C with de_DE numbers", "C", "de_DE.UTF-8", false, c);
        add("C++ comma", "C", "", false, comma);
        add("C++ odd", "C", "", false, odd);
        add("C++ dot", "C", "", false, dot);
        add("C++ kinds", "C", "", false, kinds);
        add("C de_DE, C++ both", "de_DE.UTF-8", "", false, both);
        add("C tr_TR, C++ odd", "tr_TR.ISO-8859-9", "", false, odd);
        std::locale::global(c);
        setlocale(LC_ALL, "C");
    }
};
Env& env()
{
    static Env* e = new Env;
    return *e;
}
size_t now = 0;
bool flipping = false;
uint64_t next_flip = 0;
} // namespace

namespace p13
{
Ambient* current = nullptr;
size_t count()
{
    return env().settings.size();
}
const char* name(size_t i)
{
    return env().settings[i].name.c_str();
}
void set(size_t i)
{
    const Setting& s = env().settings[i];
    uselocale(LC_GLOBAL_LOCALE);
    std::locale::global(s.cpp);
    setlocale(LC_ALL, s.thread ? "C" : s.c.c_str());
    if (!s.num.empty()) {
        setlocale(LC_NUMERIC, s.num.c_str());
    }
    if (s.thread) {
        uselocale(env().threads[i]);
    }
    now = i;
}
std::locale stream_locale(uint64_t pick)
{
    return env().imbue[pick % env().imbue.size()];
}
Ambient::Ambient()
{
    const size_t first = draw(count());
    const uint64_t mode = draw(3);
    note("ambient %s%s", name(first), mode == 2 ? ", changing" : "");
    fault("ambient locale set");
    set(first);
    current = this;
    flipping = mode == 2;
    next_flip = flipping ? 1 + draw(6) : 0;
    mem::plan.on_alloc = [](uint64_t i) {
        if (flipping && i == next_flip) {
            next_flip = i + 1 + draw(6);
            current->flip();
        }
    };
    mem::arm(0, false);
}
void Ambient::flip()
{
    const bool was = mem::plan.on;
    mem::plan.on = false;
    const size_t to = draw(count());
    note("ambient becomes %s", name(to));
    fault("ambient locale changed during an operation");
    set(to);
    mem::plan.on = was;
}
Ambient::~Ambient()
{
    mem::disarm();
    mem::plan.on_alloc = nullptr;
    current = nullptr;
    set(0);
}
std::streamsize Sink::xsputn(const char* s, std::streamsize n)
{
    if (flips && current && draw(2)) {
        current->flip();
    }
    text.append(s, static_cast<size_t>(n));
    return n;
}
Sink::int_type Sink::overflow(int_type c)
{
    if (!traits_type::eq_int_type(c, traits_type::eof())) {
        text.push_back(traits_type::to_char_type(c));
    }
    return traits_type::not_eof(c);
}
Source::int_type Source::underflow()
{
    if (gptr() < egptr()) {
        return traits_type::to_int_type(*gptr());
    }
    if (flips && current && draw(2)) {
        current->flip();
    }
    const size_t n = std::min({ chunk, sizeof buf_, data.size() - std::min(at, data.size()) });
    if (!n) {
        return traits_type::eof();
    }
    std::copy_n(data.data() + at, n, buf_);
    at += n;
    setg(buf_, buf_, buf_ + n);
    return traits_type::to_int_type(*gptr());
}
Source::pos_type Source::seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode)
{
    const off_type here = static_cast<off_type>(at) - (egptr() - gptr());
    const off_type to = o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? here : static_cast<off_type>(data.size()));
    if (to < 0 || to > static_cast<off_type>(data.size())) {
        return pos_type(off_type(-1));
    }
    if (!(o == 0 && d == std::ios_base::cur)) {
        at = static_cast<size_t>(to);
        setg(buf_, buf_, buf_);
    }
    return pos_type(to);
}
} // namespace p13

namespace
{
void run()
{
    env();
    const size_t i = sim::draw(2) ? sim::draw(universe::All::size) : sim::pick(0, 4, 5, 7, 8, 9, 12, 22, 37, 47);
    sim::note("type %zu", i);
    universe::dispatch(i);
}
} // namespace

const sim::World sim::world { "C13",
                              "each run draws a supported type, values, and conversions, prints, stream insertions, loads and typed reads of them; each is done "
                              "in a drawn ambient C / C++ / thread locale (decimal comma, multi-byte decimal point, digit grouping, strange character classes) "
                              "that may change at any allocation or stream transfer; every text and value is compared with the classic one; non-trivial: at "
                              "least one operation under a non-classic setting",
                              run, true, 256 };
