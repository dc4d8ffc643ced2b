// C05: the library in one build configuration. Compiled several times with -DVARIANT=<name>, -Djson=..., -Dbridge=...
#include "p05.hpp"

#include "bridge.hpp"

#include <array>
#include <deque>
#include <iterator>
#include <sstream>

#define STR1(x) #x
#define STR(x) STR1(x)

namespace
{
using Result = std::optional<json::value>;

template <typename T>
Result with(const T& c, bool jsonc)
{
    return jsonc ? json::parsec(c) : json::parse(c);
}
template <typename Traits>
Result via(std::string_view v, bool jsonc)
{
    return jsonc ? json::parser<true, std::string_view, Traits>::parse(v) : json::parser<false, std::string_view, Traits>::parse(v);
}

const char* const names[] = { "view",         "string",       "vector<char>", "vector<uchar>", "vector<schar>", "deque<char>",
                              "list-built-string", "C string",     "literal",      "stream",        "view, bytewise",   "view, 32-bit",
                              "view, 64-bit",  "view, default vector path", "view, SSE path", "view, AVX2 path", "deque, 64-bit default",
                              "pages of the application", "string in a pool", "bytes in place (unsigned)", "bytes in place (signed)", "u8 view" };

// A container of the application: fixed pages, elements by value, an iterator that knows where it may go.
struct Paged
{
    static constexpr size_t PAGE = 13;
    std::vector<std::vector<char>> pages;
    size_t n = 0;
    Paged(const char* p, size_t len)
        : n(len)
    {
        for (size_t i = 0; i < len; i += PAGE) {
            pages.emplace_back(p + i, p + std::min(len, i + PAGE));
        }
    }
    struct const_iterator
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = const char*;
        using reference = const char&;
        const Paged* of = nullptr;
        difference_type at = 0;
        const char& operator*() const
        {
            if (!of || at < 0 || static_cast<size_t>(at) >= of->n) {
                sim::violate("outside", "an iterator of the application's container was read " + std::string(at < 0 ? "before the begin" : "at or after the end"));
            }
            return of->pages[static_cast<size_t>(at) / PAGE][static_cast<size_t>(at) % PAGE];
        }
        const_iterator& go(difference_type d)
        {
            at += d;
            if (at < 0 || static_cast<size_t>(at) > of->n) {
                sim::violate("outside", "an iterator of the application's container left its range");
            }
            return *this;
        }
        const_iterator& operator++() { return go(1); }
        const_iterator& operator--() { return go(-1); }
        const_iterator operator++(int)
        {
            auto r = *this;
            go(1);
            return r;
        }
        const_iterator operator--(int)
        {
            auto r = *this;
            go(-1);
            return r;
        }
        const_iterator& operator+=(difference_type d) { return go(d); }
        const_iterator& operator-=(difference_type d) { return go(-d); }
        friend const_iterator operator+(const_iterator a, difference_type d) { return a.go(d); }
        friend const_iterator operator+(difference_type d, const_iterator a) { return a.go(d); }
        friend const_iterator operator-(const_iterator a, difference_type d) { return a.go(-d); }
        friend difference_type operator-(const_iterator a, const_iterator b) { return a.at - b.at; }
        const char& operator[](difference_type d) const { return *(*this + d); }
        const char* operator->() const { return &**this; }
        friend bool operator==(const_iterator a, const_iterator b) { return a.at == b.at; }
        friend bool operator!=(const_iterator a, const_iterator b) { return a.at != b.at; }
        friend bool operator<(const_iterator a, const_iterator b) { return a.at < b.at; }
        friend bool operator>(const_iterator a, const_iterator b) { return a.at > b.at; }
        friend bool operator<=(const_iterator a, const_iterator b) { return a.at <= b.at; }
        friend bool operator>=(const_iterator a, const_iterator b) { return a.at >= b.at; }
    };
    using value_type = char;
    using iterator = const_iterator;
    const_iterator begin() const { return { this, 0 }; }
    const_iterator end() const { return { this, static_cast<std::ptrdiff_t>(n) }; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
};
// An allocator of the application.
template <typename B>
struct Pool
{
    using value_type = B;
    Pool() = default;
    template <typename C>
    Pool(const Pool<C>&)
    {
    }
    B* allocate(size_t n) { return static_cast<B*>(malloc(n * sizeof(B))); }
    void deallocate(B* p, size_t) { free(p); }
    bool operator==(const Pool&) const { return true; }
    bool operator!=(const Pool&) const { return false; }
};
// Bytes where they are.
template <typename B>
struct Bytes
{
    using value_type = B;
    using const_iterator = const B*;
    using iterator = const B*;
    const B* p;
    size_t n;
    const B* begin() const { return p; }
    const B* end() const { return p + n; }
    const B* cbegin() const { return p; }
    const B* cend() const { return p + n; }
    const B* data() const { return p; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
};

Result load(const char* p, size_t n, bool jsonc, int way)
{
    namespace pb = json::_packed_bytes;
    std::string_view v(p, n);
    switch (way) {
    case 1:
        return with(std::string(v), jsonc);
    case 2:
        return with(std::vector<char>(p, p + n), jsonc);
    case 3:
        return with(std::vector<unsigned char>(p, p + n), jsonc);
    case 4:
        return with(std::vector<signed char>(p, p + n), jsonc);
    case 5:
        return with(std::deque<char>(p, p + n), jsonc);
    case 6: {
        std::string s;
        s.reserve(n * 2 + 40); // bytes beyond the end belong to the string's buffer
        s.append(n + 33, '"');
        s.assign(v);
        return with(s, jsonc);
    }
    case 7:
        if (v.find('\0') == v.npos) {
            std::string s(v);
            return with(s.c_str(), jsonc);
        }
        return with(v, jsonc);
    case 8: {
        if (jsonc) {
            return with(v, jsonc);
        }
        using namespace json::literals;
        json::value r = json::literals::operator""_jvalue(p, n);
        json::value r2 = json::literals::operator""_json(p, n);
        json::array a = json::literals::operator""_jarray(p, n);
        json::object o = json::literals::operator""_jobject(p, n);
        if (r != r2 || (r.is_array() ? json::value(a) != r : !a.empty()) || (r.is_object() ? json::value(o) != r : !o.empty())) {
            sim::violate("literal", "the literal operators disagree with each other");
        }
        if (r.is_null()) {
            return std::nullopt;
        }
        return r;
    }
    case 9: {
        std::istringstream is { std::string(v) };
        return json::parse(static_cast<std::istream&>(is), false, jsonc);
    }
    case 10:
        return via<pb::packed_bytes_trait_none>(v, jsonc);
    case 11:
        return via<pb::packed_bytes_trait_uint32>(v, jsonc);
    case 12:
        return via<pb::packed_bytes_trait_uint64>(v, jsonc);
    case 13:
        return via<pb::packed_bytes_trait_max>(v, jsonc);
#ifdef HAS_SSE
    case 14:
        return via<pb::packed_bytes_trait_sse>(v, jsonc);
#endif
#ifdef HAS_AVX2
    case 15:
        return via<pb::packed_bytes_trait_avx2>(v, jsonc);
#endif
    case 16:
        return with(std::deque<unsigned char>(p, p + n), jsonc);
    case 17:
        return with(Paged(p, n), jsonc);
    case 18: {
        using pooled = std::basic_string<char, std::char_traits<char>, Pool<char>>;
        return with(pooled(v.data(), v.size(), Pool<char>()), jsonc);
    }
    case 19:
        return with(Bytes<unsigned char> { reinterpret_cast<const unsigned char*>(p), n }, jsonc);
    case 20:
        return with(Bytes<signed char> { reinterpret_cast<const signed char*>(p), n }, jsonc);
#if __cplusplus >= 202002L
    case 21:
        return with(std::u8string_view(reinterpret_cast<const char8_t*>(p), n), jsonc);
#endif
    default:
        return with(v, jsonc);
    }
}

std::optional<ref::RV> run(const char* p, size_t n, bool jsonc, int way, void (*gone)())
{
    Result r = load(p, n, jsonc, way);
    gone();
    if (!r) {
        return std::nullopt;
    }
    return bridge::read(*r);
}
bool usable()
{
#ifdef HAS_AVX2
    return __builtin_cpu_supports("avx2");
#elif defined(__SSE4_1__)
    return __builtin_cpu_supports("sse4.1");
#else
    return true;
#endif
}
const char* way_name(int w)
{
    return names[w];
}
} // namespace

const p05::Variant p05::VARIANT { STR(VARIANT), usable, 22, way_name, run };
