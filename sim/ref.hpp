// Independent reference: a plain tree, a biased generator, a reference parser of the two text dialects and a
// "foreign" writer (another program's JSON output). Nothing in here includes or calls the code under test.
#pragma once
#include "core.hpp"

#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
enum class K : uint8_t
{
    Null,
    Bool,
    Num,
    Str,
    Arr,
    Obj
};

struct RV
{
    K k = K::Null;
    std::string s; // boolean / number text, string bytes
    std::vector<RV> a;
    std::map<std::string, RV> o;

    RV() = default;
    static RV null() { return {}; }
    static RV boolean(bool b) { return text(K::Bool, b ? "true" : "false"); }
    static RV num(std::string t) { return text(K::Num, std::move(t)); }
    static RV str(std::string t) { return text(K::Str, std::move(t)); }
    static RV arr() { return text(K::Arr, {}); }
    static RV obj() { return text(K::Obj, {}); }
    static RV text(K k, std::string t)
    {
        RV v;
        v.k = k;
        v.s = std::move(t);
        return v;
    }
    bool container() const { return k == K::Arr || k == K::Obj; }
    // "empty" in the sense in which writes convert a value into a container
    bool empty() const
    {
        return k == K::Null || (k == K::Str && s.empty()) || (k == K::Arr && a.empty()) || (k == K::Obj && o.empty());
    }
    size_t size() const { return k == K::Arr ? a.size() : k == K::Obj ? o.size() : 0; }
    bool operator==(const RV& r) const { return k == r.k && s == r.s && a == r.a && o == r.o; }
    bool operator!=(const RV& r) const { return !(*this == r); }
    size_t nodes() const;
    size_t depth() const;
};

std::string show(const RV& v, size_t max = 300); // readable, for traces
uint64_t hash(const RV& v);

// ---------------------------------------------------------------- generator
struct Gen
{
    size_t max_nodes = 24;
    size_t max_depth = 5;
    bool nul = true;       // NUL bytes in strings
    bool raw_bytes = true; // bytes that are not valid UTF-8
    bool long_strings = true;
    bool huge = false; // now and then a very long string, a wide or a deep container
};
extern bool unusual_sizes; // now and then many children or a very long string (off where every access is a step)
RV gen(const Gen& g = {}, bool container_root = true);
RV deepen(RV v, size_t levels); // the same inside so many arrays and objects
std::string gen_string(const Gen& g = {});
std::string gen_key(const Gen& g = {});
std::string gen_number();      // any JSON number text
std::string gen_int_number();  // integer-looking, biased to type limits
size_t gen_len(size_t max);    // biased to buffer / vector-step boundaries

// ---------------------------------------------------------------- dialects
enum class Dialect
{
    Strict,
    Jsonc
};
std::optional<RV> parse(std::string_view text, Dialect d);
bool is_number_text(std::string_view t);

// Another program's serialisation of the same document: random layout and escape style.
std::string write(const RV& v, Dialect d);
std::string write_string(const std::string& bytes);
// Canonical compact text (fixed style).
std::string compact(const RV& v);
} // namespace ref
