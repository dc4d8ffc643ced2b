#!/usr/bin/env python3
"""generate.py enums|structs SEED OUT: the programs of the C15 and C17 worlds.

Writes a header that takes the place of the application types in universe.hpp: enums or structs drawn from SEED, and what
the model has to know about them (names of enumerators, keys and marks of fields)."""
import random, sys

KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const constexpr
const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int
long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast return short signed
sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using
virtual void volatile wchar_t while xor xor_eq linux unix""".split())
# Names that also occur inside the library or in what it gets from the compiler.
ODD = ["result", "in", "error_key", "key", "value", "json", "var", "rest", "state", "object", "array", "name", "names", "E", "V", "min", "max",
       "val", "str", "raw", "number", "range", "_in", "size", "type", "out", "self", "i", "x", "is_optional", "override_key", "dst", "std", "string",
       "object_", "exists", "as", "find", "get", "dump", "empty", "null", "Null", "NULL_", "type_name", "string_view", "basic_string_view"]


def cstr(s):
    """A C++ string literal of the UTF-8 bytes of s."""
    out = ""
    for b in s.encode():
        c = chr(b)
        out += c if 32 <= b < 127 and c not in '"\\?' else "\\%03o" % b
    return '"' + out + '"'


def identifier(r, used):
    while True:
        k = r.randrange(9)
        if k == 0:
            s = r.choice(ODD)
        elif k == 1:
            s = r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
        elif k == 2:
            s = "".join(r.choice("abcxyzABCXYZ019_") for _ in range(r.choice([2, 5, 12, 30, 70])))
        elif k == 3 and used:
            s = r.choice(sorted(used)) + r.choice(["", "_", "0", "a", "s"])
        elif k == 4 and used:
            s = r.choice(sorted(used))[:-1]
        elif k == 5 and used:  # another one in other letters
            s = "".join(c.swapcase() if r.randrange(2) else c for c in r.choice(sorted(used)))
        elif k == 6:
            s = "_" + r.choice("abcdefghijklmnopqrstuvwxyz") + str(r.randrange(100))
        else:
            s = r.choice(["Red", "mode", "LEVEL", "itemCount", "first_name", "Http2", "on", "off", "kMax", "user_id"]) + r.choice(["", str(r.randrange(50))])
        if not s or s in used or s in KEYWORDS or s[0].isdigit() or "__" in s or (s[0] == "_" and s[1:2].isupper()) or s in ("fields", "std", "json", "T", "N", "NULL", "EOF", "CHUNK", "assert"):
            continue
        return s


TYPES = {"int": (32, True), "unsigned": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
         "unsigned long long": (64, False), "bool": (1, False)}


def as_int(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v >> 31 else v


PROGRAMS = []  # (type, whether it can be copied, its definition, whether others may use it)


def literal(v, u):
    if u == "bool":
        return ["false", "true"][v]
    bits, signed = TYPES[u]
    if not signed:
        return "%du%s" % (v, "ll" if bits == 64 else "")
    if v == -(1 << (bits - 1)):
        return "(%d%s - 1)" % (v + 1, "ll" if bits == 64 else "")
    return "%d%s" % (v, "ll" if bits == 64 else "")


class Enum:
    pass


def make_enum(r, no, plan=None):
    e = Enum()
    e.u = r.choice(["int", "int", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "bool"])
    if plan == "limits":
        e.u = r.choice(["int", "long long", "long"])
    bits, signed = TYPES[e.u]
    lo_u, hi_u = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    lo, hi = -128, 128
    e.range = None
    if e.u != "bool" and (plan in ("range", "limits") or plan is None and r.randrange(2)):
        k = r.randrange(6)
        if plan == "limits":
            lo, hi = r.choice([(-(1 << 31), -(1 << 31) + r.randrange(3, 60)), ((1 << 31) - 1 - r.randrange(3, 60), (1 << 31) - 1)])
        elif k == 0:  # narrower than usual
            lo = r.randrange(0, 40)
            hi = lo + r.randrange(0, 40)
        elif k == 1:
            lo, hi = -r.randrange(1, 600), r.randrange(1, 600)
        elif k == 2:  # elsewhere
            lo = r.randrange(129, 70000)
            hi = lo + r.randrange(0, 300)
        elif k == 3:
            hi = -r.randrange(129, 70000)
            lo = hi - r.randrange(0, 300)
        elif k == 4:
            lo = 0
            hi = r.randrange(1, 700)
        else:
            lo = hi = r.randrange(-300, 300)
        if not signed and lo < 0:
            lo, hi = 0, max(hi, 0)
        e.range = (lo, hi)
    e.lo, e.hi = lo, hi
    count = {0: 1, 1: 2, 2: r.randint(20, 60)}.get(r.randrange(8), r.randint(2, 12))
    values = set()
    if e.range:
        values |= {lo, hi}
    for _ in range(count):
        k = r.randrange(8)
        if k < 4:
            v = r.randint(lo, hi)
        elif k == 4:
            v = r.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, -128, -129, 127, 128, 129, 255, 256, 0, 1, -1])
        elif k == 5:
            v = r.choice([lo_u, hi_u, lo_u + 1, hi_u - 1, (1 << 32) + lo, (1 << 32) + hi, (1 << 31), (1 << 31) - 1, (1 << 32) - 1])
        elif k == 6 and values:
            v = max(values) + 1
        else:
            v = r.randint(lo_u, hi_u)
        if not signed and v < 0 and r.randrange(2):
            v += 1 << bits  # the large values that a negative range stands for
        if lo_u <= v <= hi_u:
            values.add(v)
    if not values:
        values = {0}
    values = sorted(values)
    r.shuffle(values)
    used = set()
    e.all = []
    for v in values:
        n = identifier(r, used)
        used.add(n)
        e.all.append((n, v))

    def reflected(v):
        i = as_int(v)
        back = i if signed else i % (1 << bits)
        if e.u == "bool":
            back = 1 if i else 0
        return lo <= i <= hi and back == v

    e.inside = [(n, v) for n, v in e.all if reflected(v)]
    e.outside = [(n, v) for n, v in e.all if not reflected(v)]
    e.scoped = r.randrange(3) > 0
    e.place = r.choice(["plain", "plain", "struct", "template", "anonymous", "deep"])
    e.no = no
    e.tname = r.choice(["Enum%d" % no, "Enum%d" % no, "e_%d" % no, "V%d" % no, "V", "E", "name"])
    head = "enum %s%s%s\n{\n" % ("class " if e.scoped else "", e.tname, "" if e.u == "int" and e.scoped and r.randrange(2) else " : " + e.u)
    body = []
    for n, v in e.all:
        body.append("    %s = %s" % (n, literal(v, e.u)))
    if e.range:
        by = {v: n for n, v in e.all}
        a = by[lo] if r.randrange(2) else literal(lo, e.u)
        b = by[hi] if r.randrange(2) else literal(hi, e.u)
        body.append("    MEOJSON_ENUM_RANGE(%s, %s)" % (a, b))
    text = head + ",\n".join(body) + (",\n" if r.randrange(2) and not e.range else "\n") + "};\n"
    ns = "s%d" % no
    if e.tname in used or (not e.scoped and e.tname in used):
        e.tname = "Enum%d" % no
        text = text.replace(text.split("\n")[0], text.split("\n")[0].replace(head.split("\n")[0], "enum %s%s : %s" % ("class " if e.scoped else "", e.tname, e.u)))
    if e.place == "struct":
        e.text = "struct %s\n{\n%s};\n" % (ns, text)
        e.full = "%s::%s" % (ns, e.tname)
    elif e.place == "template":
        e.text = "template <typename T, int N>\nstruct %s\n{\n%s};\n" % (ns, text)
        e.full = "%s<std::map<std::string, int>, 7>::%s" % (ns, e.tname)
    elif e.place == "anonymous":
        e.text = "namespace %s\n{\nnamespace\n{\n%s}\n}\n" % (ns, text)
        e.full = "%s::%s" % (ns, e.tname)
    elif e.place == "deep":
        e.text = "namespace %s::in::V\n{\nstruct E\n{\nstruct V\n{\n%s};\n};\n}\n" % (ns, text)
        e.full = "%s::in::V::E::V::%s" % (ns, e.tname)
        if e.tname == "V" or (not e.scoped and "V" in used):  # (a constructor's name)
            e.text = "namespace %s\n{\n%s}\n" % (ns, text)
            e.full = "%s::%s" % (ns, e.tname)
    else:
        e.text = "namespace %s\n{\n%s}\n" % (ns, text)
        e.full = "%s::%s" % (ns, e.tname)
    e.full = "app::" + e.full
    return e


def enum_names(e):
    def rows(l):
        return ", ".join('{ static_cast<%s>(%s), "%s" }' % (e.full, literal(v, e.u), n) for n, v in l)

    t = "template <>\nstruct EnumNames<%s>\n{\n" % e.full
    t += "    static constexpr std::pair<%s, const char*> all[] = { %s };\n" % (e.full, rows(e.inside))
    t += "    static constexpr std::pair<%s, const char*> outside[] = { %s };\n" % (e.full, rows(e.outside or e.inside[:1]))
    t += "    static constexpr bool any_outside = %s;\n};\n" % ("true" if e.outside else "false")
    return t


def enums(r):
    out = []
    made = []
    plans = [None, "range", "limits", None, "range"]
    while len(made) < 30:
        e = make_enum(r, len(made), plans[len(made)] if len(made) < len(plans) else None)
        if e.inside and (e.u != "bool" or sum(m.u == "bool" for m in made) < 3):
            made.append(e)
            PROGRAMS.append((e.full, True, e.text, False))
    out.append("namespace app\n{\n" + "".join(e.text for e in made) + "}\n")
    out.append("namespace typed\n{\n" + "".join(enum_names(e) for e in made) + "}\n")
    out.append("#ifndef NAMES_ONLY\n")
    # structs with them
    structs = []
    for i in range(6):
        fs = r.sample(made, r.randint(2, 6))
        t = "struct Holder%d\n{\n" % i
        entries, rows = [], []
        for j, e in enumerate(fs):
            ty = "%s" % e.full
            k = r.randrange(5)
            init = " = static_cast<%s>(%s)" % (e.full, literal(r.choice(e.inside)[1], e.u))
            if k == 0:
                ty, init = "std::optional<%s>" % ty, ""
            elif k == 1:
                ty, init = "std::vector<%s>" % ty, ""
            elif k == 2:
                ty, init = "std::map<std::string, %s>" % ty, ""
            opt = r.randrange(3) == 0
            t += "    %s f%d%s;\n" % (ty, j, init)
            entries.append(("MEO_OPT " if opt else "") + "f%d" % j)
            rows.append('field("f%d", &Holder%d::f%d%s)' % (j, i, j, ", true" if opt else ""))
        t += "    MEO_JSONIZATION(%s);\n" % ", ".join(entries)
        t += "    static auto fields()\n    {\n        using typed::field;\n        return std::make_tuple(%s);\n    }\n};\n" % ", ".join(rows)
        structs.append(t)
    out.append("namespace app\n{\n" + "".join(structs) + "}\n")
    types = ["Type<%s>" % e.full for e in made]
    for e in r.sample(made, 14):
        f = e.full
        k = r.randrange(9)
        types.append({0: "Type<std::vector<%s>>", 1: "Type<std::optional<%s>>", 2: "Type<std::map<std::string, %s>>", 3: "Type<std::set<%s>>",
                      4: "Type<std::array<%s, 2>>", 5: "Type<std::tuple<%s, int, %s>>", 6: "Type<std::variant<std::monostate, %s>>",
                      7: "Type<std::shared_ptr<%s>>", 8: "Type<std::variant<%s, std::string, std::vector<int>>, false>"}[k].replace("%s", f))
    types += ["Type<app::Holder%d>" % i for i in range(6)]
    types.append("Type<std::vector<app::Holder0>>")
    out.append("#endif\n")
    e_list = "namespace universe\n{\nusing Enums = List<%s>;\n#ifndef NAMES_ONLY\nusing All = List<\n    %s>;\n#endif\n}\n" % (
        ", ".join("Type<%s>" % e.full for e in made), ",\n    ".join(types))
    return "".join(out), e_list


# ---------------------------------------------------------------- structs
SIMPLE = [("int", lambda r: str(r.randrange(-9, 10))), ("std::string", lambda r: '"s%d"' % r.randrange(9)), ("bool", lambda r: "true"),
          ("double", lambda r: "%d.5" % r.randrange(9)), ("std::optional<int>", lambda r: r.choice(["{}", "{ 4 }"])),
          ("std::vector<int>", lambda r: r.choice(["{}", "{ 1, 2 }"])), ("unsigned long long", lambda r: "7"), ("Color", lambda r: "Color::Green"),
          ("std::map<std::string, int>", lambda r: '{ { "k", 1 } }')]
RICH = [("json::value", lambda r: "5"), ("json::array", lambda r: "{}"), ("json::object", lambda r: "{}"), ("std::unique_ptr<int>", lambda r: "{}"),
        ("std::pair<int, std::string>", lambda r: "{}"), ("std::variant<std::monostate, int, std::string>", lambda r: "{}"),
        ("std::set<std::string>", lambda r: "{}"), ("std::array<bool, 3>", lambda r: "{}"), ("std::shared_ptr<std::string>", lambda r: "{}"),
        ("std::list<Color>", lambda r: "{}"), ("long double", lambda r: "1"), ("float", lambda r: "2"), ("std::unordered_map<std::string, bool>", lambda r: "{}")]
KEYS = ["", " ", "the key", "a\"b", "back\\slash", "\u00fc\u4e2d", "\U0001F600", "tab\tnew\n", "0", "-1", "true", "null", "/", "a.b", "{}", "[0]", "\x01", "\x7f", ",", "x, y",
        "json", "result", "$ref", "%s", "??/", "A", "a"]


def structs(r):
    made = []  # (name, copyable)
    text = ["namespace app\n{\nenum class Color\n{\n    Red = 1,\n    Green = 2,\n    Blue = 4\n};\n"]
    # The first ones are small and may be parts of the others. Of the others, every unit of the build sees every eighth.
    common = 8
    counts = [r.randint(1, 6) for _ in range(common)]
    others = list(range(1, 65)) + [2, 3, 5, 63, 64, 64]
    r.shuffle(others)
    counts += others
    for no, entries in enumerate(counts):
        used, keys = set(), set()
        fields = []
        left = entries
        rich = r.randrange(3) == 0 and entries < 30
        marks = r.choice([0, 0, 1, 2])
        copyable = True
        while left:
            opt = left > 1 and marks and r.randrange(3) < marks
            key = None
            if left > 1 + opt and marks and r.randrange(3) < marks:
                key = r.choice(KEYS) if r.randrange(3) else "key %d" % r.randrange(100)
                if used and r.randrange(4) == 0:
                    key = r.choice(sorted(used)).upper()
                if key in keys:
                    key = None
            name = identifier(r, used)
            while name in keys or name in ("Color", "app", "typed", "field"):
                name = identifier(r, used)
            if key is None and name in keys:
                continue
            used.add(name)
            keys.add(key if key is not None else name)
            if rich and r.randrange(3) == 0:
                ty, init = r.choice(RICH)
                if "unique_ptr" in ty:
                    copyable = False
            elif no >= common and r.randrange(12) == 0:
                other, c = r.choice(made[:common])
                form = r.randrange(4) if c else 0  # (a container of what cannot be copied says it can be)
                ty = ["app::%s", "std::vector<app::%s>", "std::optional<app::%s>", "std::map<std::string, app::%s>"][form] % other
                init = lambda r: "{}"
                copyable = copyable and c
            else:
                ty, init = r.choice(SIMPLE)
            fields.append((name, key, opt, ty, init(r)))
            left -= 1 + opt + (key is not None)
        # a field's own name may be another one's key
        plain = [f for f in fields if f[1] is None]
        names = [f[1] if f[1] is not None else f[0] for f in fields]
        assert len(set(names)) == len(names)
        S = "S%d_%d" % (entries, no)
        place = r.choice(["plain", "plain", "derived", "template", "private", "nested"])
        if place == "derived" and len(fields) < 2:
            place = "plain"
        order = fields[:]
        r.shuffle(order)  # order of declaration, other than that of the list
        head = ""

        def member(f):
            return "    %s %s%s;\n" % (f[3].replace("Color", "app::Color") if f[3] in ("Color", "std::list<Color>") else f[3], f[0],
                                       f[4].replace("Color::", "app::Color::").join([" = ", ""]) if f[4] != "{}" and not f[4].startswith("{") else " " + f[4])
        inherited = set()
        if place == "derived":
            base = order[: len(order) // 2]
            order = order[len(order) // 2:]
            inherited = {f[0] for f in base}
            head = "struct %s_base\n{\n%s};\n" % (S, "".join(member(f) for f in base))
            decl = "struct %s : %s_base\n{\n" % (S, S)
        elif place == "template":
            decl = "template <typename T>\nstruct %s_of\n{\n" % S
        elif place == "private":
            decl = "class %s\n{\n" % S
        elif place == "nested":
            decl = "struct %s_outer\n{\nstruct %s\n{\n" % (S, S)
        else:
            decl = "struct %s\n{\n" % S
        self = "%s_of<T>" % S if place == "template" else S

        def entry(f):
            m = []
            if f[2]:
                m.append("MEO_OPT")
            if f[1] is not None:
                m.append("MEO_KEY(%s)" % cstr(f[1]))
            r.shuffle(m)
            return " ".join(m + [f[0]])
        listed = ", ".join(entry(f) for f in fields)
        if r.randrange(3):
            macros = "    MEO_JSONIZATION(%s)%s\n" % (listed, r.choice(["", ";"]))
        else:
            parts = ["    MEO_TOJSON(%s)\n", "    MEO_CHECKJSON(%s)\n", "    MEO_FROMJSON(%s)\n"]
            r.shuffle(parts)
            macros = "".join(p % listed for p in parts)
        rows = ",\n                               ".join(
            "typed::field<%s, decltype(%s::%s)>(%s, &%s::%s%s)" % (self, self, f[0], cstr(f[1] if f[1] is not None else f[0]), self, f[0], ", true" if f[2] else "")
            for f in fields)
        body = "".join(member(f) for f in order)
        if place == "private":
            body += "public:\n"
        body += macros + "@"
        body += "    static auto fields()\n    {\n        return std::make_tuple(%s);\n    }\n@};\n" % rows
        t = head + decl + body
        if place == "template":
            t += "using %s = %s_of<int>;\n" % (S, S)
        if place == "nested":
            t += "};\nusing %s = %s_outer::%s;\n" % (S, S, S)
        PROGRAMS.append(("app::" + S, copyable, t.split("@")[0] + t.split("@")[2], no < common))
        t = t.replace("@", "")
        text.append(t if no < common else "#if defined(CHUNK) && CHUNK == %d\n%s#endif\n" % (no % 8, t))
        made.append((S, copyable))
    text.append("}\n")
    text.append("namespace typed\n{\ntemplate <>\nstruct EnumNames<app::Color>\n{\n    static constexpr std::pair<app::Color, const char*> all[] = { { app::Color::Red, \"Red\" }, "
                "{ app::Color::Green, \"Green\" }, { app::Color::Blue, \"Blue\" } };\n};\n}\n")
    types = ["Type<app::%s>" % s if i < common else "DRAWN_%d(Type<app::%s>)" % (i % 8, s) for i, (s, _) in enumerate(made)]
    for i in range(16):
        at = len(types) % 8
        s, c = r.choice([m for k, m in enumerate(made) if k < common or k % 8 == at])
        forms = ["Type<std::unique_ptr<app::%s>>", "Type<std::pair<int, app::%s>>", "Type<std::array<app::%s, 2>>"]
        if c:
            forms += ["Type<std::vector<app::%s>>", "Type<std::map<std::string, app::%s>>"]
        types.append("DRAWN_%d(%s)" % (at, r.choice(forms) % s))
    defs = "".join("#if defined(CHUNK) && CHUNK == %d\n#define DRAWN_%d(...) __VA_ARGS__\n#else\n#define DRAWN_%d(...) Type<void>\n#endif\n" % (i, i, i) for i in range(8))
    lists = defs + "namespace universe\n{\nusing All = List<\n    %s>;\n}\n" % ",\n    ".join(types)
    return "".join(text), lists


def programs(path):
    """One small program of an application for every type: for when the whole cannot be built."""
    for no, (name, copyable, text, common) in enumerate(PROGRAMS):
        parts = "" if common else "".join(t for n, _, t, c in PROGRAMS if c and n in text)
        std = "array list map memory optional set string unordered_map utility variant vector".split()
        out = "".join("#include <%s>\n" % h for h in std) + "#include <json.hpp>\nnamespace app\n{\nenum class Color\n{\n    Red = 1,\n    Green = 2,\n    Blue = 4\n};\n"
        out += parts + text + "}\nint main()\n{\n    %s x {};\n" % name
        out += "    json::value v(%s);\n" % ("x" if copyable else "std::move(x)")
        out += "    if (v.is<%s>()) {\n        x = v.as<%s>();\n    }\n    return json::parse(v.to_string()) ? 0 : 1;\n}\n" % (name, name)
        open("%s%03d.cpp" % (path, no), "w").write(out)


def main():
    kind, seed, path = sys.argv[1:4]
    r = random.Random("%s %s" % (kind, seed))
    types, lists = enums(r) if kind == "enums" else structs(r)
    if "programs" in sys.argv[4:]:
        return programs(path)
    text = "// Generated by generate.py %s %s: the application's types.\n" % (kind, seed)
    text += "#ifdef LISTS\n%s#else\n%s#endif\n" % (lists, types)
    open(path, "w").write(text)


main()
