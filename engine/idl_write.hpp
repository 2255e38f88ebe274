// Writes random IDL texts, together with what they declare: absolute name -> canonical definition.
#pragma once
#include "model.hpp"
#include "idl_read.hpp"
#include <xtypes/idl/Module.hpp>

namespace idlwrite {

using namespace model;
namespace idl = eprosima::xtypes::idl;
using idlread::canon_int;
using idlread::utf8;

struct Config
{
    int chars = 0;                         // what char is: char, uint8 or int8
    bool wide16 = false;                   // what wchar is: wchar_t or char16_t
    bool keywords = true;                  // names that are keywords, escaped
    bool comments = true;                  // comments and line markers between the tokens
    bool raw = false;                      // keywords are allowed as names, so they are not escaped when they are declared
    bool ignore_case = false;              // names that are keywords in other case are keywords
    bool redefine = false;                 // what is declared again is ignored
};

enum class K { Struct, Union, Enum, Alias, Const, Enumerator };

struct Mo;
struct Sy
{
    K kind; std::string name; Mo* mod = nullptr; std::string def;
    bool defined = true;
    std::string base;                     // aliases: canonical form of what they stand for, without aliases, when it can be a discriminator
    const Sy* of = nullptr;               // enumerators, and aliases or constants of an enumeration: the enumeration
    std::vector<std::string> enums;       // enumerators, or the value of a constant
    std::set<std::string> members;        // structures: also those inherited
    __int128 value = 0;                   // integer constants and enumerators
    bool integer = false;
    std::string full() const;
};
struct Mo
{
    std::string name; Mo* outer = nullptr; int depth = 0;
    std::map<std::string, std::unique_ptr<Mo>> inner;
    std::map<std::string, Sy*> syms;
    std::string scope() const { return outer ? outer->scope() + "::" + name : ""; }
    bool declares(const std::string& n) const { return syms.count(n) || inner.count(n); }
};
inline std::string Sy::full() const { return mod->scope() + "::" + name; }

inline std::vector<std::string> split(const std::string& n)
{
    std::vector<std::string> v;
    for (size_t i = 0;;)
    {
        size_t j = n.find("::", i);
        v.push_back(n.substr(i, j == std::string::npos ? j : j - i));
        if (j == std::string::npos) { return v; }
        i = j + 2;
    }
}

inline const Sy* lookup(const Mo& from, const std::string& name)
{
    std::vector<std::string> p = split(name);
    const Mo* m = &from;
    size_t i = 0;
    if (p.size() > 1 && p[0].empty()) { while (m->outer) { m = m->outer; } i = 1; }
    else if (p.size() == 1) { while (m && !m->declares(name)) { m = m->outer; } }
    else { while (m && !m->inner.count(p[0])) { m = m->outer; } }
    for (; m && i + 1 < p.size(); ++i)
    {
        auto it = m->inner.find(p[i]);
        m = it == m->inner.end() ? nullptr : it->second.get();
    }
    if (!m) { return nullptr; }
    auto it = m->syms.find(p.back());
    return it == m->syms.end() ? nullptr : it->second;
}

// A type: its tokens, its canonical form and, after the name of what has it, its dimensions
struct Ty
{
    std::vector<std::string> tokens;
    std::string canon;
    std::string base;                     // the same, without aliases (for discriminators and constants)
    const Sy* of = nullptr;               // the enumeration
};

struct Writer
{
    Tape& t;
    Config cfg;
    Mo root;
    std::vector<std::unique_ptr<Sy>> syms;
    std::vector<std::string> tokens;       // "\n..." are whole lines
    std::map<std::string, std::string> want;
    std::map<std::string, int> kinds;      // how many of each construct
    int counter = 0;
    size_t refs = 0, depth_used = 0;
    bool hidden = false;                   // a type of the root was used where its name is declared by another

    Writer(Tape& t) : t(t) {}

    void put(const std::string& s) { tokens.push_back(s); }
    void put(const std::vector<std::string>& v) { tokens.insert(tokens.end(), v.begin(), v.end()); }

    // ---- names
    std::string fresh(Mo& m, bool plain = false)
    {
        static const std::vector<std::string> pool = {"S", "T", "U", "E", "V", "A", "B", "C"};
        // names that begin as a keyword or a literal does
        static const std::vector<std::string> like = {"int32x", "structure", "long1", "unionized", "constant", "TRUE_", "L", "any_", "mapping", "defaults", "octets", "x_", "string_t", "L1", "e1", "Long"};
        static const std::vector<std::string> words(keywords().begin(), keywords().end());
        std::string n = !plain && t.chance(1, 4) ? t.pick(like) : !plain && cfg.keywords && t.chance(1, 16) ? t.pick(words) : t.pick(pool);
        if (cfg.ignore_case && n == "Long") { n = "Longer"; }
        while (m.declares(n)) { n += char('a' + t.index(3)); }
        return n;
    }
    std::string member_name(const Sy& owner, std::set<std::string>& used)
    {
        static const std::vector<std::string> like = {"int32x", "a", "b", "c", "value", "S", "T", "E", "in", "out", "name", "L", "structs", "longest", "switcher", "e1", "_"};
        std::string n = t.chance(1, 2) ? t.pick(like) : "m" + std::to_string(counter++);
        if (n == "_") { n = "_m" + std::to_string(counter++); }
        std::string real = n[0] == '_' ? n.substr(1) : n;
        while (real == owner.name || used.count(real)) { n += "0"; real += "0"; }
        used.insert(real);
        return n;
    }
    static const std::set<std::string>& keywords()
    {
        static const std::set<std::string> k = {"struct", "long", "case", "module", "const", "enum", "string", "int32", "default", "any"};
        return k;
    }
    // As an identifier is written: with an underscore when it is a keyword, and when it is wanted
    std::string id(const std::string& n) { return keywords().count(n) || t.chance(1, 16) ? "_" + n : n; }
    // The same, of a name that is being declared
    std::string own_id(const std::string& n) { return cfg.raw && keywords().count(n) && n != "long" && t.chance(3, 4) ? (++kinds["keyword"], n) : id(n); }
    static std::string real(const std::string& n) { return n[0] == '_' ? n.substr(1) : n; }
    Sy& declare(Mo& m, K kind, const std::string& name)
    {
        syms.push_back(std::make_unique<Sy>());
        Sy& s = *syms.back();
        s.kind = kind; s.name = name; s.mod = &m;
        m.syms[name] = &s;
        return s;
    }
    // one of the ways to name d from m
    std::string ref(const Mo& m, const Sy& d)
    {
        std::vector<std::string> p = split(d.full()), ok;          // p[0] is empty
        std::string s = p.back();
        for (size_t i = p.size() - 1; i > 0; --i)
        {
            if (i != p.size() - 1) { s = p[i] + "::" + s; }
            if (lookup(m, s) == &d) { ok.push_back(s); }
        }
        ok.push_back(d.full());
        ++refs;
        if (d.mod == &root && m.outer && lookup(m, d.name) != &d) { hidden = true; }
        if (d.mod == &root && m.outer) { from_root.emplace_back(&m, &d); }
        std::vector<std::string> parts = split(t.pick(ok));
        std::string written;
        for (size_t i = 0; i < parts.size(); ++i) { written += (i ? "::" : "") + (parts[i].empty() ? std::string() : id(parts[i])); }
        return written;
    }
    const Sy* pick(const std::function<bool(const Sy&)>& ok)
    {
        for (int tries = 0; tries < 4 && !syms.empty(); ++tries)
        {
            const Sy& d = *syms[t.index(syms.size())];
            if (d.defined && ok(d)) { return &d; }
        }
        return nullptr;
    }
    static bool is_type(const Sy& s) { return s.kind != K::Const && s.kind != K::Enumerator; }

    // ---- annotations
    void annotations()
    {
        static const std::vector<std::vector<std::string>> pool = {
            {"@key"}, {"@topic"}, {"@id", "(", "3", ")"}, {"@range", "(", "min", "=", "1", ",", "max", "=", "0x20", ")"}, {"@default", "(", "\"x; }\"", ")"},
            {"@bit_bound", "(", "8", ")"}, {"@verbatim", "(", "language", "=", "\"c++\"", ",", "text", "=", "\"//\"", ")"}, {"@a::b"}, {"@optional", "(", "TRUE", ")"}, {"@id", "(", "1", "+", "2", ")"}};
        if (t.chance(1, 6)) { for (size_t n = t.range(1, 3); n > 0; --n) { put(t.pick(pool)); ++kinds["annotation"]; } }
    }

    // ---- types
    std::vector<std::string> words(const std::string& s)
    {
        std::vector<std::string> v; std::istringstream is(s); std::string w;
        while (is >> w) { v.push_back(w); }
        return v;
    }
    // What char and wchar are
    std::string char_type() const { return cfg.chars == 0 ? "char" : cfg.chars == 1 ? "uint8" : "int8"; }
    Ty prim(size_t k)
    {
        static const std::vector<std::pair<std::string, std::string>> p = {
            {"long", "int32"}, {"boolean", "boolean"}, {"char", "char"}, {"wchar", "wchar"}, {"octet", "uint8"}, {"int8", "int8"}, {"uint8", "uint8"}, {"short", "int16"}, {"int16", "int16"},
            {"unsigned short", "uint16"}, {"uint16", "uint16"}, {"int32", "int32"}, {"unsigned long", "uint32"}, {"uint32", "uint32"}, {"long long", "int64"}, {"int64", "int64"},
            {"unsigned long long", "uint64"}, {"uint64", "uint64"}, {"float", "float"}, {"double", "double"}, {"long double", "long double"}};
        Ty ty{words(p[k].first), p[k].second, p[k].second, nullptr};
        if (p[k].first == "char") { ty.canon = ty.base = char_type(); }
        return ty;
    }
    static constexpr size_t prims = 21, discriminators = 18;

    // A positive integer: a literal in some base or a constant
    std::vector<std::string> bound(const Mo& m, uint32_t& v)
    {
        if (t.chance(1, 4))
        {
            if (const Sy* d = pick([](const Sy& s) { return s.kind == K::Const && s.integer && s.value > 0 && s.value < 40; }))
            {
                v = uint32_t(d->value);
                ++kinds["constant size"];
                return {ref(m, *d)};
            }
        }
        v = uint32_t(t.chance(1, 8) ? t.range(1, 5000) : t.range(1, 20));
        return {integer(v)};
    }
    std::string integer(uint64_t v)
    {
        char b[40];
        switch (t.weighted({6, 1, 1, 1}))
        {
            case 1: std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); break;
            case 2: std::snprintf(b, sizeof b, "0X%llX", (unsigned long long)v); break;
            case 3: std::snprintf(b, sizeof b, "0%llo", (unsigned long long)v); break;
            default: std::snprintf(b, sizeof b, "%llu", (unsigned long long)v);
        }
        return b;
    }
    std::string reference(const Mo& m, const Sy& d, Ty& ty)
    {
        std::string r = ref(m, d);
        ty.tokens = {r}; ty.canon = d.full(); ty.base = d.kind == K::Enum ? "enum" : d.base; ty.of = d.kind == K::Enum ? &d : d.of;
        return r;
    }
    Ty type(const Mo& m, int depth)
    {
        switch (t.weighted({6, 2, 6, unsigned(depth > 0 ? 2 : 0), unsigned(depth > 0 ? 1 : 0)}))
        {
            case 1:
            {
                bool w = t.chance(1, 2);
                Ty ty{{w ? "wstring" : "string"}, w ? "wstring" : "string", "", nullptr};
                if (t.chance(1, 2))
                {
                    uint32_t n; auto b = bound(m, n);
                    ty.tokens.push_back("<"); ty.tokens.insert(ty.tokens.end(), b.begin(), b.end()); ty.tokens.push_back(">");
                    ty.canon += "<" + std::to_string(n) + ">";
                }
                return ty;
            }
            case 2:
                if (const Sy* d = pick(is_type)) { Ty ty; reference(m, *d, ty); return ty; }
                break;
            case 3:
            {
                Ty c = type(m, depth - 1);
                Ty ty{{"sequence", "<"}, "sequence<" + c.canon, "", nullptr};
                ty.tokens.insert(ty.tokens.end(), c.tokens.begin(), c.tokens.end());
                tail(m, ty);
                return ty;
            }
            case 4:
            {
                Ty k = type(m, 0), c = type(m, depth - 1);
                Ty ty{{"map", "<"}, "map<" + k.canon + "," + c.canon, "", nullptr};
                ty.tokens.insert(ty.tokens.end(), k.tokens.begin(), k.tokens.end());
                ty.tokens.push_back(",");
                ty.tokens.insert(ty.tokens.end(), c.tokens.begin(), c.tokens.end());
                tail(m, ty);
                return ty;
            }
            default: break;
        }
        return prim(t.index(prims));
    }
    void tail(const Mo& m, Ty& ty)
    {
        if (t.chance(1, 2))
        {
            uint32_t n; auto b = bound(m, n);
            ty.tokens.push_back(","); ty.tokens.insert(ty.tokens.end(), b.begin(), b.end());
            ty.canon += "," + std::to_string(n);
        }
        ty.tokens.push_back(">"); ty.canon += ">";
    }
    // The dimensions of a declarator; writes them
    std::string dimensions(const Mo& m)
    {
        std::string s;
        if (!t.chance(1, 4)) { return s; }
        for (size_t n = t.range(1, 3); n > 0; --n)
        {
            uint32_t v; auto b = bound(m, v);
            if (v > 30) { v = 3; b = {"3"}; }
            put("["); put(b); put("]");
            s += "[" + std::to_string(v) + "]";
        }
        return s;
    }

    // ---- literals
    std::string escape(uint32_t c, bool wide, char quote)
    {
        static const std::map<uint32_t, std::string> named = {{'\n', "\\n"}, {'\t', "\\t"}, {'\v', "\\v"}, {'\b', "\\b"}, {'\r', "\\r"}, {'\f', "\\f"}, {'\a', "\\a"}, {'\\', "\\\\"}, {'?', "\\?"}, {'\'', "\\'"}, {'"', "\\\""}};
        char b[20];
        auto it = named.find(c);
        bool must = c < 32 || c == 127 || c == '\\' || c == uint32_t(quote);
        if (it != named.end() && (must || t.chance(1, 4))) { return it->second; }
        if (must || t.chance(1, 12))
        {
            if (wide && c > 0xFF) { std::snprintf(b, sizeof b, "\\u%04x", c); }
            else if (t.chance(1, 2)) { std::snprintf(b, sizeof b, "\\x%02X", c); }
            else { std::snprintf(b, sizeof b, "\\%03o", c); }
            if (c < 0x80 || wide) { return b; }
        }
        return wide || c < 0x80 ? utf8(c) : std::string(1, char(c));
    }
    uint32_t character(bool wide)
    {
        if (t.chance(1, 4)) { return t.pick(std::vector<uint32_t>{'"', '\'', '\\', '\n', '\t', '?', 1, 127, '\a', '/', '*'}); }
        return wide && t.chance(1, 3) ? uint32_t(t.range(0xA1, 0x3FFF)) : uint32_t(t.range(32, 126));
    }
    std::string character_literal(uint32_t c, bool wide) { return std::string(wide ? "L'" : "'") + escape(c, wide, '\'') + "'"; }

    // ---- definitions
    void structure(Mo& m, Sy* forward, std::string* inlined = nullptr)
    {
        std::string name = forward ? forward->name : fresh(m);
        Sy* s = forward;
        put("struct"); put(own_id(name));
        // the name is declared from here on
        if (!s) { s = &declare(m, K::Struct, name); }
        s->defined = false;
        std::string def = "struct";
        std::set<std::string> used;
        if (t.chance(1, 4))
        {
            if (const Sy* d = pick([](const Sy& d) { return d.kind == K::Struct; }))
            {
                put(":"); put(ref(m, *d));
                def += " : " + d->full();
                used = d->members;
                ++kinds["inheritance"];
            }
        }
        put("{");
        def += " {";
        for (size_t n = t.index(4); n > 0; --n)
        {
            annotations();
            Ty ty = type(m, 3);
            put(ty.tokens);
            size_t k = t.chance(1, 4) ? t.range(2, 3) : 1;
            for (size_t i = 0; i < k; ++i)
            {
                if (i) { put(","); }
                std::string mn = member_name(*s, used);
                put(mn);
                std::string dims = dimensions(m);
                def += " " + ty.canon + dims + " " + real(mn) + ";";
            }
            put(";");
        }
        put("}");
        def += " }";
        s->defined = true; s->def = def; s->members = used; want[s->full()] = def;
        if (inlined) { *inlined = s->full(); }
        ++kinds["struct"];
    }
    bool label(const Mo& m, const Ty& d, int64_t& v, std::vector<std::string>& out)
    {
        static const std::map<std::string, int> w = {{"int8", 8}, {"uint8", 8}, {"int16", 16}, {"uint16", 16}, {"int32", 32}, {"uint32", 32}, {"int64", 64}, {"uint64", 64}};
        const std::string& b = d.base;
        if (b == "boolean") { v = t.chance(1, 2); out = {v ? "TRUE" : "FALSE"}; return true; }
        if (b == "char" || b == "wchar") { bool wide = b == "wchar"; do { v = character(wide); } while (v > 125 && !wide); out = {character_literal(uint32_t(v), wide)}; return true; }
        if (b == "enum")
        {
            const std::string& n = t.pick(d.of->enums);
            const Sy* e = d.of->mod->syms.at(n);
            v = int64_t(e->value);
            out = {ref(m, *e)};
            return true;
        }
        int bits = w.at(b);
        int64_t hi = int64_t((uint64_t(1) << (bits - 1)) - 3);
        if (t.chance(1, 5))
        {
            if (const Sy* c = pick([&](const Sy& s) { return s.integer && s.value <= hi && s.value >= (b[0] == 'i' ? -hi : 0); }))
            {
                v = int64_t(c->value);
                out = {ref(m, *c)};
                ++kinds["constant label"];
                return true;
            }
        }
        v = t.chance(1, 3) ? t.range(0, 5) : t.chance(1, 4) ? hi : t.range(0, hi);
        if (b[0] == 'i' && t.chance(1, 3)) { v = -v - 1; out = {"-", integer(uint64_t(0) - uint64_t(v))}; }
        else if (v > 10 && t.chance(1, 6)) { out = {"(", integer(uint64_t(v - 7)), "+", "7", ")"}; }
        else { out = {integer(uint64_t(v))}; }
        return true;
    }
    void un(Mo& m, Sy* forward)
    {
        std::string name = forward ? forward->name : fresh(m);
        put("union"); put(own_id(name)); put("switch"); put("(");
        Sy* s = forward ? forward : &declare(m, K::Union, name);
        s->defined = false;
        Ty d;
        const Sy* q = t.chance(1, 2) ? pick([](const Sy& d) { return d.kind == K::Enum || (d.kind == K::Alias && d.base != ""); }) : nullptr;
        if (q) { reference(m, *q, d); }
        else
        {
            size_t k = t.index(discriminators);
            d = prim(k);
        }
        put(d.tokens); put(")");
        put("{");
        std::string def = "union switch (" + d.canon + ") {";
        std::set<int64_t> seen;
        std::set<std::string> used;
        bool dflt = false;
        for (size_t i = 0, n = t.range(1, 3); i < n; ++i)
        {
            std::vector<std::pair<int64_t, std::vector<std::string>>> labels;
            for (size_t k = t.range(1, 3); k > 0; --k)
            {
                int64_t v; std::vector<std::string> tk;
                label(m, d, v, tk);
                if (seen.insert(v).second) { labels.emplace_back(v, tk); }
            }
            bool is_def = !dflt && t.chance(1, 4);
            if (labels.empty() && !is_def) { if (i || !seen.empty()) { continue; } is_def = true; }
            size_t at = is_def ? t.index(labels.size() + 1) : labels.size() + 1;
            std::set<std::string> texts;
            for (size_t k = 0; k <= labels.size(); ++k)
            {
                if (k == at) { put("default"); put(":"); dflt = true; texts.insert("default:"); }
                if (k < labels.size()) { put("case"); put(labels[k].second); put(":"); texts.insert("case " + canon_int(labels[k].first) + ":"); }
            }
            annotations();
            Ty ty = type(m, 2);
            put(ty.tokens);
            std::string mn = member_name(*s, used);
            put(mn);
            std::string dims = dimensions(m);
            put(";");
            for (auto& x : texts) { def += " " + x; }
            def += " " + ty.canon + dims + " " + real(mn) + ";";
        }
        put("}");
        def += " }";
        s->defined = true; s->def = def; want[s->full()] = def;
        ++kinds["union"];
    }
    void enumeration(Mo& m)
    {
        std::string name = fresh(m);
        put("enum"); put(own_id(name)); put("{");
        Sy& s = declare(m, K::Enum, name);
        std::string def = "enum {";
        for (size_t i = 0, n = t.range(1, 4); i < n; ++i)
        {
            if (i) { put(","); }
            annotations();
            std::string e = t.chance(1, 2) ? fresh(m) : "e" + std::to_string(counter++);
            while (m.declares(e)) { e += "x"; }
            put(own_id(e));
            Sy& x = declare(m, K::Enumerator, e);
            x.of = &s; x.value = i; x.integer = true;
            s.enums.push_back(e);
            def += " " + e + ",";
        }
        put("}");
        def += " }";
        s.def = def; want[s.full()] = def;
        ++kinds["enum"];
    }
    void alias(Mo& m)
    {
        put("typedef");
        Ty ty;
        if (t.chance(1, 8))
        {
            // a type defined in the typedef
            size_t before = syms.size();
            switch (t.index(3))
            {
                case 0: structure(m, nullptr); break;
                case 1: un(m, nullptr); break;
                default: enumeration(m);
            }
            Sy& s = *syms[before];
            ty.canon = s.full(); ty.base = s.kind == K::Enum ? "enum" : ""; ty.of = s.kind == K::Enum ? &s : nullptr;
            ++kinds["inline"];
        }
        else { ty = type(m, 2); put(ty.tokens); }
        for (size_t i = 0, n = t.chance(1, 4) ? t.range(2, 3) : 1; i < n; ++i)
        {
            if (i) { put(","); }
            std::string name = fresh(m);
            put(own_id(name));
            std::string dims = dimensions(m);
            Sy& s = declare(m, K::Alias, name);
            if (dims.empty()) { s.base = disc(ty.base) ? ty.base : ""; s.of = ty.of; }
            s.def = "typedef " + ty.canon + dims;
            want[s.full()] = s.def;
        }
        ++kinds["typedef"];
    }
    static bool disc(const std::string& b)
    {
        static const std::set<std::string> d = {"boolean", "char", "wchar", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "enum"};
        return d.count(b) != 0;
    }
    static std::string floating(const std::string& canon, const std::string& text)
    {
        return idlread::Reader::canon_float(canon, text);
    }
    void constant(Mo& m)
    {
        put("const");
        Ty ty;
        const Sy* q = t.chance(1, 4) ? pick([](const Sy& d) { return d.kind == K::Enum || (d.kind == K::Alias && d.base != ""); }) : nullptr;
        bool text = false, wide = false;
        if (q) { reference(m, *q, ty); }
        else
        {
            size_t k = t.index(prims + 3);
            if (k < prims) { ty = prim(k); }
            else
            {
                text = true; wide = t.chance(1, 2);
                ty = Ty{{wide ? "wstring" : "string"}, wide ? "wstring" : "string", "", nullptr};
            }
        }
        put(ty.tokens);
        std::string name = fresh(m);
        put(id(name));
        put("=");
        std::string value;
        __int128 iv = 0; bool integral = false;
        static const std::map<std::string, int> w = {{"int8", 8}, {"uint8", 8}, {"int16", 16}, {"uint16", 16}, {"int32", 32}, {"uint32", 32}, {"int64", 64}, {"uint64", 64}};
        const std::string b = text ? "" : ty.base;
        const Sy* same = t.chance(1, 5) ? pick([&](const Sy& d) { return d.kind == K::Const && (text ? d.base == ty.canon : d.base == b) && d.of == ty.of; }) : nullptr;
        std::string from;
        if (same)
        {
            put(ref(m, *same));
            value = same->enums.at(0);
            iv = same->value; integral = same->integer;
            ++kinds["constant of a constant"];
        }
        else if (text)
        {
            size_t parts = t.chance(1, 4) ? t.range(2, 3) : 1;
            value = "\"";
            for (size_t i = 0; i < parts; ++i)
            {
                std::string x;
                for (size_t n = t.index(6); n > 0; --n)
                {
                    uint32_t c = character(wide);
                    x += escape(c, wide, '"');
                    value += utf8(c);
                }
                put(std::string(wide ? "L" : "") + "\"" + x + "\"");
            }
            value += "\"";
        }
        else if (b == "boolean") { bool v = t.chance(1, 2); put(v ? "TRUE" : "FALSE"); value = v ? "TRUE" : "FALSE"; }
        else if (b == "char" || b == "wchar") { uint32_t c = character(b == "wchar"); put(character_literal(c, b == "wchar")); value = "'" + utf8(c) + "'"; }
        else if (b == "enum")
        {
            const Sy* e = ty.of->mod->syms.at(t.pick(ty.of->enums));
            put(ref(m, *e));
            value = canon_int(e->value); iv = e->value;
        }
        else if (w.count(b))
        {
            int bits = w.at(b);
            uint64_t max = b[0] == 'i' ? (uint64_t(1) << (bits - 1)) - 1 : bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
            iv = t.chance(1, 2) ? t.range(0, 30) : t.chance(1, 4) ? __int128(max) : __int128(t.bits() & max);
            if (iv > max) { iv = max; }
            if (b[0] == 'i' && t.chance(1, 4)) { iv = -iv - 1; put("-"); put(integer(uint64_t(-iv))); }
            else { put(integer(uint64_t(iv))); }
            value = canon_int(iv); integral = true;
        }
        else
        {
            // some number that is written in some way
            static const std::vector<std::string> forms = {"%.1f", "%.6f", "%e", "%.12E", "%.0f."};
            double v = t.chance(1, 2) ? double(t.range(0, 4000)) / 8 : double(t.bits() >> 12) / double((t.bits() >> 40) | 1);
            char x[400]; std::snprintf(x, sizeof x, t.pick(forms).c_str(), v);
            std::string s = x;
            if (s[0] == '0' && s.size() > 2 && s[1] == '.' && isdigit((unsigned char)s[2]) && t.chance(1, 2)) { s = s.substr(1); }
            bool neg = t.chance(1, 4);
            if (neg) { put("-"); }
            put(s);
            value = floating(b, (neg ? "-" : "") + s);
        }
        Sy& s = declare(m, K::Const, name);
        s.integer = integral; s.value = iv; s.of = ty.of;
        s.base = text ? ty.canon : b;
        if (ty.of && ty.of->mod == &root && m.outer) { from_root.emplace_back(&m, ty.of); }
        s.enums = {value};
        // the data of an alias has the type that it stands for
        std::string canon = ty.of ? ty.of->full() : text ? ty.canon : b;
        s.def = "const " + canon + " = " + value;
        want[s.full()] = s.def;
        ++kinds["const"];
    }
    void forward(Mo& m)
    {
        bool u = t.chance(1, 2);
        std::string name = fresh(m, true);
        put(u ? "union" : "struct"); put(own_id(name));
        Sy& s = declare(m, u ? K::Union : K::Struct, name);
        s.defined = false;
        if (!u) { want[s.full()] = "struct { }"; }
        pending.push_back(&s);
        ++kinds["forward"];
    }
    std::vector<Sy*> pending;
    std::vector<std::pair<const Mo*, const Sy*>> from_root;   // types of the root that are used in other modules
    // Whether, with everything declared, a module names a type of the root as it names something else
    bool hides() const
    {
        for (auto& p : from_root) { if (lookup(*p.first, p.second->name) != p.second) { return true; } }
        // the generated enumerators are not scoped
        for (auto& s : syms)
        {
            if (s->kind == K::Const && s->of && std::count(s->of->enums.begin(), s->of->enums.end(), s->name)) { return true; }
        }
        return hidden;
    }

    // Something that no module can have
    std::string wrong;                     // what was written
    void bad(Mo& m)
    {
        auto words = [&](const std::string& x) { std::istringstream is(x); std::string w; while (is >> w) { put(w); } };
        const Sy* own = nullptr;
        for (auto& x : m.syms) { if (t.chance(1, 2) || !own) { own = x.second; } }
        std::string n = fresh(m, true);
        wrong_from = tokens.size();
        switch (t.index(own ? 14 : 10))
        {
            case 0: wrong = "unknown type of a member"; words("struct " + n + " { Unknown_ m ; }"); break;
            case 1: wrong = "unknown type in a typedef"; words("typedef sequence < B::Unknown_ > " + n); break;
            case 2: wrong = "unknown constant"; words("const long " + n + " = 1 + Unknown_"); break;
            case 3: wrong = "unknown size"; words("typedef long " + n + " [ Unknown_ ]"); break;
            case 4: wrong = "unknown parent"; words("struct " + n + " : Unknown_ { long m ; }"); break;
            case 5: wrong = "two members with one name"; words("struct " + n + " { long m , n ; short m ; }"); break;
            case 6: wrong = "two cases with one label"; words("union " + n + " switch ( long ) { case 1 : long m ; case 0x1 : long n ; }"); break;
            case 7: wrong = "a missing name"; words("struct " + n + " { long m ; long ; }"); break;
            case 8: case 9:
            {
                // a keyword as a name
                static const std::vector<std::string> kw = {"struct", "case", "module", "const", "enum", "string", "int32", "default", "any", "union", "switch", "sequence", "map", "wstring", "boolean", "octet",
                    "float", "double", "char", "wchar", "uint8", "int64", "short", "typedef", "native", "fixed", "bitset", "bitmask"};
                std::string k = t.pick(kw);
                if (cfg.ignore_case) { for (char& c : k) { if (t.chance(1, 2)) { c = char(toupper(c)); } } }
                if (cfg.raw) { bad(m); return; }
                static const std::vector<std::string> forms = {"struct ? { long m ; }", "union ? switch ( long ) { case 1 : long m ; }", "enum ? { # }", "enum # { # , ? }", "typedef long ?", "typedef long # , ? [ 2 ]", "const long ? = 1",
                    "struct # { long m , ? ; }", "union # switch ( long ) { case 1 : long ? ; }", "struct ?", "module ? { const long # = 2 ; }"};
                std::string f = t.pick(forms), x;
                for (size_t i = 0, j = 0; i < f.size(); ++i) { x += f[i] == '?' ? k : f[i] == '#' ? n + (j++ ? "_" + std::to_string(j) : "") : std::string(1, f[i]); }
                wrong = "a keyword as a name: " + x;
                words(x);
                break;
            }
            default:
            {
                // something declared twice
                static const std::map<K, std::string> what = {{K::Struct, "structure"}, {K::Union, "union"}, {K::Enum, "enumeration"}, {K::Alias, "alias"}, {K::Const, "constant"}, {K::Enumerator, "enumerator"}};
                size_t k = t.index(5);
                if (!repeatable(*own)) { bad(m); return; }
                static const std::vector<std::string> as = {"structure", "union", "enumeration", "alias", "constant"};
                wrong = what.at(own->kind) + " declared again as " + as[k];
                repeat(*own, n, k);
            }
        }
        wrong_to = tokens.size();
        put(";");
    }
    size_t wrong_from = 0, wrong_to = 0;   // its tokens
    size_t bad_at = 0;                     // the definition that is followed by a wrong one
    static bool repeatable(const Sy& s) { return s.defined && !(s.kind == K::Struct && s.members.empty()); }
    // Declares again something, as something
    void repeat(const Sy& own, const std::string& n, size_t k)
    {
        auto words = [&](const std::string& x) { std::istringstream is(x); std::string w; while (is >> w) { put(w); } };
        std::string x = id(own.name);
        switch (k)
        {
            case 0: words("struct " + x + " { long m ; }"); break;
            case 1: words("union " + x + " switch ( long ) { case 1 : long m ; }"); break;
            case 2: words("enum " + x + " { " + n + "_1 , " + n + "_2 }"); break;
            case 3: words("typedef string " + x); break;
            default: words("const double " + x + " = 3.5");
        }
    }
    // A constant whose literal is of other kind than its type
    std::vector<std::pair<size_t, size_t>> odds;  // their tokens
    size_t odd_count = 0;
    void odd(Mo& m)
    {
        static const std::vector<std::pair<std::vector<std::string>, int>> types = {{{"boolean"}, 0}, {{"char"}, 1}, {{"wchar"}, 2}, {{"octet"}, 3}, {{"int8"}, 3}, {{"uint8"}, 3}, {{"short"}, 3}, {{"unsigned", "short"}, 3},
            {{"long"}, 3}, {{"uint32"}, 3}, {{"int64"}, 3}, {{"unsigned", "long", "long"}, 3}, {{"string"}, 5}, {{"wstring"}, 6}};
        static const std::vector<std::string> literals = {"TRUE", "'a'", "L'a'", "7", "2.5", "\"abc\"", "L\"abc\""};
        size_t which = t.index(types.size());
        if (cfg.chars && which == 1) { which = 0; }          // char is an integer then
        auto& ty = types[which];
        int l = int(t.index(literals.size()));
        if (l == ty.second) { l = (ty.second + 2) % 7; }
        std::string name = fresh(m, true);
        name += "_odd" + std::to_string(counter++);
        put("const"); put(ty.first); put(name); put("=");
        odds.emplace_back(tokens.size(), 0);
        put(literals[size_t(l)]);
        odds.back().second = tokens.size();
        put(";");
        ++kinds["odd literal"];
    }

    void definitions(Mo& m, size_t n)
    {
        static const std::vector<std::string> names = {"A", "B", "C"};
        for (; n > 0; --n)
        {
            if (&m == &root) { tops.push_back(tokens.size()); }
            if (bad_at && --bad_at == 0) { bad(m); }
            if (odd_count && t.chance(1, 3)) { --odd_count; odd(m); }
            if (cfg.redefine && t.chance(1, 2))
            {
                const Sy* own = nullptr;
                for (auto& x : m.syms) { if (t.chance(1, 2) || !own) { own = x.second; } }
                if (own && repeatable(*own)) { repeat(*own, "Again" + std::to_string(counter++), t.index(5)); put(";"); ++kinds["redefinition"]; }
            }
            if (t.chance(1, 16)) { put(t.chance(1, 2) ? "\n#pragma keylist X; }" : "\n# 7 \"file.idl\" 2"); }
            Sy* f = nullptr;
            for (Sy* p : pending) { if (p->mod == &m && t.chance(1, 3)) { f = p; break; } }
            if (f)
            {
                pending.erase(std::find(pending.begin(), pending.end(), f));
                if (f->kind == K::Union) { un(m, f); } else { structure(m, f); }
                put(";");
                continue;
            }
            switch (t.weighted({5, 3, 2, 4, 4, 1, unsigned(m.depth < 3 ? 3 : 0)}))
            {
                case 0: annotations(); structure(m, nullptr); break;
                case 1: annotations(); un(m, nullptr); break;
                case 2: annotations(); enumeration(m); break;
                case 3: alias(m); break;
                case 4: constant(m); break;
                case 5: forward(m); break;
                default:
                {
                    std::string name = t.pick(names);
                    if (m.syms.count(name)) { constant(m); break; }
                    annotations();
                    if (m.inner.count(name)) { ++kinds["re-opened"]; }
                    put("module"); put(id(name)); put("{");
                    auto& i = m.inner[name];
                    if (!i)
                    {
                        i = std::make_unique<Mo>();
                        i->name = name; i->outer = &m; i->depth = m.depth + 1;
                        want[i->scope()] = "module";
                    }
                    depth_used = std::max(depth_used, size_t(i->depth));
                    definitions(*i, t.range(1, 4));
                    put("}");
                    ++kinds["module"];
                }
            }
            put(";");
        }
    }
    // Defines what was only declared
    void finish()
    {
        while (!pending.empty())
        {
            Sy* f = pending.back();
            pending.pop_back();
            if (f->kind == K::Struct && t.chance(1, 4)) { continue; }
            std::vector<std::string> names = split(f->mod->scope());
            if (names.size() > 1) { ++kinds["re-opened"]; }
            for (size_t i = 1; i < names.size(); ++i) { put("module"); put(names[i]); put("{"); }
            if (f->kind == K::Union) { un(*f->mod, f); } else { structure(*f->mod, f); }
            put(";");
            for (size_t i = 1; i < names.size(); ++i) { put("}"); put(";"); }
        }
    }
    static bool word(char c) { return isalnum((unsigned char)c) || c == '_'; }
    std::string space(bool need)
    {
        std::string s;
        size_t n = need ? 1 + t.weighted({8, 1}) : t.weighted({6, 3, 1});
        static const std::vector<std::string> blanks = {" ", "\n", "  ", "\t", "\r\n", " \n "};
        static const std::vector<std::string> comments = {"/**/", "/* struct X { */", "// }; struct\n", "//\n", "/* // */", "/* *\n * x\n */", "// \"\n", "/* ' */", "\n# 12 \"file.idl\"\n", "/***/"};
        for (; n > 0; --n) { s += cfg.comments && t.chance(1, 4) ? t.pick(comments) : t.pick(blanks); }
        return s;
    }
    std::string text()
    {
        std::string s = space(false);
        bool line = false;
        lines.clear(); offsets.clear();
        for (size_t i = 0; i < tokens.size(); ++i)
        {
            const std::string& k = tokens[i];
            if (k[0] == '\n') { offsets.push_back(s.size()); s += k + "\n"; line = true; lines.push_back(0); continue; }
            if (i && !line)
            {
                const std::string& p = tokens[i - 1];
                bool need = word(p.back()) && word(k[0]);
                need = need || (p.back() == '/' || k[0] == '/');
                need = need || (p.back() == ':' && k[0] == ':') || (word(p.back()) && k[0] == ':' && k.size() > 1);
                need = need || (word(p.back()) && k[0] == '.') || (p.back() == '.' && word(k[0])) || (p == "-" && k[0] == '-');
                need = need || (isdigit((unsigned char)p[0]) && (k[0] == '+' || k[0] == '-'));
                need = need || ((p.back() == '"' || p.back() == '\'') && (k[0] == 'L' || k[0] == '"'));
                if (p.back() == '/') { s += ' '; }
                s += space(need);
            }
            line = false;
            lines.push_back(1 + size_t(std::count(s.begin(), s.end(), '\n')));
            offsets.push_back(s.size());
            s += k;
        }
        return s + space(false);
    }
    std::vector<size_t> lines, offsets;    // of each token, after text()
    std::vector<size_t> tops;              // the tokens at which a definition of the root begins
};

// ---- What a module has, in the same form
inline std::string absolute(const std::string& n) { return n.compare(0, 2, "::") == 0 ? n : "::" + n; }
inline std::string canon(const xt::DynamicType& y)
{
    using xt::TypeKind;
    switch (y.kind())
    {
        case TypeKind::BOOLEAN_TYPE: return "boolean";
        case TypeKind::CHAR_8_TYPE: return "char";
        case TypeKind::CHAR_16_TYPE: case TypeKind::WIDE_CHAR_TYPE: return "wchar";
        case TypeKind::INT_8_TYPE: return "int8"; case TypeKind::UINT_8_TYPE: return "uint8";
        case TypeKind::INT_16_TYPE: return "int16"; case TypeKind::UINT_16_TYPE: return "uint16";
        case TypeKind::INT_32_TYPE: return "int32"; case TypeKind::UINT_32_TYPE: return "uint32";
        case TypeKind::INT_64_TYPE: return "int64"; case TypeKind::UINT_64_TYPE: return "uint64";
        case TypeKind::FLOAT_32_TYPE: return "float"; case TypeKind::FLOAT_64_TYPE: return "double"; case TypeKind::FLOAT_128_TYPE: return "long double";
        case TypeKind::ARRAY_TYPE:
        {
            std::string dims; const xt::DynamicType* p = &y;
            while (p->kind() == TypeKind::ARRAY_TYPE) { auto& a = static_cast<const xt::ArrayType&>(*p); dims += "[" + std::to_string(a.dimension()) + "]"; p = &a.content_type(); }
            return canon(*p) + dims;
        }
        case TypeKind::STRING_TYPE: case TypeKind::WSTRING_TYPE: case TypeKind::STRING16_TYPE:
        {
            uint32_t b = static_cast<const xt::MutableCollectionType&>(y).bounds();
            return std::string(y.kind() == TypeKind::STRING_TYPE ? "string" : "wstring") + (b ? "<" + std::to_string(b) + ">" : "");
        }
        case TypeKind::SEQUENCE_TYPE:
        {
            auto& s = static_cast<const xt::SequenceType&>(y);
            return "sequence<" + canon(s.content_type()) + (s.bounds() ? "," + std::to_string(s.bounds()) : "") + ">";
        }
        case TypeKind::MAP_TYPE:
        {
            auto& s = static_cast<const xt::MapType&>(y);
            auto& p = static_cast<const xt::PairType&>(s.content_type());
            return "map<" + canon(p.first()) + "," + canon(p.second()) + (s.bounds() ? "," + std::to_string(s.bounds()) : "") + ">";
        }
        default: return absolute(y.name());
    }
}
inline std::string member(const xt::Member& m) { return canon(m.type()) + " " + m.name() + ";"; }
inline std::string definition(const xt::DynamicType& y)
{
    using xt::TypeKind;
    switch (y.kind())
    {
        case TypeKind::STRUCTURE_TYPE:
        {
            auto& s = static_cast<const xt::StructType&>(y);
            std::string d = "struct";
            size_t i = 0;
            if (s.has_parent()) { d += " : " + absolute(s.parent().name()); i = static_cast<const xt::AggregationType&>(s.parent()).members().size(); }
            d += " {";
            for (; i < s.members().size(); ++i) { d += " " + member(s.member(i)); }
            return d + " }";
        }
        case TypeKind::UNION_TYPE:
        {
            auto& u = static_cast<const xt::UnionType&>(y);
            std::string d = "union switch (" + canon(u.discriminator()) + ") {";
            for (const std::string& n : u.get_case_members())
            {
                std::set<std::string> texts;
                for (int64_t l : u.get_labels(n)) { texts.insert("case " + canon_int(l) + ":"); }
                if (u.is_default(n)) { texts.insert("default:"); }
                for (auto& x : texts) { d += " " + x; }
                d += " " + member(u.member(n));
            }
            return d + " }";
        }
        case TypeKind::ENUMERATION_TYPE:
        {
            auto& e = static_cast<const xt::EnumerationType<uint32_t>&>(y);
            std::map<uint32_t, std::string> byv;
            for (auto& x : e.enumerators()) { byv[x.second] = x.first; }
            std::string d = "enum {";
            uint32_t v = 0;
            for (auto& x : byv) { d += " " + x.second + (x.first == v ? "" : "=" + std::to_string(x.first)) + ","; ++v; }
            return d + " }";
        }
        case TypeKind::ALIAS_TYPE: return "typedef " + canon(static_cast<const xt::AliasType&>(y).get());
        default: return "?" + y.name();
    }
}
template<class S> std::string wide_text(const S& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t c = uint32_t(s[i]);
        if (sizeof(s[0]) == 2 && c >= 0xD800 && c < 0xDC00 && i + 1 < s.size()) { c = 0x10000 + ((c - 0xD800) << 10) + (uint32_t(s[++i]) - 0xDC00); }
        r += utf8(c);
    }
    return r;
}
inline std::string definition(const xt::DynamicData& d)
{
    using xt::TypeKind;
    const xt::DynamicType& y = d.type();
    std::string s = "const " + canon(y) + " = ";
    auto fl = [&](long double v) { char b[80]; std::snprintf(b, sizeof b, "%.40Lg", v); return idlread::Reader::canon_float(canon(y), b); };
    switch (y.kind())
    {
        case TypeKind::BOOLEAN_TYPE: return s + (d.value<bool>() ? "TRUE" : "FALSE");
        case TypeKind::CHAR_8_TYPE: return s + "'" + utf8((unsigned char)d.value<char>()) + "'";
        case TypeKind::CHAR_16_TYPE: return s + "'" + utf8(d.value<char16_t>()) + "'";
        case TypeKind::WIDE_CHAR_TYPE: return s + "'" + utf8(uint32_t(d.value<wchar_t>())) + "'";
        case TypeKind::INT_8_TYPE: return s + canon_int(d.value<int8_t>()); case TypeKind::UINT_8_TYPE: return s + canon_int(d.value<uint8_t>());
        case TypeKind::INT_16_TYPE: return s + canon_int(d.value<int16_t>()); case TypeKind::UINT_16_TYPE: return s + canon_int(d.value<uint16_t>());
        case TypeKind::INT_32_TYPE: return s + canon_int(d.value<int32_t>()); case TypeKind::UINT_32_TYPE: return s + canon_int(d.value<uint32_t>());
        case TypeKind::INT_64_TYPE: return s + canon_int(d.value<int64_t>()); case TypeKind::UINT_64_TYPE: return s + canon_int(d.value<uint64_t>());
        case TypeKind::ENUMERATION_TYPE: return s + canon_int(d.value<uint32_t>());
        case TypeKind::FLOAT_32_TYPE: return s + fl(d.value<float>()); case TypeKind::FLOAT_64_TYPE: return s + fl(d.value<double>()); case TypeKind::FLOAT_128_TYPE: return s + fl(d.value<long double>());
        case TypeKind::STRING_TYPE: return s + "\"" + d.value<std::string>() + "\"";
        case TypeKind::WSTRING_TYPE: return s + "\"" + wide_text(d.value<std::wstring>()) + "\"";
        case TypeKind::STRING16_TYPE: return s + "\"" + wide_text(d.value<std::u16string>()) + "\"";
        default: return s + "?";
    }
}

// Compares a module with what it should have
inline void compare(idl::Module& m, const std::map<std::string, std::string>& want)
{
    std::map<std::string, xt::DynamicType::Ptr> all;
    m.fill_all_types(all, true);
    size_t types = 0;
    for (auto& w : want)
    {
        std::string rel = w.first.substr(2);
        if (w.second == "module")
        {
            idl::Module* x = &m;
            for (auto& n : split(rel)) { CHECK(x->has_submodule(n), "the module " << rel << " isn't there"); x = x->submodule(n).get(); }
            continue;
        }
        if (w.second.compare(0, 6, "const ") == 0)
        {
            CHECK(m.has_constant(w.first), "the constant " << w.first << " isn't there");
            std::string d = definition(m.constant(w.first));
            CHECK(d == w.second, w.first << " is \"" << d << "\", should be \"" << w.second << "\"");
            continue;
        }
        ++types;
        auto it = all.find(rel);
        CHECK(it != all.end(), "the type " << w.first << " isn't there");
        CHECK(absolute(it->second->name()) == w.first, "the name of the type " << w.first << " is " << it->second->name());
        std::string d = definition(*it->second);
        CHECK(d == w.second, w.first << " is \"" << d << "\", should be \"" << w.second << "\"");
    }
    for (auto& a : all) { CHECK(want.count("::" + a.first), "the type " << a.first << " is there, but not in the text"); }
    CHECK(types == all.size(), "there are " << all.size() << " types, should be " << types);
}

} // namespace idlwrite
