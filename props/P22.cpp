// P22: the IDL generated from a module declares what the module has.
#include "model.hpp"
#include "idl_read.hpp"
#include <xtypes/idl/generator.hpp>

namespace idl = eprosima::xtypes::idl;
using namespace model;
using idlread::canon_int;

namespace {

struct Sy;
struct Mo
{
    std::string name; Mo* outer = nullptr; int depth = 0;
    std::vector<std::unique_ptr<Mo>> inner;
    std::set<std::string> used;
    std::set<std::string> hidden;         // names of the root that are used in this module
    idl::Module* x = nullptr;
    std::string scope() const { return outer ? outer->scope() + "::" + name : ""; }
};
enum class K { Struct, Union, Enum, Alias, Const };
struct Sy
{
    K kind; std::string name; Mo* mod; std::string def;
    xt::DynamicType::Ptr local;           // as it was before it was registered
    std::string resolved;                 // aliases: what they stand for
    std::vector<std::pair<std::string, uint32_t>> enums;
    const Sy* target = nullptr;           // aliases: the symbol that they stand for, if it is one
    std::string full() const { return mod->scope() + "::" + name; }
};

// A type as written in IDL, and the same type in xtypes
struct Ty { std::string idl, dims; xt::DynamicType::Ptr x; const Sy* sy = nullptr; std::string all() const { return idl + dims; } };

struct Gen
{
    Tape& t;
    idl::Module root;
    Mo r;
    std::vector<Mo*> mods;
    std::vector<std::unique_ptr<Sy>> syms;
    bool unique = false;                  // names are unique in the whole tree, so that unscoped ones can be used
    int counter = 0;
    // what is in a module (its symbols and its inner modules) and which of them needs which
    std::map<const void*, std::set<const void*>> needs;

    explicit Gen(Tape& t) : t(t) {}

    static const void* item(const Mo* level, const Sy& s)
    {
        if (s.mod == level) { return &s; }
        const Mo* m = s.mod;
        while (m->outer != level) { m = m->outer; }
        return m;
    }
    bool reaches(const void* a, const void* b) const
    {
        if (a == b) { return true; }
        auto it = needs.find(a);
        if (it == needs.end()) { return false; }
        for (auto x : it->second) { if (reaches(x, b)) { return true; } }
        return false;
    }
    static const Mo* common(const Mo* a, const Mo* b)
    {
        while (a->depth > b->depth) { a = a->outer; }
        while (b->depth > a->depth) { b = b->outer; }
        while (a != b) { a = a->outer; b = b->outer; }
        return a;
    }
    // Notes that s uses d, unless a module would have to be written before and after another thing
    bool use(Sy& s, const Sy& d)
    {
        const Mo* l = common(s.mod, d.mod);
        const void* a = item(l, s); const void* b = item(l, d);
        if (a == b) { return false; }
        if (reaches(b, a)) { return false; }
        needs[a].insert(b);
        return true;
    }

    xt::DynamicType::Ptr get(const Sy& s)
    {
        // the type as known by the module, or as it was before
        if (unique && t.chance(1, 2)) { return s.local; }
        idl::Module& m = *s.mod->x;
        switch (s.kind)
        {
            case K::Struct: return xt::DynamicType::Ptr(m.structure(s.name));
            case K::Union: return xt::DynamicType::Ptr(m.union_switch(s.name));
            case K::Enum: return xt::DynamicType::Ptr(m.enum_32(s.name));
            default: return xt::DynamicType::Ptr(m.alias(s.name));
        }
    }
    Sy* pick(Sy& s, const std::function<bool(const Sy&)>& ok)
    {
        for (int tries = 0; tries < 4 && !syms.empty(); ++tries)
        {
            Sy& d = *syms[t.index(syms.size())];
            // the types of the root have no scope in their names: KF-root
            bool root = d.mod == &r && s.mod != &r;
            if (&d == &s || d.kind == K::Const || !ok(d) || (root && s.mod->used.count(d.name)) || !use(s, d)) { continue; }
            if (root) { s.mod->hidden.insert(d.name); }
            return &d;
        }
        return nullptr;
    }
    Ty prim(size_t k)
    {
        switch (k)
        {
            case 0: return {"int32", "", P(xt::primitive_type<int32_t>())};
            case 1: return {"boolean", "", P(xt::primitive_type<bool>())};
            case 2: return {"char", "", P(xt::primitive_type<char>())};
            case 3: return {"wchar", "", P(xt::primitive_type<char16_t>())};
            case 4: return {"wchar", "", P(xt::primitive_type<wchar_t>())};
            case 5: return {"int8", "", P(xt::primitive_type<int8_t>())};
            case 6: return {"uint8", "", P(xt::primitive_type<uint8_t>())};
            case 7: return {"int16", "", P(xt::primitive_type<int16_t>())};
            case 8: return {"uint16", "", P(xt::primitive_type<uint16_t>())};
            case 9: return {"uint32", "", P(xt::primitive_type<uint32_t>())};
            case 10: return {"int64", "", P(xt::primitive_type<int64_t>())};
            case 11: return {"uint64", "", P(xt::primitive_type<uint64_t>())};
            case 12: return {"float", "", P(xt::primitive_type<float>())};
            case 13: return {"double", "", P(xt::primitive_type<double>())};
            default: return {"long double", "", P(xt::primitive_type<long double>())};
        }
    }
    using P = xt::DynamicType::Ptr;
    Ty ref(const Sy& d) { return {d.full(), "", get(d), &d}; }

    Ty type(Sy& s, int depth, bool top)
    {
        switch (t.weighted({5, 2, 5, unsigned(depth > 0 ? 2 : 0), unsigned(depth > 0 ? 1 : 0), unsigned(depth > 0 && top ? 2 : 0)}))
        {
            case 1:
            {
                uint32_t b = t.chance(1, 2) ? 0 : uint32_t(t.range(1, 30));
                std::string n = b ? "<" + std::to_string(b) + ">" : "";
                switch (t.index(3))
                {
                    case 0: return {"string" + n, "", P(xt::StringType(b))};
                    case 1: return {"wstring" + n, "", P(xt::WStringType(b))};
                    default: return {"wstring" + n, "", P(xt::String16Type(b))};
                }
            }
            case 2: if (Sy* d = pick(s, [](const Sy&) { return true; })) { return ref(*d); } break;
            case 3:
            {
                Ty c = type(s, depth - 1, false);
                uint32_t b = t.chance(1, 2) ? 0 : uint32_t(t.range(1, 30));
                return {"sequence<" + c.all() + (b ? "," + std::to_string(b) : "") + ">", "", P(xt::SequenceType(*c.x, b))};
            }
            case 4:
            {
                Ty k = type(s, 0, false), c = type(s, depth - 1, false);
                uint32_t b = t.chance(1, 2) ? 0 : uint32_t(t.range(1, 30));
                return {"map<" + k.all() + "," + c.all() + (b ? "," + std::to_string(b) : "") + ">", "", P(xt::MapType(*k.x, *c.x, b))};
            }
            case 5:
            {
                Ty c = type(s, depth - 1, true);
                uint32_t n = uint32_t(t.range(1, 9));
                return {c.idl, "[" + std::to_string(n) + "]" + c.dims, P(xt::ArrayType(*c.x, n))};
            }
            default: break;
        }
        return prim(t.index(15));
    }
    std::string fresh(Mo& m)
    {
        static const std::vector<std::string> pool = {"S", "T", "U", "E", "V"};
        std::string n = unique ? "N" + std::to_string(counter++) : t.pick(pool);
        while (m.used.count(n) || m.hidden.count(n)) { n += char('a' + t.index(3)); }
        m.used.insert(n);
        return n;
    }
    std::string chr(uint32_t c) { return "'" + idlread::utf8(c) + "'"; }

    // a value of a discriminator of (resolved) type b, as it is written
    bool label(const std::string& b, const std::vector<std::pair<std::string, uint32_t>>& en, int64_t& v, std::string& text)
    {
        if (b == "boolean") { v = t.chance(1, 2); text = v ? "TRUE" : "FALSE"; }
        else if (b == "char") { v = t.range(32, 125); text = chr(uint32_t(v)); }
        else if (b == "wchar") { v = t.chance(1, 2) ? t.range(32, 125) : t.range(0xA1, 0x3FFF); text = chr(uint32_t(v)); }
        else if (b == "enum") { auto& e = t.pick(en); v = e.second; text = e.first; }
        else
        {
            static const std::map<std::string, int> w = {{"int8", 8}, {"uint8", 8}, {"int16", 16}, {"uint16", 16}, {"int32", 32}, {"uint32", 32}, {"int64", 64}, {"uint64", 64}};
            int bits = w.at(b);
            int64_t hi = int64_t((uint64_t(1) << (bits - 1)) - 3);
            v = t.chance(1, 3) ? t.range(0, 5) : t.chance(1, 4) ? hi : t.range(0, hi);
            if (b[0] == 'i' && t.chance(1, 3)) { v = -v - 1; }
            text = canon_int(v);
        }
        return true;
    }

    void structure(Sy& s)
    {
        s.def = "struct";
        P parent;
        if (t.chance(1, 4))
        {
            if (Sy* d = pick(s, [](const Sy& d) { return d.kind == K::Struct; }))
            {
                parent = get(*d);
                s.def += " : " + d->full();
            }
        }
        s.def += " {";
        xt::StructType y = parent.get() ? xt::StructType(s.name, static_cast<const xt::StructType*>(&*parent)) : xt::StructType(s.name);
        for (size_t n = t.index(4); n > 0; --n)
        {
            Ty ty = type(s, 3, true);
            std::string name = "m" + std::to_string(counter++);
            y.add_member(name, *ty.x);
            s.def += " " + ty.all() + " " + name + ";";
        }
        s.def += " }";
        s.local = P(y);
        bool lv = t.chance(1, 2);
        CHECK(lv ? s.mod->x->structure(y) : s.mod->x->structure(std::move(y)), "a structure isn't accepted");
    }
    void un(Sy& s)
    {
        Ty d;
        std::string b;
        std::vector<std::pair<std::string, uint32_t>> en;
        if (Sy* q = t.chance(1, 2) ? pick(s, [](const Sy& d) { return d.kind == K::Enum || (d.kind == K::Alias && d.resolved != ""); }) : nullptr)
        {
            d = ref(*q);
            b = q->kind == K::Enum ? "enum" : q->resolved;
            const Sy* e = q;
            while (e->target) { e = e->target; }
            en = e->enums;
        }
        else { d = prim(t.index(12)); b = d.idl; }
        xt::UnionType y(s.name, *d.x);
        s.def = "union switch (" + d.all() + ") {";
        std::set<int64_t> used;
        bool def = false;
        size_t n = t.range(1, 3);
        for (size_t i = 0; i < n; ++i)
        {
            std::vector<int64_t> labels;
            std::set<std::string> texts;
            for (size_t k = t.range(1, 3); k > 0; --k)
            {
                int64_t v; std::string text;
                label(b, en, v, text);
                if (used.insert(v).second) { labels.push_back(v); texts.insert("case " + text + ":"); }
            }
            bool is_def = !def && t.chance(1, 4);
            if (labels.empty() && !is_def) { continue; }
            if (is_def) { def = true; texts.insert("default:"); }
            Ty ty = type(s, 2, true);
            std::string name = "c" + std::to_string(counter++);
            y.add_case_member(labels, xt::Member(name, *ty.x), is_def);
            for (auto& x : texts) { s.def += " " + x; }
            s.def += " " + ty.all() + " " + name + ";";
        }
        if (used.empty() && !def) { Ty ty = prim(0); y.add_case_member<int64_t>({}, xt::Member("c", *ty.x), true); s.def += " default: int32 c;"; }
        s.def += " }";
        s.local = P(y);
        bool lv = t.chance(1, 2);
        CHECK(lv ? s.mod->x->union_switch(y) : s.mod->x->union_switch(std::move(y)), "a union isn't accepted");
    }
    void enumeration(Sy& s)
    {
        xt::EnumerationType<uint32_t> e(s.name);
        s.def = "enum {";
        uint32_t v = 0;
        for (size_t n = t.range(1, 5); n > 0; --n)
        {
            std::string name(1, char('a' + t.index(26)));
            name += std::to_string(counter++);
            e.add_enumerator(name, v);
            s.enums.emplace_back(name, v++);
            s.def += " " + name + ",";
        }
        s.def += " }";
        s.local = P(e);
        CHECK(s.mod->x->enum_32(std::move(e)), "an enumeration isn't accepted");
    }
    void alias(Sy& s)
    {
        Ty ty = type(s, 2, true);
        s.def = "typedef " + ty.all();
        static const std::set<std::string> disc = {"boolean", "char", "wchar", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"};
        if (disc.count(ty.all())) { s.resolved = ty.all(); }
        if (ty.sy) { s.target = ty.sy; s.resolved = ty.sy->kind == K::Enum ? "enum" : ty.sy->resolved; }
        xt::AliasType y(*ty.x, s.name);
        s.local = P(y);
        switch (t.index(3))
        {
            case 0: CHECK(s.mod->x->create_alias(P(*ty.x), s.name), "an alias isn't accepted"); break;
            case 1: CHECK(s.mod->x->add_alias(y), "an alias isn't accepted"); break;
            default: CHECK(s.mod->x->add_alias(std::move(y)), "an alias isn't accepted");
        }
    }
    template<class T> xt::DynamicData number(const Ty& ty, T v) { xt::DynamicData d(*ty.x); d = v; return d; }
    template<class T> xt::DynamicData integer(const Ty& ty, std::string& text)
    {
        T v = T(t.chance(1, 3) ? t.range(-3, 3) : t.chance(1, 4) ? int64_t(std::numeric_limits<T>::max()) : t.chance(1, 4) ? int64_t(std::numeric_limits<T>::min()) : int64_t(t.bits()));
        text = canon_int(v);
        return number<T>(ty, v);
    }
    template<class T> xt::DynamicData floating(const Ty& ty, std::string& text)
    {
        T v = t.chance(1, 2) ? T(t.range(-1000, 1000)) / 8 : T(int64_t(t.bits())) / T(int64_t(t.bits() | 1)) * (t.chance(1, 4) ? T(1e-9) : T(1));
        char b[80]; std::snprintf(b, sizeof b, "%.40Lg", (long double)(v));
        text = idlread::Reader::canon_float(ty.idl, b);
        return number<T>(ty, v);
    }
    void constant(Sy& s)
    {
        std::string text;
        auto put = [&](const Ty& ty, const xt::DynamicData& d) {
            s.def = "const " + ty.all() + " = " + text;
            CHECK(s.mod->x->create_constant(s.name, d), "a constant isn't accepted");
        };
        if (t.chance(1, 6))
        {
            if (Sy* q = pick(s, [](const Sy& d) { return d.kind == K::Enum; }))
            {
                Ty ty = ref(*q);
                auto& e = t.pick(q->enums);
                text = e.first;
                put(ty, number<uint32_t>(ty, e.second));
                return;
            }
        }
        size_t k = t.index(18);
        if (k >= 15)
        {
            std::string u8; std::u16string u16; std::wstring w;
            for (size_t n = t.index(6); n > 0; --n)
            {
                uint32_t c = k == 15 ? uint32_t(t.range(32, 126)) : t.chance(2, 3) ? uint32_t(t.range(32, 126)) : uint32_t(t.range(0xA1, 0x3FFF));
                if (t.chance(1, 6)) { c = t.pick(std::vector<uint32_t>{'"', '\\', '\n', '\'', '\t', 1, 127}); }
                u8 += idlread::utf8(c); u16 += char16_t(c); w += wchar_t(c);
            }
            text = "\"" + u8 + "\"";
            if (k == 15) { Ty ty{"string", "", P(xt::StringType())}; put(ty, number<std::string>(ty, u8)); }
            else if (k == 16) { Ty ty{"wstring", "", P(xt::WStringType())}; put(ty, number<std::wstring>(ty, w)); }
            else { Ty ty{"wstring", "", P(xt::String16Type())}; put(ty, number<std::u16string>(ty, u16)); }
            return;
        }
        Ty ty = prim(k);
        switch (k)
        {
            case 0: put(ty, integer<int32_t>(ty, text)); break;
            case 1: { bool v = t.chance(1, 2); text = v ? "TRUE" : "FALSE"; put(ty, number<bool>(ty, v)); break; }
            case 2: { char v = char(t.chance(1, 4) ? t.pick(std::vector<int>{'\'', '\\', '\n', 1, '"'}) : t.range(32, 126)); text = std::string("'") + v + "'"; put(ty, number<char>(ty, v)); break; }
            case 3: case 4:
            {
                uint32_t v = t.chance(1, 2) ? uint32_t(t.range(32, 126)) : t.chance(1, 4) ? uint32_t('\'') : uint32_t(t.range(0xA1, 0x3FFF));
                text = chr(v);
                if (k == 3) { put(ty, number<char16_t>(ty, char16_t(v))); } else { put(ty, number<wchar_t>(ty, wchar_t(v))); }
                break;
            }
            case 5: put(ty, integer<int8_t>(ty, text)); break;
            case 6: put(ty, integer<uint8_t>(ty, text)); break;
            case 7: put(ty, integer<int16_t>(ty, text)); break;
            case 8: put(ty, integer<uint16_t>(ty, text)); break;
            case 9: put(ty, integer<uint32_t>(ty, text)); break;
            case 10: put(ty, integer<int64_t>(ty, text)); break;
            case 11: put(ty, integer<uint64_t>(ty, text)); break;
            case 12: put(ty, floating<float>(ty, text)); break;
            case 13: put(ty, floating<double>(ty, text)); break;
            default: put(ty, floating<long double>(ty, text));
        }
    }
    void run()
    {
        unique = t.chance(1, 3);
        r.x = &root;
        mods.push_back(&r);
        static const std::vector<std::string> names = {"A", "B", "C"};
        for (size_t n = t.index(6); n > 0; --n)
        {
            Mo* o = mods[t.index(mods.size())];
            std::string name = t.pick(names);
            if (o->depth >= 3 || !o->used.insert(name).second) { continue; }
            auto m = std::make_unique<Mo>();
            m->name = name; m->outer = o; m->depth = o->depth + 1;
            m->x = &o->x->create_submodule(name);
            mods.push_back(m.get());
            o->inner.push_back(std::move(m));
        }
        for (size_t n = t.range(1, 8); n > 0; --n)
        {
            auto s = std::make_unique<Sy>();
            s->mod = mods[t.index(mods.size())];
            s->name = fresh(*s->mod);
            s->kind = K(t.weighted({4, 2, 2, 3, 2}));
            switch (s->kind)
            {
                case K::Struct: structure(*s); break;
                case K::Union: un(*s); break;
                case K::Enum: enumeration(*s); break;
                case K::Alias: alias(*s); break;
                default: constant(*s);
            }
            NOTE(t, s->full() << ": " << s->def);
            syms.push_back(std::move(s));
        }
    }
};

void check(const idl::Module& m, const std::map<std::string, std::string>& want, Tape* t)
{
    std::string text = idl::generator::module(m);
    if (t) { NOTE(*t, "generated:\n" << text); }
    idlread::Result r;
    try { r = idlread::Reader(text, true).read(); }
    catch (const idlread::Error& e) { FAIL("the generated IDL is wrong: " << e.what << "\n" << text); }
    for (auto& w : want)
    {
        auto it = r.decls.find(w.first);
        CHECK(it != r.decls.end(), w.first << " isn't in the generated IDL\n" << text);
        CHECK(it->second == w.second, w.first << " is \"" << it->second << "\" in the generated IDL, should be \"" << w.second << "\"\n" << text);
    }
    for (auto& g : r.decls) { CHECK(want.count(g.first), g.first << " is in the generated IDL but not in the module\n" << text); }
    CHECK(idl::generator::module(m) == text, "the IDL generated again is other");
}

void body(Tape& t)
{
    Gen g(t);
    g.run();
    std::map<std::string, std::string> want;
    for (Mo* m : g.mods) { if (m->outer) { want[m->scope()] = "module"; } }
    for (auto& s : g.syms) { want[s->full()] = s->def; }
    check(g.root, want, &t);
    // the IDL of a structure alone is how the module declares it
    if (!g.unique)
    {
        std::string text = "\n" + idl::generator::module(g.root);
        for (auto& s : g.syms)
        {
            if (s->kind != K::Struct || s->mod != &g.r) { continue; }
            std::string alone = idl::generator::structure(s->name, g.root.structure(s->name));
            CHECK(text.find("\n" + alone) != std::string::npos, "the IDL of the structure " << s->name << " alone is\n" << alone << "but in the module:" << text);
            t.label("alone");
        }
    }
    size_t deps = 0;
    for (auto& n : g.needs) { deps += n.second.size(); }
    if (deps) { t.label("dependencies"); }
    if (g.mods.size() > 2) { t.label("modules"); }
    if (g.unique) { t.label("unscoped"); }
    if (deps >= 2 && g.syms.size() >= 3) { t.nontrivial(); }
}


// ---- regressions
using Want = std::map<std::string, std::string>;
void constants()
{
    idl::Module m;
    auto put = [&](const char* n, const xt::DynamicData& d) { CHECK(m.create_constant(n, d), "a constant"); };
    xt::DynamicData b(xt::primitive_type<bool>()), c(xt::primitive_type<char>()), w(xt::primitive_type<char16_t>()), d(xt::primitive_type<double>());
    b = true; c = 'a'; w = u'\u20AC'; d = 1e-9;
    xt::StringType st; xt::WStringType wt;
    xt::DynamicData s(st), ws(wt);
    s = std::string("a\"b"); ws = std::wstring(L"\u20AC");
    put("B", b); put("C", c); put("W", w); put("D", d); put("S", s); put("X", ws);
    check(m, {{"::B", "const boolean = TRUE"}, {"::C", "const char = 'a'"}, {"::W", "const wchar = '\u20AC'"}, {"::D", "const double = " + idlread::Reader::canon_float("double", "1e-9")}, {"::S", "const string = \"a\"b\""}, {"::X", "const wstring = \"\u20AC\""}}, nullptr);
}
void labels()
{
    idl::Module m;
    xt::EnumerationType<uint32_t> e("E");
    e.add_enumerator("X", 0); e.add_enumerator("Y", 1);
    xt::AliasType a(e, "A");
    xt::UnionType u("U", xt::primitive_type<int32_t>()), v("V", a);
    u.add_case_member<int64_t>({-3}, "c", xt::primitive_type<bool>());
    v.add_case_member<int64_t>({1}, "c", xt::primitive_type<bool>());
    m.enum_32(std::move(e)); m.add_alias(a); m.union_switch(u); m.union_switch(v);
    check(m, {{"::E", "enum { X, Y, }"}, {"::A", "typedef ::E"}, {"::U", "union switch (int32) { case -3: boolean c; }"}, {"::V", "union switch (::A) { case Y: boolean c; }"}}, nullptr);
}
void order()
{
    idl::Module m;
    xt::UnionType u("U", xt::primitive_type<int32_t>());
    u.add_case_member<int64_t>({1}, "c", xt::primitive_type<bool>());
    m.union_switch(u);
    xt::StructType s("Z"), q("Y"), p("X");
    s.add_member("u", u);
    q.add_member("s", xt::SequenceType(s));
    p.add_member("q", q);
    m.structure(s); m.structure(q); m.structure(p);
    xt::AliasType a(xt::SequenceType(p), "A");
    m.add_alias(a);
    check(m, {{"::U", "union switch (int32) { case 1: boolean c; }"}, {"::Z", "struct { ::U u; }"}, {"::Y", "struct { sequence<::Z> s; }"}, {"::X", "struct { ::Y q; }"}, {"::A", "typedef sequence<::X>"}}, nullptr);
}
void hidden_scope()
{
    idl::Module m;
    idl::Module& a = m.create_submodule("A");
    idl::Module& b = a.create_submodule("A");
    xt::StructType s("S"), o("S"), q("Q");
    a.structure(s);
    o.add_member("m", xt::primitive_type<bool>());
    b.structure(o);
    q.add_member("s", s);
    b.structure(q);
    check(m, {{"::A", "module"}, {"::A::A", "module"}, {"::A::S", "struct { }"}, {"::A::A::S", "struct { boolean m; }"}, {"::A::A::Q", "struct { ::A::S s; }"}}, nullptr);
}
void nested_names()
{
    idl::Module m;
    idl::Module& a = m.create_submodule("A");
    xt::StructType t("T"), s("S");
    m.structure(t);
    s.add_member("t", t);
    m.structure(s);
    xt::StructType q("Q"), o("T");
    q.add_member("s", s);
    a.structure(q);
    o.add_member("q", q);
    a.structure(o);
    check(m, {{"::T", "struct { }"}, {"::S", "struct { ::T t; }"}, {"::A", "module"}, {"::A::Q", "struct { ::S s; }"}, {"::A::T", "struct { ::A::Q q; }"}}, nullptr);
}
// ---- known findings
void hidden_root()
{
    idl::Module m;
    idl::Module& a = m.create_submodule("A");
    xt::StructType v("V"), o("V"), s("S");
    o.add_member("m", xt::primitive_type<bool>());
    m.structure(v); a.structure(o);
    s.add_member("v", v);
    a.structure(s);
    check(m, {{"::V", "struct { }"}, {"::A", "module"}, {"::A::V", "struct { boolean m; }"}, {"::A::S", "struct { ::V v; }"}}, nullptr);
}
void struct_dependencies()
{
    xt::StructType in("In"), out("Out");
    in.add_member("m", xt::primitive_type<bool>());
    out.add_member("in", in);
    std::string text = idl::generator::structure("Out", out);
    CHECK(text.find("struct In") != std::string::npos, "the IDL of a structure is generated without its dependencies:\n" << text);
}
void enum_values()
{
    idl::Module m;
    xt::EnumerationType<uint32_t> e("E");
    e.add_enumerator("X", 3);
    m.enum_32(std::move(e));
    std::string text = idl::generator::module(m);
    CHECK(text.find('3') != std::string::npos, "the enumerator X, of value 3, is generated without it:\n" << text);
}
void array_content()
{
    idl::Module m;
    xt::StructType s("S");
    s.add_member("m", xt::SequenceType(xt::ArrayType(xt::primitive_type<bool>(), 3)));
    m.structure(s);
    std::string text = idl::generator::module(m);
    CHECK(text.find("sequence<boolean>") == std::string::npos, "a sequence of arrays is generated as a sequence of their elements:\n" << text);
}

}

int main(int argc, char** argv)
{
    try { std::locale::global(std::locale("C.UTF-8")); }
    catch (const std::runtime_error&) { std::fprintf(stderr, "no UTF-8 locale\n"); return 2; }
    pbt::Property p;
    p.id = "P22";
    p.rule = "case: a random tree of up to 6 modules with up to 8 structures, unions, enumerations, aliases and constants that use each other; the generated IDL is read with a reader written from the specification, and "
        "must declare exactly the modules, types and constants of the tree, each after what it uses. Non-trivial: three symbols and two dependencies.";
    p.body = body;
    p.quick_cases = 100000;
    p.thorough_cases = 2000000;
    p.assumptions = {
        "Only modules that can be written one after the other: the generator refuses circular dependencies between modules.",
        "Enumerators are numbered from zero, the contents of collections are not arrays, and a type of the root is not used where its name is also declared: see the known findings.",
        "Annotations are not part of what is compared.",
    };
    p.regressions = {
        {"R-constants", "constants are literals of their types", constants},
        {"R-labels", "negative labels, and labels of an alias of an enumeration", labels},
        {"R-order", "definitions come after what they use", order},
        {"R-hidden-scope", "a type whose scope is hidden by another module", hidden_scope},
        {"R-nested-names", "the names that a used type uses are not dependencies", nested_names},
    };
    p.known = {
        {"KF-hidden-root", "a type of the root module used where another one has its name", hidden_root},
        {"KF-struct-dependencies", "the IDL of a structure alone lacks the types that it uses", struct_dependencies},
        {"KF-enum-values", "explicit values of enumerators", enum_values},
        {"KF-array-content", "arrays inside of a sequence or map", array_content},
    };
    return pbt::run_main(argc, argv, p);
}
