// A reference model of the modules of xtypes: a tree of scopes with symbols, and how names are found in them.
#pragma once
#include "model.hpp"
#include <xtypes/idl/Module.hpp>

namespace modules {

using namespace model;
namespace idl = eprosima::xtypes::idl;

enum class Kind { Struct, Union, Enum, Alias, Const };

struct Sym
{
    Kind kind;
    int tag;                       // makes the content of each symbol different
    bool from_enum = false;
    int extra = 0;                 // members added later (structures)
};

struct Mod
{
    std::string name;
    Mod* outer = nullptr;
    std::map<std::string, std::unique_ptr<Mod>> inner;
    std::map<std::string, Sym> syms;
    idl::Module* x = nullptr;

    std::string scope() const
    {
        if (!outer) { return ""; }
        std::string s = outer->scope();
        return s.empty() ? name : s + "::" + name;
    }
    const Mod& root() const { return outer ? outer->root() : *this; }
    bool declares(const std::string& n) const { return syms.count(n) || inner.count(n); }
    std::string scoped(const std::string& n) const { std::string s = scope(); return s.empty() ? n : s + "::" + n; }
    void all(std::vector<Mod*>& out) { out.push_back(this); for (auto& i : inner) { i.second->all(out); } }
};

inline std::vector<std::string> split(const std::string& n)
{
    std::vector<std::string> v;
    size_t i = 0;
    while (true)
    {
        size_t j = n.find("::", i);
        v.push_back(n.substr(i, j == std::string::npos ? j : j - i));
        if (j == std::string::npos) { return v; }
        i = j + 2;
    }
}

// The names of IDL are found as in C++: the first component in the innermost scope that declares it (as a module, if
// something follows), and the rest there and nowhere else.
inline const Mod* down(const Mod* m, const std::vector<std::string>& parts, size_t from)
{
    for (size_t i = from; i + 1 < parts.size(); ++i)
    {
        auto it = m->inner.find(parts[i]);
        if (it == m->inner.end()) { return nullptr; }
        m = it->second.get();
    }
    return m->declares(parts.back()) ? m : nullptr;
}

inline const Sym* lookup(const Mod& from, const std::string& name, const Mod** where = nullptr)
{
    std::vector<std::string> parts = split(name);
    const Mod* m = nullptr;
    if (parts.size() > 1 && parts[0].empty()) { m = down(&from.root(), parts, 1); }
    else
    {
        for (const Mod* s = &from; s; s = s->outer)
        {
            if (parts.size() == 1) { if (s->declares(name)) { m = s; break; } }
            else if (s->inner.count(parts[0])) { m = down(s, parts, 0); break; }
        }
    }
    if (where) { *where = m; }
    if (!m) { return nullptr; }
    auto it = m->syms.find(parts.back());
    return it == m->syms.end() ? nullptr : &it->second;
}

template<class F> bool refused(F&& f)
{
    try { f(); }
    catch (const std::exception&) { return true; }
    return false;
}

inline std::string tag_name(int tag) { return "t" + std::to_string(tag); }

// The types of the tags have different numbers of parts, so one that replaces other may have more or less.
inline size_t parts(int tag) { return 1 + size_t(tag) * 5 % 7 % 4; }
inline std::string part_name(int tag, size_t i) { return i == 0 ? tag_name(tag) : tag_name(tag) + "_" + std::to_string(i); }

inline xt::StructType make_struct(const std::string& name, int tag)
{
    xt::StructType s(name);
    for (size_t i = 0; i < parts(tag); ++i) { if (i % 2) { s.add_member(part_name(tag, i), xt::StringType(tag)); } else { s.add_member(part_name(tag, i), xt::primitive_type<int16_t>()); } }
    return s;
}
inline xt::UnionType make_union(const std::string& name, int tag)
{
    xt::UnionType u(name, xt::primitive_type<int32_t>());
    for (size_t i = 0; i < parts(tag); ++i) { if (i % 2) { u.add_case_member<int64_t>({tag + int(i)}, part_name(tag, i), xt::StringType(tag)); } else { u.add_case_member<int64_t>({tag + int(i)}, part_name(tag, i), xt::primitive_type<double>()); } }
    return u;
}
inline bool add_enum(idl::Module& m, const std::string& name, int tag, bool replace = false)
{
    xt::EnumerationType<uint32_t> e(name);
    for (size_t i = 0; i < parts(tag); ++i) { e.add_enumerator(part_name(tag, i), uint32_t(tag) + uint32_t(i)); }
    return m.enum_32(std::move(e), replace);
}
inline xt::AliasType make_alias(const std::string& name, int tag) { return xt::AliasType(xt::StringType(tag), name); }
inline xt::DynamicData make_const(int tag)
{
    switch (tag % 3)
    {
        case 0: { xt::DynamicData d(xt::primitive_type<int32_t>()); d = int32_t(tag); return d; }
        case 1: { xt::DynamicData d(xt::primitive_type<double>()); d = double(tag); return d; }
        default: { xt::StringType s; xt::DynamicData d(s); d = std::to_string(tag); return d; }
    }
}

// Whether x is the type registered as symbol s
inline void verify_type(const xt::DynamicType& x, const Sym& s, const std::string& name, const std::string& what)
{
    CHECK(x.name() == name, what << ": its name is " << x.name() << ", should be " << name);
    switch (s.kind)
    {
        case Kind::Struct:
            CHECK(x.kind() == xt::TypeKind::STRUCTURE_TYPE, what << ": isn't a structure");
            CHECK(static_cast<const xt::StructType&>(x).members().size() == parts(s.tag) + size_t(s.extra), what << ": is other structure");
            for (size_t i = 0; i < parts(s.tag); ++i) { CHECK(static_cast<const xt::StructType&>(x).has_member(part_name(s.tag, i)) && static_cast<const xt::StructType&>(x).member(i).name() == part_name(s.tag, i), what << ": is other structure"); }
            break;
        case Kind::Union:
            CHECK(x.kind() == xt::TypeKind::UNION_TYPE, what << ": isn't a union");
            CHECK(static_cast<const xt::UnionType&>(x).get_case_members().size() == parts(s.tag), what << ": is other union");
            for (size_t i = 0; i < parts(s.tag); ++i) { CHECK(static_cast<const xt::UnionType&>(x).has_member(part_name(s.tag, i)), what << ": is other union"); }
            break;
        case Kind::Enum:
            CHECK(x.kind() == xt::TypeKind::ENUMERATION_TYPE, what << ": isn't an enumeration");
            CHECK(static_cast<const xt::EnumerationType<uint32_t>&>(x).enumerators().size() == parts(s.tag), what << ": is other enumeration");
            for (size_t i = 0; i < parts(s.tag); ++i) { CHECK(static_cast<const xt::EnumerationType<uint32_t>&>(x).has_enumerator(part_name(s.tag, i)), what << ": is other enumeration"); }
            break;
        case Kind::Alias:
            CHECK(x.kind() == xt::TypeKind::ALIAS_TYPE, what << ": isn't an alias");
            CHECK(static_cast<const xt::MutableCollectionType&>(static_cast<const xt::AliasType&>(x).rget()).bounds() == s.tag, what << ": is other alias");
            break;
        default: break;
    }
}

inline void verify_const(const xt::DynamicData& d, const Sym& s, const std::string& what)
{
    switch (s.tag % 3)
    {
        case 0: CHECK(d.type().kind() == xt::TypeKind::INT_32_TYPE && d.value<int32_t>() == s.tag, what << ": is other constant"); break;
        case 1: CHECK(d.type().kind() == xt::TypeKind::FLOAT_64_TYPE && d.value<double>() == s.tag, what << ": is other constant"); break;
        default: CHECK(d.type().kind() == xt::TypeKind::STRING_TYPE && d.value<std::string>() == std::to_string(s.tag), what << ": is other constant");
    }
}

// Everything that a module answers about a name, as the model says.
inline void ask(const Mod& m, const std::string& name)
{
    const Mod* where = nullptr;
    const Sym* s = lookup(m, name, &where);
    std::string what = "'" + name + "' from '" + m.scope() + "'";
    idl::Module& x = *m.x;
    const idl::Module& cx = x;
    auto is = [&](Kind k) { return s && s->kind == k; };
    CHECK(cx.has_structure(name) == is(Kind::Struct), what << ": has_structure() is " << cx.has_structure(name));
    CHECK(cx.has_union(name) == is(Kind::Union), what << ": has_union() is " << cx.has_union(name));
    CHECK(cx.has_enum_32(name) == is(Kind::Enum), what << ": has_enum_32() is " << cx.has_enum_32(name));
    CHECK(cx.has_alias(name) == is(Kind::Alias), what << ": has_alias() is " << cx.has_alias(name));
    CHECK(cx.has_constant(name) == is(Kind::Const), what << ": has_constant() is " << cx.has_constant(name));
    std::string last = split(name).back();
    std::string full = s ? where->scoped(last) : "";
    if (is(Kind::Struct)) { verify_type(cx.structure(name), *s, full, what); verify_type(x.structure(name), *s, full, what); }
    else { CHECK(refused([&] { cx.structure(name); }) && refused([&] { x.structure(name); }), what << ": a structure that isn't there"); }
    if (is(Kind::Union)) { verify_type(cx.union_switch(name), *s, full, what); verify_type(x.union_switch(name), *s, full, what); }
    else { CHECK(refused([&] { cx.union_switch(name); }) && refused([&] { x.union_switch(name); }), what << ": a union that isn't there"); }
    if (is(Kind::Enum)) { verify_type(cx.enum_32(name), *s, full, what); verify_type(x.enum_32(name), *s, full, what); }
    else { CHECK(refused([&] { cx.enum_32(name); }) && refused([&] { x.enum_32(name); }), what << ": an enumeration that isn't there"); }
    if (is(Kind::Alias)) { verify_type(cx.alias(name), *s, full, what); verify_type(x.alias(name), *s, full, what); }
    else { CHECK(refused([&] { cx.alias(name); }) && refused([&] { x.alias(name); }), what << ": an alias that isn't there"); }
    if (is(Kind::Const)) { verify_const(cx.constant(name), *s, what); }
    else { xt::DynamicData d = cx.constant(name); CHECK(d.type().kind() == xt::TypeKind::BOOLEAN_TYPE && !d.value<bool>(), what << ": a constant that isn't there"); }
    xt::DynamicType::Ptr p = x.type(name);
    if (s && s->kind != Kind::Const)
    {
        CHECK(p.get() != nullptr, what << ": type() finds nothing");
        verify_type(*p, *s, name.compare(0, 2, "::") == 0 ? name : full, what);
    }
    else { CHECK(p.get() == nullptr, what << ": type() finds " << p->name()); }
}

inline void show(std::ostream& os, const Mod& m, const std::string& indent = "")
{
    static const char* k[] = {"struct", "union", "enum", "alias", "const"};
    for (auto& s : m.syms) { os << indent << k[int(s.second.kind)] << " " << s.first << " (" << s.second.tag << ")\n"; }
    for (auto& i : m.inner) { os << indent << "module " << i.first << "\n"; show(os, *i.second, indent + "  "); }
}

// Adds a symbol in one of the ways the library has.
inline void add(Tape& t, Mod& m, const std::string& name, int tag)
{
    Sym s{Kind(t.index(5)), tag, false, 0};
    switch (s.kind)
    {
        case Kind::Struct: { auto y = make_struct(name, tag); CHECK(t.chance(1, 2) ? m.x->structure(y) : m.x->structure(std::move(y)), "a structure isn't accepted"); break; }
        case Kind::Union: { auto y = make_union(name, tag); CHECK(t.chance(1, 2) ? m.x->union_switch(y) : m.x->union_switch(std::move(y)), "a union isn't accepted"); break; }
        case Kind::Enum: CHECK(add_enum(*m.x, name, tag), "an enumeration isn't accepted"); break;
        case Kind::Alias:
        {
            auto y = make_alias(name, tag);
            switch (t.index(3))
            {
                case 0: CHECK(m.x->create_alias(xt::DynamicType::Ptr(xt::StringType(tag)), name), "an alias isn't accepted"); break;
                case 1: CHECK(m.x->add_alias(y), "an alias isn't accepted"); break;
                default: CHECK(m.x->add_alias(std::move(y)), "an alias isn't accepted");
            }
            break;
        }
        default: s.from_enum = t.chance(1, 4); CHECK(m.x->create_constant(name, make_const(tag), false, s.from_enum), "a constant isn't accepted");
    }
    m.syms[name] = s;
}

} // namespace modules
