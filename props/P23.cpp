// P23: the text of data shows every node of its tree.
#include "walk.hpp"
using namespace model;

static bool surrogate(uint32_t c) { return c >= 0xd800 && c < 0xe000; }

// Makes the wide characters valid text, also out of the basic plane
static void textify(const Ty& ty, Val& v)
{
    const Ty& t = ty.r();
    auto wide = [](uint32_t c) { c = (c & 1) ? uint32_t((uint64_t(c) * 17) % 0x110000) : c % 0x110000; return surrogate(c) ? c ^ 0x8000 : c; };
    switch (t.k)
    {
        case K::C16: if (surrogate(uint32_t(v.u))) { v.u ^= 0x8000; } break;
        case K::WC: v.u = wide(uint32_t(v.u)); break;
        case K::WStr: for (auto& c : v.s) { c = wide(c); } break;
        case K::Str16:
            for (size_t i = 0; i < v.s.size(); ++i)
            {
                if (!surrogate(v.s[i])) { continue; }
                if (i + 1 < v.s.size()) { v.s[i] = 0xd800 + (v.s[i] & 0x3ff); v.s[i + 1] = 0xdc00 + (v.s[i + 1] & 0x3ff); ++i; }
                else { v.s[i] ^= 0x8000; }
            }
            break;
        case K::Array: case K::Seq: for (auto& e : v.v) { textify(*t.c, e); } break;
        case K::Pair: textify(*t.key, v.v[0]); textify(*t.c, v.v[1]); break;
        case K::Struct: for (size_t i = 0; i < v.v.size(); ++i) { textify(*t.mem[i].ty, v.v[i]); } break;
        case K::Union: if (v.sel >= 0) { textify(*t.mem[v.sel].ty, v.v[0]); } break;
        case K::Map:
        {
            std::set<std::string> seen;
            std::vector<Val> keep;
            for (auto& e : v.v)
            {
                textify(*t.key, e.v[0]);
                textify(*t.c, e.v[1]);
                if (seen.insert(enc(*t.key, e.v[0])).second) { keep.push_back(e); }
            }
            v.v = keep;
            break;
        }
        default: break;
    }
}

static void utf8(std::string& s, uint32_t c)
{
    if (c < 0x80) { s += char(c); }
    else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
}

// The type under the aliases
static const xt::DynamicType& rx(const xt::DynamicType& t)
{
    return t.kind() == xt::TypeKind::ALIAS_TYPE ? static_cast<const xt::AliasType&>(t).rget() : t;
}

static std::string value(const Ty& t, const Val& v)
{
    std::string s;
    switch (t.k)
    {
        case K::Str: for (uint32_t c : v.s) { s += char(c); } return s;
        case K::WStr: for (uint32_t c : v.s) { utf8(s, c); } return s;
        case K::Str16:
            for (size_t i = 0; i < v.s.size(); ++i)
            {
                if (surrogate(v.s[i])) { utf8(s, 0x10000 + ((v.s[i] & 0x3ff) << 10) + (v.s[i + 1] & 0x3ff)); ++i; }
                else { utf8(s, v.s[i]); }
            }
            return s;
        case K::C8: return std::string(1, char(v.u));
        case K::C16: case K::WC: utf8(s, uint32_t(v.u)); return s;
        case K::Bool: return v.u ? "1" : "0";
        default: break;
    }
    std::ostringstream os;
    with_prim(t.k, [&](auto z)
            {
                using T = decltype(z);
                if constexpr (std::is_floating_point<T>::value) { os << T(v.f); }
                else if constexpr (std::is_signed<T>::value) { os << static_cast<long long>(T(v.u)); }
                else { os << static_cast<unsigned long long>(T(v.u)); }
            });
    return os.str();
}

static std::string text(const xt::ReadableDynamicDataRef& r, const Ty& ty, Val& v)
{
    std::vector<N> all;
    walk(all, r, ty, v, 0, 0, "", -1, "");
    std::string s;
    for (const N& n : all)
    {
        s += std::string(4 * n.deep, ' ');
        if (n.parent >= 0)
        {
            xt::TypeKind k = all[n.parent].kind;
            bool named = k == xt::TypeKind::STRUCTURE_TYPE || k == xt::TypeKind::UNION_TYPE;
            s += "[" + (named ? n.member : std::to_string(n.index)) + "] ";
        }
        if (!n.ty)
        {
            s += "<" + static_cast<const xt::MapType&>(rx(all[n.parent].ty->x())).content_type().name() + ">\n";
            continue;
        }
        const Ty& t = *n.ty;
        std::string name = rx(t.x()).name();
        switch (t.k)
        {
            case K::Array: case K::Pair: s += "<" + name + ">"; break;
            case K::Seq: case K::Map: s += "<" + name + "[" + std::to_string(n.val->v.size()) + "]>"; break;
            case K::Struct: s += "Structure: <" + name + ">"; break;
            case K::Union: s += "Union: <" + name + ">"; break;
            case K::Enum: s += "Enumeration: <" + name + ">"; break;
            default: s += "<" + name + ">  " + value(t, *n.val);
        }
        s += "\n";
    }
    return s;
}

static void compare(const std::string& got, const std::string& want, const std::string& what)
{
    if (got == want) { return; }
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) { ++i; }
    size_t from = i < 40 ? 0 : i - 40;
    CHECK(false, what << ": at character " << i << " the text has \"" << got.substr(from, 80) << "\" and should have \"" << want.substr(from, 80) << "\"");
}

static void body(Tape& t)
{
    Cfg cfg;
    cfg.pairs = true;
    cfg.depth = int(t.chance(1, 10) ? 0 : 1 + t.index(4));
    TyP ty = Gen(t, cfg).root(cfg.depth);
    NOTE(t, "type " << show(*ty));
    label_kinds(t, *ty);
    VCfg vc;
    Val v = VGen(t, vc).val(*ty);
    textify(*ty, v);
    if (unselected(*ty, v)) { t.label("nothing-selected"); return; }
    NOTE(t, "value " << enc(*ty, v));
    xt::DynamicData d = make(*ty, v);
    std::string all = text(d.cref(), *ty, v);
    compare(d.to_string(), all, "to_string()");
    compare(d.cref().to_string(), all, "to_string() of a reference");
    std::ostringstream os;
    os << d;
    compare(os.str(), all, "operator <<");
    xt::DynamicData copy(d);
    { compare(copy.to_string(), text(copy.cref(), *ty, v), "to_string() of a copy"); }
    expect(d, *ty, v, "after to_string()");
    // a part of the data
    const Ty& r = ty->r();
    if (r.k == K::Struct && !v.v.empty())
    {
        size_t i = t.index(v.v.size());
        compare(d.cref()[i].to_string(), text(d.cref()[i], *r.mem[i].ty, v.v[i]), "to_string() of a member");
    }
    if ((r.k == K::Array || r.k == K::Seq) && !v.v.empty())
    {
        size_t i = t.index(v.v.size());
        compare(d.cref()[i].to_string(), text(d.cref()[i], *r.c, v.v[i]), "to_string() of an element");
    }
    if (std::count(all.begin(), all.end(), '\n') > 1) { t.nontrivial(); }
    t.label("shown");
}

// ---- regressions
static void bytes()
{
    TyP s = strct("S", {Mem{"a", prim(K::I8), {}, false}, Mem{"b", prim(K::U8), {}, false}});
    xt::DynamicData d(s->x());
    d["a"] = int8_t(-5);
    d["b"] = uint8_t(65);
    compare(d.to_string(), "Structure: <S>\n    [a] <int8_t>  -5\n    [b] <uint8_t>  65\n", "8-bit integers");
}
static void unions()
{
    TyP u = unio("U", prim(K::I32), {Mem{"a", prim(K::I32), {1}, false}});
    xt::DynamicData d(u->x());
    d["a"] = 3;
    compare(d.to_string(), "Union: <U>\n    [a] <int32_t>  3\n", "union");
    xt::MapType map(xt::primitive_type<int32_t>(), xt::primitive_type<int32_t>());
    xt::DynamicData m(map), k(xt::primitive_type<int32_t>());
    k = 2;
    m[k] = 4;
    compare(m.to_string(), "<" + map.name() + "[1]>\n    [0] <" + map.content_type().name() + ">\n        [0] <int32_t>  2\n        [1] <int32_t>  4\n", "map");
}
static void wide()
{
    xt::WStringType type;
    xt::DynamicData d(type);
    d = std::wstring(L"a\u20ac\U0001F600");
    compare(d.to_string(), "<std::wstring>  a\xe2\x82\xac\xf0\x9f\x98\x80\n", "wide string");
    xt::DynamicData c(xt::primitive_type<wchar_t>());
    c = wchar_t(0x1F600);
    compare(c.to_string(), "<" + xt::primitive_type<wchar_t>().name() + ">  \xf0\x9f\x98\x80\n", "wide character");
    c = wchar_t(0x20ac);
    compare(c.to_string(), "<" + xt::primitive_type<wchar_t>().name() + ">  \xe2\x82\xac\n", "wide character");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P23";
    p.rule = "case: a random type and value (its wide characters made valid text); to_string() of the data, of a reference, of a copy and of one of its parts, and operator <<, against the text written from the tree "
        "of the model. Non-trivial: more than one line.";
    p.body = body;
    p.quick_cases = 200000;
    p.thorough_cases = 8000000;
    p.regressions = {
        {"R-bytes", "integers of 8 bits are shown as numbers", bytes},
        {"R-unions", "unions and pairs are shown", unions},
        {"R-wide", "wide characters are shown as they are", wide},
    };
    return pbt::run_main(argc, argv, p);
}
