// A reference model of xtypes: types (Ty) and values (Val) written without looking at how the library stores
// them, generators for both, and the functions that carry a model value into the library and back, through
// the public API only.
#pragma once
#include "pbt.hpp"
#include <xtypes/xtypes.hpp>
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model {

namespace xt = eprosima::xtypes;
using pbt::Tape;

enum class K { Bool, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC,
               Str, WStr, Str16, Enum, Array, Seq, Map, Struct, Union, Alias, Pair };

inline bool is_prim(K k) { return k <= K::WC; }
inline bool is_float(K k) { return k == K::F32 || k == K::F64 || k == K::F128; }
inline bool is_string(K k) { return k == K::Str || k == K::WStr || k == K::Str16; }
inline bool is_leaf(K k) { return k <= K::Enum; }

struct Ty;
using TyP = std::shared_ptr<const Ty>;

struct Mem
{
    std::string name;
    TyP ty;
    std::vector<int64_t> labels;   // unions
    bool dflt = false;             // unions
};

struct Ty
{
    K k;
    std::string name;              // user name, where the kind has one
    TyP c;                         // content, alias target, map value, pair second, union discriminator
    TyP key;                       // map key, pair first
    uint32_t bound = 0;            // or array dimension
    std::vector<Mem> mem;          // struct members in order (inherited first), union cases
    TyP parent;                    // struct parent
    unsigned ebytes = 4;
    std::vector<std::pair<std::string, uint64_t>> en;
    std::shared_ptr<xt::DynamicType> sh;
    std::unique_ptr<xt::DynamicType> un;

    const xt::DynamicType& x() const;
    const Ty& r() const { return k == K::Alias ? c->r() : *this; }
};

template<class F>
decltype(auto) with_prim(K k, F&& f)
{
    switch (k)
    {
        case K::Bool: return f(bool());
        case K::I8: return f(int8_t());
        case K::U8: return f(uint8_t());
        case K::I16: return f(int16_t());
        case K::U16: return f(uint16_t());
        case K::I32: return f(int32_t());
        case K::U32: return f(uint32_t());
        case K::I64: return f(int64_t());
        case K::U64: return f(uint64_t());
        case K::F32: return f(float());
        case K::F64: return f(double());
        case K::F128: return f((long double)0);
        case K::C8: return f(char());
        case K::C16: return f(char16_t());
        default: return f(wchar_t());
    }
}

template<class F>
decltype(auto) with_str(K k, F&& f)
{
    switch (k)
    {
        case K::Str: return f(std::string());
        case K::WStr: return f(std::wstring());
        default: return f(std::u16string());
    }
}

template<class F>
decltype(auto) with_enum(unsigned bytes, F&& f)
{
    switch (bytes)
    {
        case 1: return f(uint8_t());
        case 2: return f(uint16_t());
        default: return f(uint32_t());
    }
}

inline const xt::DynamicType& Ty::x() const
{
    if (is_prim(k))
    {
        return with_prim(k, [](auto t) -> const xt::DynamicType& { return xt::primitive_type<decltype(t)>(); });
    }
    return sh ? *sh : *un;
}

inline size_t prim_size(K k) { return with_prim(k, [](auto t) { return sizeof(t); }); }

// ------------------------------------------------------------------------------------------- printing types

inline const char* kname(K k)
{
    static const char* n[] = {"bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64",
        "float", "double", "longdouble", "char", "char16", "wchar", "string", "wstring", "u16string", "enum",
        "array", "sequence", "map", "struct", "union", "alias", "pair"};
    return n[int(k)];
}

inline std::string show(const Ty& t, bool deep = true)
{
    std::ostringstream os;
    switch (t.k)
    {
        case K::Str: case K::WStr: case K::Str16:
            os << kname(t.k); if (t.bound) { os << "<" << t.bound << ">"; } break;
        case K::Enum:
        {
            os << "enum" << 8 * t.ebytes << " " << t.name;
            if (deep) { os << "{"; for (auto& e : t.en) { os << e.first << "=" << e.second << ","; } os << "}"; }
            break;
        }
        case K::Array: os << show(*t.c, deep) << "[" << t.bound << "]"; break;
        case K::Seq: os << "seq<" << show(*t.c, deep); if (t.bound) { os << "," << t.bound; } os << ">"; break;
        case K::Map: os << "map<" << show(*t.key, deep) << "," << show(*t.c, deep); if (t.bound) { os << "," << t.bound; } os << ">"; break;
        case K::Pair: os << "pair<" << show(*t.key, deep) << "," << show(*t.c, deep) << ">"; break;
        case K::Struct:
            os << "struct " << t.name;
            if (t.parent) { os << ":" << t.parent->name; }
            if (deep) { os << "{"; for (auto& m : t.mem) { os << m.name << ":" << show(*m.ty, deep) << ";"; } os << "}"; }
            break;
        case K::Union:
            os << "union " << t.name;
            if (deep)
            {
                os << " switch(" << show(*t.c, deep) << "){";
                for (auto& m : t.mem)
                {
                    for (int64_t l : m.labels) { os << l << ","; }
                    if (m.dflt) { os << "default"; }
                    os << ":" << m.name << ":" << show(*m.ty, deep) << ";";
                }
                os << "}";
            }
            break;
        case K::Alias: os << "alias " << t.name << "=" << show(*t.c, deep); break;
        default: os << kname(t.k);
    }
    return os.str();
}

// ------------------------------------------------------------------------------------------- building types

struct TyOpt { bool shared = true; };

inline void hold(Ty& t, std::shared_ptr<xt::DynamicType> p) { t.sh = std::move(p); }

template<class T, class... A>
void emplace(Ty& t, bool shared, A&&... a)
{
    if (shared) { t.sh = std::make_shared<T>(std::forward<A>(a)...); }
    else { t.un.reset(new T(std::forward<A>(a)...)); }
}

inline TyP prim(K k)
{
    auto t = std::make_shared<Ty>();
    t->k = k;
    return t;
}
inline TyP str(K k, uint32_t bound = 0, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = k; t->bound = bound;
    if (k == K::Str) { emplace<xt::StringType>(*t, shared, int(bound)); }
    else if (k == K::WStr) { emplace<xt::WStringType>(*t, shared, int(bound)); }
    else { emplace<xt::String16Type>(*t, shared, int(bound)); }
    return t;
}
inline TyP enm(const std::string& name, unsigned bytes, const std::vector<std::pair<std::string, uint64_t>>& en, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = K::Enum; t->name = name; t->ebytes = bytes; t->en = en;
    with_enum(bytes, [&](auto z)
            {
                using T = decltype(z);
                emplace<xt::EnumerationType<T>>(*t, shared, name);
                auto& e = static_cast<xt::EnumerationType<T>&>(shared ? *t->sh : *t->un);
                for (auto& p : en) { e.add_enumerator(p.first, T(p.second)); }
            });
    return t;
}
inline TyP arr(TyP c, uint32_t dim, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = K::Array; t->c = c; t->bound = dim;
    emplace<xt::ArrayType>(*t, shared, c->x(), dim);
    return t;
}
inline TyP seq(TyP c, uint32_t bound = 0, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = K::Seq; t->c = c; t->bound = bound;
    emplace<xt::SequenceType>(*t, shared, c->x(), bound);
    return t;
}
inline TyP mp(TyP key, TyP c, uint32_t bound = 0, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = K::Map; t->key = key; t->c = c; t->bound = bound;
    emplace<xt::MapType>(*t, shared, key->x(), c->x(), bound);
    return t;
}
inline TyP pr(TyP key, TyP c, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = K::Pair; t->key = key; t->c = c;
    emplace<xt::PairType>(*t, shared, key->x(), c->x());
    return t;
}
// own: the members this struct adds to those of its parent
inline TyP strct(const std::string& name, const std::vector<Mem>& own, TyP parent = nullptr, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = K::Struct; t->name = name; t->parent = parent;
    if (parent) { t->mem = parent->mem; }
    emplace<xt::StructType>(*t, shared, name, parent ? static_cast<const xt::StructType*>(&parent->x()) : nullptr);
    auto& s = static_cast<xt::StructType&>(shared ? *t->sh : *t->un);
    for (auto& m : own)
    {
        s.add_member(m.name, m.ty->x());
        t->mem.push_back(m);
    }
    return t;
}
inline TyP unio(const std::string& name, TyP disc, const std::vector<Mem>& cases, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = K::Union; t->name = name; t->c = disc;
    emplace<xt::UnionType>(*t, shared, name, disc->x());
    auto& u = static_cast<xt::UnionType&>(shared ? *t->sh : *t->un);
    for (auto& m : cases)
    {
        u.add_case_member<int64_t>(m.labels, m.name, m.ty->x(), m.dflt);
        t->mem.push_back(m);
    }
    return t;
}
inline TyP alias(TyP c, const std::string& name, bool shared = true)
{
    auto t = std::make_shared<Ty>();
    t->k = K::Alias; t->name = name; t->c = c;
    emplace<xt::AliasType>(*t, shared, c->x(), name);
    return t;
}

// ------------------------------------------------------------------------------------------- generating types

struct Cfg
{
    int depth = 3;
    unsigned max_members = 4;
    bool enums = true, arrays = true, seqs = true, maps = true, structs = true, unions = true, aliases = true;
    bool pairs = false, strings = true, floats = true, small_enums = true, inherit = true, empty_struct = true;
    bool bounded = true;
    bool unshared = true;          // also build types that no shared_ptr owns
    bool bool_disc = true;
    bool float_keys = false;
    bool odd_names = true;
    int sep = 0;
    bool deep = true;               // chains of more than 24 levels, now and then
};

struct Gen
{
    Tape& t;
    Cfg cfg;
    int counter = 0;
    Gen(Tape& tape, Cfg c = Cfg()) : t(tape), cfg(c) {}

    bool sh() { return !cfg.unshared || !t.chance(1, 4); }
    std::string fresh(const char* p) { return p + std::to_string(counter++); }

    K prim_kind()
    {
        static const std::vector<K> all = {K::I32, K::Bool, K::U8, K::I8, K::I16, K::U16, K::U32, K::I64, K::U64,
            K::C8, K::C16, K::WC, K::F32, K::F64, K::F128};
        return all[t.index(cfg.floats ? 15 : 12)];
    }
    TyP enumeration()
    {
        static const unsigned bytes[] = {4, 1, 2};
        unsigned b = bytes[t.index(cfg.small_enums ? 3 : 1)];
        size_t n = 1 + t.index(4);
        if (t.chance(1, 30)) { n = 5 + t.index(46); }
        std::vector<std::pair<std::string, uint64_t>> en;
        uint64_t next = 0;
        std::string nm = fresh("E");
        for (size_t i = 0; i < n; ++i)
        {
            uint64_t v = next + (n < 6 && t.chance(1, 3) ? t.below(40) : 0);
            en.push_back({nm + "_" + std::to_string(i), v});
            next = v + 1;
        }
        return enm(nm, b, en, sh());
    }
    TyP string()
    {
        static const K ks[] = {K::Str, K::WStr, K::Str16};
        K k = ks[t.weighted({6, 2, 2})];
        uint32_t bound = 0;
        if (cfg.bounded && t.chance(1, 3)) { bound = uint32_t(1 + t.below(24)); if (t.chance(1, 10)) { bound = uint32_t(30 + t.below(t.chance(1, 10) ? 70000 : 300)); } }
        return str(k, bound, sh());
    }
    TyP leaf()
    {
        switch (t.weighted({6, cfg.strings ? 3u : 0u, cfg.enums ? 1u : 0u}))
        {
            case 1: return string();
            case 2: return enumeration();
            default: return prim(prim_kind());
        }
    }
    std::string member_name(size_t i)
    {
        if (cfg.odd_names && t.chance(1, 12))
        {
            static const char* odd[] = {"_", "value", "x y", "size", "0", "m.n", "d"};
            return odd[t.index(7)] + std::to_string(i);
        }
        return "m" + std::to_string(i);
    }
    TyP structure(int depth, bool allow_parent = true)
    {
        TyP parent;
        if (allow_parent && cfg.inherit && t.chance(1, 5)) { parent = structure(depth > 1 ? depth - 1 : 1, t.chance(1, 3)); }
        size_t lo = (cfg.empty_struct && t.chance(1, 20)) ? 0 : 1;
        size_t n = lo == 0 ? 0 : 1 + t.index(cfg.max_members);
        if (depth <= 1 && t.chance(1, 20)) { n = 5 + t.index(t.chance(1, 10) ? 80 : 12); }
        std::vector<Mem> own;
        size_t base = parent ? parent->mem.size() : 0;
        for (size_t i = 0; i < n; ++i) { Mem m; m.name = member_name(base + i); m.ty = type(depth - 1); own.push_back(m); }
        return strct(fresh("S"), own, parent, sh());
    }
    // labels that the discriminator can hold and that the library does not reserve
    std::vector<int64_t> label_pool(const Ty& d)
    {
        switch (d.r().k)
        {
            case K::Bool: return {0, 1};
            case K::Enum:
            {
                std::vector<int64_t> v;
                // (the two highest values of an 8-bit discriminator are reserved by the library)
                for (auto& e : d.r().en) { if (d.r().ebytes > 1 || (e.second != 126 && e.second != 127)) { v.push_back(int64_t(e.second)); } }
                return v;
            }
            case K::C8: return {'a', 'b', 'z', '0', ' ', 'A', '~' - 1};
            case K::I8: return {0, 1, 2, 3, 100, 125, -1, -2, -128};
            case K::U8: return {0, 1, 2, 3, 100, 125, 128, 200, 255};
            case K::I16: return {0, 1, 2, 3, 100, 126, 127, 300, -1, -300, -32768};
            case K::U16: case K::C16: return {0, 1, 2, 3, 100, 126, 127, 300, 40000, 65535};
            case K::U32: return {0, 1, 2, 3, 100, 127, 70000, 4000000000LL, 4294967295LL};
            case K::I64: return {0, 1, 2, 3, 127, 70000, -1, int64_t(1) << 40, INT64_MIN};
            case K::U64: return {0, 1, 2, 3, 127, 70000, int64_t(1) << 40, int64_t(1) << 62};
            case K::WC: return {0, 1, 2, 3, 'a', 126, 127, 300, 70000};
            default: return {0, 1, 2, 3, 100, 126, 127, 70000, -1, -70000, INT32_MIN};
        }
    }
    TyP disc_type()
    {
        static const std::vector<K> ks = {K::I32, K::I16, K::I64, K::U16, K::U32, K::U64, K::C8, K::I8, K::U8, K::C16, K::WC, K::Bool};
        TyP d;
        if (cfg.enums && t.chance(1, 4)) { d = enumeration(); }
        else { d = prim(ks[t.index(cfg.bool_disc ? 12 : 11)]); }
        if (cfg.aliases && t.chance(1, 8)) { d = alias(d, fresh("A"), sh()); }
        return d;
    }
    TyP union_(int depth)
    {
        TyP d = disc_type();
        std::vector<int64_t> pool = label_pool(*d);
        size_t n = 1 + t.index(4);
        if (depth <= 1 && t.chance(1, 10)) { n = 5 + t.index(6); }
        std::vector<Mem> cases;
        bool has_default = false;
        for (size_t i = 0; i < n; ++i)
        {
            Mem m;
            m.name = member_name(i);
            if (m.name == "discriminator") { m.name = "m"; }
            size_t nl = 1 + (t.chance(1, 4) ? t.index(3) : 0);
            bool dflt = !has_default && d->r().k != K::Bool && t.chance(1, 6);
            if (dflt && t.chance(1, 2)) { nl = 0; }
            for (size_t j = 0; j < nl && !pool.empty(); ++j)
            {
                size_t ix = t.index(pool.size());
                m.labels.push_back(pool[ix]);
                pool.erase(pool.begin() + ix);
            }
            if (m.labels.empty() && !dflt) { break; }
            m.dflt = dflt;
            has_default |= dflt;
            m.ty = type(depth - 1);
            cases.push_back(m);
        }
        return unio(fresh("U"), d, cases, sh());
    }
    TyP key_type(int depth)
    {
        bool f = cfg.floats, u = cfg.unions, m = cfg.maps;
        cfg.floats = cfg.float_keys; cfg.unions = false; cfg.maps = false;
        TyP r = t.chance(3, 4) ? leaf() : type(std::min(depth, 2));
        cfg.floats = f; cfg.unions = u; cfg.maps = m;
        return r;
    }
    // (bounded collections reserve all their memory)
    uint32_t collection_bound(int depth, uint64_t one_in)
    {
        if (!cfg.bounded || !t.chance(1, one_in)) { return 0; }
        if (depth > 1 || !t.chance(1, 12)) { return uint32_t(1 + t.below(6)); }
        return uint32_t(7 + t.below(t.chance(1, 10) ? 3000 : 60));
    }
    TyP type(int depth)
    {
        if (depth <= 0) { return leaf(); }
        switch (t.weighted({5, cfg.structs ? 4u : 0u, cfg.seqs ? 3u : 0u, cfg.arrays ? 2u : 0u, cfg.maps ? 2u : 0u,
                cfg.unions ? 2u : 0u, cfg.aliases ? 1u : 0u, cfg.pairs ? 1u : 0u}))
        {
            case 1: return structure(depth);
            case 2:
            {
                TyP c = type(depth - 1);
                return seq(c, collection_bound(depth, 2), sh());
            }
            case 3:
            {
                bool wide = depth <= 1 && t.chance(1, 10);
                TyP c = type(depth - 1);
                uint32_t dim = wide ? uint32_t(5 + t.below(t.chance(1, 10) ? 300 : 36)) : uint32_t(1 + t.below(4));
                return arr(c, dim, sh());
            }
            case 4:
            {
                TyP k = key_type(depth - 1), c = type(depth - 1);
                return mp(k, c, collection_bound(depth, 3), sh());
            }
            case 5: return union_(depth);
            case 6: return alias(type(depth - 1), fresh("A"), sh());
            case 7: return pr(type(depth - 1), type(depth - 1), sh());
            default: return leaf();
        }
    }
    // The same, and now and then much deeper (up to 300 levels): a chain of types of one element each
    TyP root(int depth)
    {
        if (!t.chance(1, 50)) { return type(depth); }
        TyP y = type(std::min(depth, 1));
        size_t levels = !cfg.deep ? 4 + t.index(20) : t.chance(1, 25) ? 120 + t.index(180) : 4 + t.index(t.chance(1, 4) ? 60 : 16);
        // (a collection may be empty, which ends the data there)
        unsigned col = levels >= 120 && t.chance(3, 4) ? 0 : 1;
        for (; levels > 0; --levels)
        {
            switch (t.weighted({4, 2 * col, 2, 1 * col, 1, 1, 1}))
            {
                case 0:
                {
                    std::vector<Mem> own(1 + t.index(2));
                    size_t at = t.index(own.size());
                    for (size_t i = 0; i < own.size(); ++i) { own[i].name = member_name(i); own[i].ty = i == at ? y : leaf(); }
                    y = strct(fresh("S"), own, nullptr, sh());
                    break;
                }
                case 1: y = seq(y, 1, sh()); break;
                case 2: y = arr(y, 1, sh()); break;
                case 3: y = mp(prim(K::U16), y, 1, sh()); break;
                case 4:
                {
                    std::vector<Mem> cases(1);
                    cases[0].name = "u"; cases[0].ty = y; cases[0].labels = {1};
                    y = unio(fresh("U"), prim(K::I32), cases, sh());
                    break;
                }
                case 5: y = cfg.pairs ? pr(leaf(), y, sh()) : arr(y, 1, sh()); break;
                default: y = alias(y, fresh("A"), sh());
            }
        }
        return y;
    }
};

// ------------------------------------------------------------------------------------------- values

struct Val
{
    uint64_t u = 0;                 // integers, characters, bool, enum value (two's complement); union: discriminator
    long double f = 0;
    std::vector<uint32_t> s;        // code units of strings
    std::vector<Val> v;             // array, sequence, struct, pair {first, second}; map: pairs; union: payload
    int sel = -1;                   // union: index of the selected case, or -1
};

inline std::string encf(long double f)
{
    if (f != f) { return "nan"; }
    if (f == 0) { f = 0; }
    char b[64];
    snprintf(b, sizeof b, "%La", f);
    return b;
}

// Canonical text of a value: two values of one type are the same exactly when the texts are.  The
// discriminator of a union is left out (its model value may be unknown); it is compared separately.
inline std::string enc(const Ty& ty, const Val& v)
{
    const Ty& t = ty.r();
    switch (t.k)
    {
        case K::F32: case K::F64: case K::F128: return encf(v.f);
        case K::Str: case K::WStr: case K::Str16:
        {
            std::string o = "\"";
            for (uint32_t c : v.s)
            {
                if (c >= 32 && c < 127 && c != '"' && c != '\\') { o += char(c); }
                else { char b[16]; snprintf(b, sizeof b, "\\x%x;", c); o += b; }
            }
            return o + "\"";
        }
        case K::Array: case K::Seq:
        {
            std::string o = "[";
            for (auto& e : v.v) { o += enc(*t.c, e) + ","; }
            return o + "]";
        }
        case K::Map:
        {
            std::vector<std::string> es;
            for (auto& e : v.v) { es.push_back(enc(*t.key, e.v[0]) + "=>" + enc(*t.c, e.v[1])); }
            std::sort(es.begin(), es.end());
            std::string o = "{";
            for (auto& e : es) { o += e + ","; }
            return o + "}";
        }
        case K::Pair: return "(" + enc(*t.key, v.v[0]) + "," + enc(*t.c, v.v[1]) + ")";
        case K::Struct:
        {
            std::string o = "{";
            for (size_t i = 0; i < t.mem.size(); ++i) { o += t.mem[i].name + ":" + enc(*t.mem[i].ty, v.v[i]) + ";"; }
            return o + "}";
        }
        case K::Union:
            if (v.sel < 0) { return "<none>"; }
            return "<" + t.mem[v.sel].name + ":" + enc(*t.mem[v.sel].ty, v.v[0]) + ">";
        default:
        {
            std::ostringstream os;
            os << int64_t(v.u);
            return os.str();
        }
    }
}

inline bool same(const Ty& t, const Val& a, const Val& b) { return enc(t, a) == enc(t, b); }

// The value the type gives to data that nobody has written.
inline Val dflt(const Ty& ty)
{
    const Ty& t = ty.r();
    Val v;
    switch (t.k)
    {
        case K::Array: for (uint32_t i = 0; i < t.bound; ++i) { v.v.push_back(dflt(*t.c)); } break;
        case K::Struct: for (auto& m : t.mem) { v.v.push_back(dflt(*m.ty)); } break;
        case K::Pair: v.v.push_back(dflt(*t.key)); v.v.push_back(dflt(*t.c)); break;
        case K::Union:
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                if (t.mem[i].dflt) { v.sel = int(i); v.v.push_back(dflt(*t.mem[i].ty)); }
            }
            break;
        default: break;
    }
    return v;
}

template<class T> uint64_t to_u(T x) { return uint64_t(int64_t(x)); }
template<> inline uint64_t to_u<uint64_t>(uint64_t x) { return x; }

struct VCfg { bool unselected = false; size_t max_items = 5; size_t max_str = 24; bool big = true; };

struct VGen
{
    Tape& t;
    VCfg cfg;
    VGen(Tape& tape, VCfg c = VCfg()) : t(tape), cfg(c) {}
    int nesting = 0;

    // Most collections are small; now and then one (and never a nested one) is large.
    size_t items_cap()
    {
        if (cfg.big && nesting <= 1 && t.chance(1, 40)) { nesting += 10; return 60; }
        return nesting >= 3 ? std::min<size_t>(cfg.max_items, 2) : cfg.max_items;
    }

    Val leaf(const Ty& ty)
    {
        const Ty& r = ty.r();
        Val v;
        if (is_prim(r.k))
        {
            with_prim(r.k, [&](auto z)
                    {
                        using T = decltype(z);
                        if constexpr (std::is_same<T, bool>::value) { v.u = t.below(2); }
                        else if constexpr (std::is_floating_point<T>::value)
                        {
                            switch (t.weighted({8, 4, 2, 1}))
                            {
                                case 0: v.f = T(t.range(-50, 50)); break;
                                case 1: v.f = T(t.range(-1000000, 1000000)) / T(1024); break;
                                case 2:
                                {
                                    static const long double sp[] = {3.4e38L, -3.4e38L, 1.17549435e-38L, 1e-45L, 0.1L, 1e30L, 16777217.0L, 4294967296.0L};
                                    v.f = T(sp[t.index(8)]);
                                    break;
                                }
                                default: // values that a narrower type does not hold
                                {
                                    using L = std::numeric_limits<T>;
                                    static const T sp[] = {L::max(), L::lowest(), L::denorm_min(), L::min(), L::infinity(), -L::infinity(),
                                        T(1) + L::epsilon(), L::max() / 1024, L::min() * 1024};
                                    v.f = sp[t.index(9)];
                                    if (t.chance(1, 3)) { v.f = T(std::ldexp((long double)t.bits(), int(t.index(100)) - 80)); }
                                }
                            }
                        }
                        else
                        {
                            switch (t.weighted({4, 2, 1}))
                            {
                                case 0: v.u = to_u(T(t.below(100))); break;
                                case 1: v.u = to_u(T(t.bits())); break;
                                default:
                                {
                                    static const int64_t lim[] = {-1, 0, 127, 128, 255, -128, 32767, 65535, -32768,
                                        2147483647LL, 4294967295LL, -2147483648LL, INT64_MAX, INT64_MIN};
                                    v.u = to_u(T(lim[t.index(14)]));
                                }
                            }
                        }
                    });
        }
        else if (is_string(r.k))
        {
            size_t cap = r.bound ? std::min<size_t>(r.bound, cfg.max_str) : cfg.max_str;
            size_t n = t.chance(1, 3) ? t.index(cap + 1) : t.index(std::min<size_t>(cap, 5) + 1);
            if (cfg.big && t.chance(1, 25)) { n = 30 + t.index(200); if (r.bound) { n = std::min<size_t>(n, r.bound); } }
            if (cfg.big && t.chance(1, 1500))
            {
                // a text of any length, from one choice
                n = t.index(t.chance(1, 3) ? 80000 : 6000);
                if (r.bound) { n = std::min<size_t>(n, r.bound); }
                uint32_t x = uint32_t(t.bits()) | 1;
                for (size_t i = 0; i < n; ++i)
                {
                    x = x * 1664525u + 1013904223u;
                    v.s.push_back(r.k == K::Str ? (x >> 24) : (x >> 16));
                }
                n = 0;
            }
            for (size_t i = 0; i < n; ++i)
            {
                uint32_t c;
                switch (t.weighted({8, 1, 1}))
                {
                    case 0: c = uint32_t('a' + t.index(26)); break;
                    case 1: c = uint32_t(t.index(128)); break;
                    default: c = r.k == K::Str ? uint32_t(128 + t.index(128)) : uint32_t(1 + t.index(0xffff));
                }
                v.s.push_back(c);
            }
        }
        else
        {
            v.u = r.en[t.index(r.en.size())].second;
        }
        return v;
    }
    Val val(const Ty& ty)
    {
        const Ty& r = ty.r();
        if (is_leaf(r.k)) { return leaf(r); }
        struct Nest { int& n; int old; Nest(int& x) : n(x), old(x) { ++n; } ~Nest() { n = old; } } nest(nesting);
        Val v;
        switch (r.k)
        {
            case K::Array: for (uint32_t i = 0; i < r.bound; ++i) { v.v.push_back(val(*r.c)); } break;
            case K::Struct: for (auto& m : r.mem) { v.v.push_back(val(*m.ty)); } break;
            case K::Pair: v.v.push_back(val(*r.key)); v.v.push_back(val(*r.c)); break;
            case K::Seq:
            {
                size_t items = items_cap();
                size_t cap = r.bound ? std::min<size_t>(r.bound, items) : items;
                size_t n = t.index(cap + 1);
                for (size_t i = 0; i < n; ++i) { v.v.push_back(val(*r.c)); }
                break;
            }
            case K::Map:
            {
                size_t items = items_cap();
                size_t cap = r.bound ? std::min<size_t>(r.bound, items) : items;
                size_t n = t.index(cap + 1);
                std::set<std::string> seen;
                for (size_t i = 0; i < n; ++i)
                {
                    Val e;
                    e.v.push_back(val(*r.key));
                    if (!seen.insert(enc(*r.key, e.v[0])).second) { continue; }
                    e.v.push_back(val(*r.c));
                    v.v.push_back(e);
                }
                break;
            }
            case K::Union:
                if (r.mem.empty() || (cfg.unselected && t.chance(1, 8))) { return dflt(r); }
                v.sel = int(t.index(r.mem.size()));
                v.v.push_back(val(*r.mem[v.sel].ty));
                break;
            default: break;
        }
        return v;
    }
};

// ------------------------------------------------------------------------------------------- model <-> library

template<class S> S to_str(const Val& v)
{
    S s;
    for (uint32_t c : v.s) { s.push_back(typename S::value_type(c)); }
    return s;
}
template<class S> Val from_str(const S& s)
{
    Val v;
    for (auto c : s)
    {
        v.s.push_back(uint32_t(typename std::make_unsigned<typename std::conditional<std::is_same<typename S::value_type, wchar_t>::value, int32_t,
                typename std::conditional<std::is_same<typename S::value_type, char16_t>::value, uint16_t, char>::type>::type>::type(c)));
    }
    return v;
}

template<class T> T to_prim(const Val& v)
{
    if constexpr (std::is_floating_point<T>::value) { return T(v.f); }
    else { return T(v.u); }
}
template<class T> Val from_prim(T x)
{
    Val v;
    if constexpr (std::is_floating_point<T>::value) { v.f = x; }
    else { v.u = to_u(x); }
    return v;
}

inline xt::DynamicData make(const Ty& ty, const Val& v);

inline void write_leaf(xt::WritableDynamicDataRef w, const Ty& ty, const Val& v, bool by_assign = false)
{
    const Ty& t = ty.r();
    if (is_prim(t.k))
    {
        with_prim(t.k, [&](auto z)
                {
                    using T = decltype(z);
                    T x = to_prim<T>(v);
                    if (by_assign) { w = x; } else { w.value<T>(x); }
                });
    }
    else if (is_string(t.k))
    {
        with_str(t.k, [&](auto z)
                {
                    using T = decltype(z);
                    if (by_assign) { w = to_str<T>(v); } else { w.value<T>(to_str<T>(v)); }
                });
    }
    else
    {
        with_enum(t.ebytes, [&](auto z) { using T = decltype(z); if (by_assign) { w = T(v.u); } else { w.value<T>(T(v.u)); } });
    }
}

// Gives value v to data that is in its default state.
inline void write(xt::WritableDynamicDataRef w, const Ty& ty, const Val& v)
{
    const Ty& t = ty.r();
    // data of an enumeration that nobody has written holds 0, which may not be one of its values
    if (t.k == K::Enum && v.u == 0) { return; }
    if (is_leaf(t.k)) { write_leaf(w, t, v); return; }
    switch (t.k)
    {
        case K::Array: for (size_t i = 0; i < v.v.size(); ++i) { write(w[i], *t.c, v.v[i]); } break;
        case K::Struct: for (size_t i = 0; i < v.v.size(); ++i) { write(w[t.mem[i].name], *t.mem[i].ty, v.v[i]); } break;
        case K::Pair: write(w[0], *t.key, v.v[0]); write(w[1], *t.c, v.v[1]); break;
        case K::Seq:
            for (auto& e : v.v) { xt::DynamicData d = make(*t.c, e); w.push(d); }
            break;
        case K::Map:
            for (auto& e : v.v) { xt::DynamicData k = make(*t.key, e.v[0]); write(w[k], *t.c, e.v[1]); }
            break;
        case K::Union:
            if (v.sel >= 0) { write(w[t.mem[v.sel].name], *t.mem[v.sel].ty, v.v[0]); }
            break;
        default: break;
    }
}

inline xt::DynamicData make(const Ty& ty, const Val& v)
{
    xt::DynamicData d(ty.x());
    write(d.ref(), ty, v);
    return d;
}

inline Val read_leaf(const xt::ReadableDynamicDataRef& r, const Ty& ty)
{
    const Ty& t = ty.r();
    if (is_prim(t.k)) { return with_prim(t.k, [&](auto z) { using T = decltype(z); return from_prim<T>(r.value<T>()); }); }
    if (is_string(t.k)) { return with_str(t.k, [&](auto z) { using T = decltype(z); return from_str<T>(r.value<T>()); }); }
    return with_enum(t.ebytes, [&](auto z) { using T = decltype(z); return from_prim<T>(r.value<T>()); });
}

inline uint64_t read_disc(const xt::ReadableDynamicDataRef& r, const Ty& ty)
{
    const Ty& d = ty.r().c->r();
    xt::ReadableDynamicDataRef x = r.d();
    if (d.k == K::Bool) { return 0; }   // an unlabelled default is stored as no bool at all: see DESIGN.md
    return read_leaf(x, d).u;
}

inline uint64_t mask_label(const Ty& disc, uint64_t l)
{
    const Ty& d = disc.r();
    size_t n = d.k == K::Enum ? d.ebytes : prim_size(d.k);
    return n >= 8 ? l : (l & ((uint64_t(1) << (8 * n)) - 1));
}

inline std::string join(const std::string& p, const std::string& q) { return p + "/" + q; }

// Reconstructs the value through the read-only API.  Also checks what must hold inside one value (a union's
// discriminator belongs to its selected case, sizes are what iteration finds).
inline Val read(const xt::ReadableDynamicDataRef& r, const Ty& ty, const std::string& path = "")
{
    const Ty& t = ty.r();
    if (is_leaf(t.k)) { return read_leaf(r, t); }
    Val v;
    switch (t.k)
    {
        case K::Array:
            CHECK(r.size() == t.bound, path << ": array size " << r.size() << ", declared " << t.bound);
            for (size_t i = 0; i < t.bound; ++i) { v.v.push_back(read(r[i], *t.c, join(path, std::to_string(i)))); }
            break;
        case K::Struct:
            CHECK(r.size() == t.mem.size(), path << ": struct size " << r.size() << ", declared " << t.mem.size());
            for (auto& m : t.mem) { v.v.push_back(read(r[m.name], *m.ty, join(path, m.name))); }
            break;
        case K::Pair:
            v.v.push_back(read(r[0], *t.key, join(path, "first")));
            v.v.push_back(read(r[1], *t.c, join(path, "second")));
            break;
        case K::Seq:
        {
            size_t n = r.size();
            CHECK(t.bound == 0 || n <= t.bound, path << ": sequence of " << n << " elements exceeds its bound " << t.bound);
            for (size_t i = 0; i < n; ++i) { v.v.push_back(read(r[i], *t.c, join(path, std::to_string(i)))); }
            break;
        }
        case K::Map:
        {
            size_t n = r.size();
            CHECK(t.bound == 0 || n <= t.bound, path << ": map of " << n << " entries exceeds its bound " << t.bound);
            for (auto it = r.begin(); it != r.end(); ++it)
            {
                xt::ReadableDynamicDataRef p = *it;
                Val e;
                e.v.push_back(read(p[0], *t.key, join(path, "key")));
                e.v.push_back(read(p[1], *t.c, join(path, "value")));
                v.v.push_back(e);
            }
            CHECK(v.v.size() == n, path << ": map size " << n << " but iteration yields " << v.v.size());
            break;
        }
        case K::Union:
        {
            std::string name;
            try { name = r.current_case().name(); }
            catch (const std::runtime_error&) { return v; }
            for (size_t i = 0; i < t.mem.size(); ++i) { if (t.mem[i].name == name) { v.sel = int(i); } }
            CHECK(v.sel >= 0, path << ": current_case() is '" << name << "', which the union does not have");
            v.u = read_disc(r, t);
            if (t.c->r().k != K::Bool)
            {
                bool own = false, others = false;
                for (size_t i = 0; i < t.mem.size(); ++i)
                {
                    for (int64_t l : t.mem[i].labels)
                    {
                        if (mask_label(*t.c, uint64_t(l)) == mask_label(*t.c, v.u)) { (int(i) == v.sel ? own : others) = true; }
                    }
                }
                CHECK(own || (t.mem[v.sel].dflt && !others),
                        path << ": discriminator " << int64_t(v.u) << " does not select case '" << name << "'");
            }
            v.v.push_back(read(r[name], *t.mem[v.sel].ty, join(path, name)));
            break;
        }
        default: break;
    }
    return v;
}

inline void expect(const xt::ReadableDynamicDataRef& r, const Ty& t, const Val& v, const std::string& what)
{
    Val got = read(r, t, what);
    std::string a = enc(t, got), b = enc(t, v);
    if (a != b)
    {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
        size_t from = i > 60 ? i - 60 : 0;
        FAIL(what << ": the data reads as ..." << a.substr(from, 160) << " but should be ..." << b.substr(from, 160)
                  << " (type " << show(t) << ")");
    }
}

// ------------------------------------------------------------------------------------------- mutations

// Applies one random operation to some node below w, to the library and to the model alike.
struct Mutator
{
    Tape& t;
    VCfg vc;
    Mutator(Tape& tape, VCfg c = VCfg()) : t(tape), vc(c) {}

    Val gen(const Ty& ty) { return VGen(t, vc).val(ty); }

    std::string step(xt::WritableDynamicDataRef w, const Ty& ty, Val& v, const std::string& path)
    {
        const Ty& r = ty.r();
        if (is_leaf(r.k))
        {
            Val n = VGen(t, vc).leaf(r);
            bool by_assign = t.chance(1, 2);
            write_leaf(w, r, n, by_assign);
            v = n;
            return path + " = " + enc(r, n);
        }
        // whole-value assignment from another data of the same type
        if (t.chance(1, 8))
        {
            Val n = gen(ty);
            xt::DynamicData src = make(ty, n);
            w = src.ref();
            v = n;
            t.label("op:assign-subtree");
            return path + " := " + enc(r, n);
        }
        switch (r.k)
        {
            case K::Array:
            {
                size_t i = t.index(r.bound);
                return step(w[i], *r.c, v.v[i], join(path, std::to_string(i)));
            }
            case K::Struct:
            {
                if (r.mem.empty()) { return path + " (empty struct)"; }
                size_t i = t.index(r.mem.size());
                if (t.chance(1, 2)) { return step(w[r.mem[i].name], *r.mem[i].ty, v.v[i], join(path, r.mem[i].name)); }
                return step(w[i], *r.mem[i].ty, v.v[i], join(path, r.mem[i].name));
            }
            case K::Pair:
            {
                size_t i = t.index(2);
                return step(w[i], i ? *r.c : *r.key, v.v[i], join(path, i ? "second" : "first"));
            }
            case K::Seq:
                switch (t.weighted({3, 2, 1, 1}))
                {
                    case 0:
                    {
                        if (r.bound && v.v.size() >= r.bound) { break; }
                        Val n = gen(*r.c);
                        xt::DynamicData d = make(*r.c, n);
                        w.push(d);
                        v.v.push_back(n);
                        t.label("op:push");
                        return path + " push " + enc(*r.c, n);
                    }
                    case 2:
                    {
                        size_t n = t.index(r.bound ? r.bound + 1 : v.v.size() + 4);
                        w.resize(n);
                        while (v.v.size() < n) { v.v.push_back(dflt(*r.c)); }
                        t.label("op:resize");
                        return path + " resize " + std::to_string(n);
                    }
                    case 3:
                    {
                        if (v.v.empty() || (r.bound && v.v.size() >= r.bound)) { break; }
                        size_t i = t.index(v.v.size());
                        w.push(w[i]);
                        Val n = v.v[i];
                        v.v.push_back(n);
                        t.label("op:push-own-element");
                        return path + " push own element " + std::to_string(i);
                    }
                    default: break;
                }
                if (v.v.empty()) { return path + " (no element)"; }
                {
                    size_t i = t.index(v.v.size());
                    return step(w[i], *r.c, v.v[i], join(path, std::to_string(i)));
                }
            case K::Map:
            {
                if (v.v.empty() || t.chance(1, 2))
                {
                    Val k = gen(*r.key);
                    std::string ek = enc(*r.key, k);
                    int at = -1;
                    for (size_t i = 0; i < v.v.size(); ++i) { if (enc(*r.key, v.v[i].v[0]) == ek) { at = int(i); } }
                    if (at < 0 && r.bound && v.v.size() >= r.bound) { return path + " (full)"; }
                    xt::DynamicData kd = make(*r.key, k);
                    if (at < 0)
                    {
                        Val e;
                        e.v = {k, dflt(*r.c)};
                        v.v.push_back(e);
                        at = int(v.v.size()) - 1;
                        t.label("op:map-insert");
                    }
                    return step(w[kd], *r.c, v.v[at].v[1], join(path, "[" + ek + "]"));
                }
                size_t i = t.index(v.v.size());
                xt::DynamicData kd = make(*r.key, v.v[i].v[0]);
                return step(t.chance(1, 2) ? w.at(kd) : w[kd], *r.c, v.v[i].v[1], join(path, "[" + enc(*r.key, v.v[i].v[0]) + "]"));
            }
            case K::Union:
            {
                if (r.mem.empty()) { return path + " (empty union)"; }
                int s = (v.sel >= 0 && t.chance(1, 2)) ? v.sel : int(t.index(r.mem.size()));
                if (s != v.sel)
                {
                    v.sel = s;
                    v.v.clear();
                    v.v.push_back(dflt(*r.mem[s].ty));
                    t.label("op:union-switch");
                }
                return step(w[r.mem[s].name], *r.mem[s].ty, v.v[0], join(path, r.mem[s].name));
            }
            default: return path;
        }
    }
};

inline size_t count_nodes(const Ty& ty, const Val& v)
{
    size_t n = 1;
    for (auto& e : v.v) { n += count_nodes(ty, e); }
    return n;
}

inline bool contains_kind(const Ty& ty, K k)
{
    if (ty.k == k) { return true; }
    if (ty.c && contains_kind(*ty.c, k)) { return true; }
    if (ty.key && contains_kind(*ty.key, k)) { return true; }
    for (auto& m : ty.mem) { if (contains_kind(*m.ty, k)) { return true; } }
    return false;
}

// Whether two data with the same content may differ in the label (one of several) that selects the content of a union.
inline bool several_labels(const Ty& ty)
{
    for (auto& m : ty.mem) { if ((ty.k == K::Union && m.labels.size() > 1) || several_labels(*m.ty)) { return true; } }
    return (ty.c && several_labels(*ty.c)) || (ty.key && several_labels(*ty.key));
}

inline void label_kinds(Tape& t, const Ty& ty)
{
    static const char* n[] = {"has:bool", "has:int8", "has:uint8", "has:int16", "has:uint16", "has:int32", "has:uint32", "has:int64",
        "has:uint64", "has:float", "has:double", "has:longdouble", "has:char", "has:char16", "has:wchar", "has:string", "has:wstring",
        "has:u16string", "has:enum", "has:array", "has:sequence", "has:map", "has:struct", "has:union", "has:alias", "has:pair"};
    for (int k = int(K::Enum); k <= int(K::Pair); ++k) { if (contains_kind(ty, K(k))) { t.label(n[k]); } }
}

} // namespace model
