// Pairs of types that are nearly the same, the consistency the documentation gives to a pair, and the conversion
// of a value from one to the other: written from the documentation of TypeConsistency and of is_compatible(),
// over the model types only.
#pragma once
#include "model.hpp"

namespace model {

enum : int { EQ = 0, SIGN = 1, WIDTH = 2, SEQB = 4, ARRB = 8, STRB = 16, NAMES = 32, MEMBERS = 64, MAPB = 128, NO = ~0 };

// The type without aliases, and without the structs that only wrap one member.
inline const Ty& bare(const Ty& t)
{
    const Ty& r = t.r();
    return r.k == K::Struct && r.mem.size() == 1 ? bare(*r.mem[0].ty) : r;
}

inline bool is_unsigned(K k) { return k == K::U8 || k == K::U16 || k == K::U32 || k == K::U64; }

inline std::map<uint64_t, int> labels_of(const Ty& u)
{
    std::map<uint64_t, int> m;
    for (size_t i = 0; i < u.mem.size(); ++i) { for (int64_t l : u.mem[i].labels) { m[mask_label(*u.c, uint64_t(l))] = int(i); } }
    return m;
}
inline int default_of(const Ty& u)
{
    for (size_t i = 0; i < u.mem.size(); ++i) { if (u.mem[i].dflt) { return int(i); } }
    return -1;
}

inline int consistency(const Ty& ta, const Ty& tb)
{
    const Ty& a = bare(ta);
    const Ty& b = bare(tb);
    if (is_prim(a.k) && is_prim(b.k))
    {
        if (a.k == b.k) { return EQ; }
        int c = EQ;
        if (prim_size(a.k) != prim_size(b.k) || is_float(a.k) != is_float(b.k) || (a.k == K::Bool) != (b.k == K::Bool)) { c |= WIDTH; }
        if (is_unsigned(a.k) != is_unsigned(b.k)) { c |= SIGN; }
        return c;
    }
    if (a.k != b.k) { return NO; }
    switch (a.k)
    {
        case K::Enum: return a.ebytes == b.ebytes ? EQ : WIDTH;
        case K::Str: case K::WStr: case K::Str16: return a.bound == b.bound ? EQ : STRB;
        case K::Seq: return consistency(*a.c, *b.c) | (a.bound == b.bound ? EQ : SEQB);
        case K::Array: return consistency(*a.c, *b.c) | (a.bound == b.bound ? EQ : ARRB);
        case K::Map: return consistency(*a.key, *b.key) | consistency(*a.c, *b.c) | (a.bound == b.bound ? EQ : MAPB);
        case K::Pair: return consistency(*a.key, *b.key) | consistency(*a.c, *b.c);
        case K::Struct: case K::Union:
        {
            int c = a.k == K::Union ? consistency(*a.c, *b.c) : EQ;
            for (size_t i = 0; i < std::min(a.mem.size(), b.mem.size()); ++i)
            {
                c |= consistency(*a.mem[i].ty, *b.mem[i].ty);
                if (a.mem[i].name != b.mem[i].name) { c |= c == NO ? 0 : NAMES; }
            }
            if (a.mem.size() != b.mem.size()) { c |= MEMBERS; }
            else if (a.k == K::Union && c == EQ && (labels_of(a) != labels_of(b) || default_of(a) != default_of(b))) { c |= MEMBERS; }
            return c;
        }
        default: return NO;
    }
}

inline std::string cname(int c)
{
    if (c == NO) { return "NONE"; }
    if (c == EQ) { return "EQUALS"; }
    static const char* n[] = {"SIGN", "WIDTH", "SEQUENCE_BOUNDS", "ARRAY_BOUNDS", "STRING_BOUNDS", "MEMBER_NAMES", "MEMBERS", "MAP_BOUNDS"};
    std::string s;
    for (int i = 0; i < 8; ++i) { if (c & (1 << i)) { s += std::string(s.empty() ? "" : "|") + n[i]; } }
    return s;
}

// The value of type tb made from v of type ta.  Floating values that the target cannot hold are replaced in v.
// drop_* tell what was lost, for the classification of the case.
struct Conv
{
    bool cut = false, filled = false, narrowed = false, collided = false;
    bool refused = false;          // a map was reached whose content is of another type
    bool unsure = false;           // ... in an entry that may or may not be kept

    Val conv(const Ty& ta, Val& v, const Ty& tb)
    {
        const Ty& a = ta.r();
        const Ty& b = tb.r();
        bool wa = a.k == K::Struct && a.mem.size() == 1, wb = b.k == K::Struct && b.mem.size() == 1;
        if (wb)
        {
            Val r;
            r.v.push_back(conv(wa ? *a.mem[0].ty : a, wa ? v.v[0] : v, *b.mem[0].ty));
            return r;
        }
        if (wa) { return conv(*a.mem[0].ty, v.v[0], b); }
        Val r;
        switch (b.k)
        {
            case K::Str: case K::WStr: case K::Str16:
                r.s = v.s;
                if (b.bound && r.s.size() > b.bound) { r.s.resize(b.bound); cut = true; }
                return r;
            case K::Enum:
                r.u = with_enum(b.ebytes, [&](auto z) { return uint64_t(decltype(z)(v.u)); });
                narrowed |= r.u != v.u;
                return r;
            case K::Seq: case K::Array:
            {
                size_t n = v.v.size();
                if (b.bound && n > b.bound) { n = b.bound; cut = true; }
                for (size_t i = 0; i < n; ++i) { r.v.push_back(conv(*a.c, v.v[i], *b.c)); }
                if (b.k == K::Array) { while (r.v.size() < b.bound) { r.v.push_back(dflt(*b.c)); filled = true; } }
                return r;
            }
            case K::Pair:
                r.v.push_back(conv(*a.key, v.v[0], *b.key));
                r.v.push_back(conv(*a.c, v.v[1], *b.c));
                return r;
            case K::Map:
            {
                std::set<std::string> seen;
                if ((consistency(*a.key, *b.key) | consistency(*a.c, *b.c)) != EQ
                        && static_cast<const xt::MapType&>(a.x()).content_type().name() != static_cast<const xt::MapType&>(b.x()).content_type().name())
                {
                    refused = true;
                    return r;
                }
                bool before = refused;
                struct Cut { Conv& c; bool before, cut; ~Cut() { if (cut && c.refused && !before) { c.unsure = true; } } } cut_guard{*this, before, b.bound && v.v.size() > b.bound};
                for (auto& e : v.v)
                {
                    Val p;
                    p.v.push_back(conv(*a.key, e.v[0], *b.key));
                    p.v.push_back(conv(*a.c, e.v[1], *b.c));
                    if (!seen.insert(enc(*b.key, p.v[0])).second) { collided = true; }
                    r.v.push_back(p);
                }
                return r;
            }
            case K::Struct:
                for (size_t i = 0; i < b.mem.size(); ++i)
                {
                    if (i < a.mem.size()) { r.v.push_back(conv(*a.mem[i].ty, v.v[i], *b.mem[i].ty)); }
                    else { r.v.push_back(dflt(*b.mem[i].ty)); filled = true; }
                }
                cut |= a.mem.size() > b.mem.size();
                return r;
            case K::Union:
                if (v.sel < 0 || size_t(v.sel) >= b.mem.size()) { cut |= v.sel >= 0; return dflt(b); }
                r.sel = v.sel;
                r.v.push_back(conv(*a.mem[v.sel].ty, v.v[0], *b.mem[v.sel].ty));
                return r;
            default:
                if (is_float(a.k) && !is_float(b.k)) { v.f = (long double)(int64_t(std::fabs(std::fmod(v.f, 100)))); if (v.f != v.f) { v.f = 1; } }
                with_prim(b.k, [&](auto y)
                        {
                            using B = decltype(y);
                            with_prim(a.k, [&](auto x)
                                    {
                                        using A = decltype(x);
                                        A from = to_prim<A>(v);
                                        B to = static_cast<B>(from);
                                        narrowed |= (long double)(to) != (long double)(from);
                                        r = from_prim<B>(to);
                                    });
                        });
                return r;
        }
    }
};

// Whether got is what a conversion may give: a map keeps as many of the entries as its bound allows.
inline bool converted(const Ty& ty, const Val& got, const Val& want)
{
    const Ty& t = ty.r();
    switch (t.k)
    {
        case K::Seq: case K::Array:
            if (got.v.size() != want.v.size()) { return false; }
            for (size_t i = 0; i < got.v.size(); ++i) { if (!converted(*t.c, got.v[i], want.v[i])) { return false; } }
            return true;
        case K::Pair: return converted(*t.key, got.v[0], want.v[0]) && converted(*t.c, got.v[1], want.v[1]);
        case K::Struct:
            for (size_t i = 0; i < got.v.size(); ++i) { if (!converted(*t.mem[i].ty, got.v[i], want.v[i])) { return false; } }
            return true;
        case K::Union: return got.sel == want.sel && (got.sel < 0 || converted(*t.mem[got.sel].ty, got.v[0], want.v[0]));
        case K::Map:
        {
            std::set<std::string> keys, wkeys;
            for (auto& w : want.v) { wkeys.insert(enc(*t.key, w.v[0])); }
            for (auto& e : got.v)
            {
                std::string k = enc(*t.key, e.v[0]);
                if (!keys.insert(k).second) { return false; }
                bool ok = false;
                for (auto& w : want.v) { ok |= converted(*t.key, e.v[0], w.v[0]) && converted(*t.c, e.v[1], w.v[1]); }
                if (!ok) { return false; }
            }
            // (keys that hold a cut map may be fewer or more than the texts of the expected ones)
            size_t n = wkeys.size();
            if (t.bound) { n = std::min<size_t>(n, t.bound); }
            return contains_kind(*t.key, K::Map) || got.v.size() == n;
        }
        default: return same(t, got, want);
    }
}

// A type that differs from another one in few places.
struct Relate
{
    Tape& t;
    Gen& g;
    unsigned rate;                  // one node in `rate` changes
    bool kinds;                     // a kind may change: the types become incompatible
    size_t changes = 0;
    bool enumerators = false;       // some enumeration has other values
    Relate(Tape& tape, Gen& gen, unsigned r, bool k) : t(tape), g(gen), rate(r), kinds(k) {}

    bool hit() { bool h = t.chance(1, rate); changes += h; return h; }
    uint32_t bound(uint32_t b)
    {
        if (!hit()) { return b; }
        return t.chance(1, 3) ? 0 : uint32_t(1 + t.below(6));
    }
    Mem fresh_member() { Mem m; m.name = g.fresh("x"); m.ty = g.type(1); return m; }

    TyP other_kind(const Ty& old)
    {
        for (int i = 0; i < 8; ++i)
        {
            TyP n = g.type(1);
            K k = bare(*n).k, o = bare(old).k;
            // pairs, enumerations and structs have rules of their own towards other kinds: see DESIGN.md
            bool special = k == K::Pair || k == K::Struct || o == K::Pair || o == K::Struct || (k == K::Enum && is_prim(o)) || (o == K::Enum && is_prim(k));
            if (k != o && !special && !(is_prim(k) && is_prim(o))) { return n; }
        }
        return nullptr;
    }
    TyP enumeration(const Ty& o)
    {
        unsigned b = o.ebytes;
        auto en = o.en;
        std::string nm = o.name;
        if (hit()) { b = t.pick(std::vector<unsigned>{1, 2, 4}); }
        if (hit()) { enumerators = true; nm = g.fresh("E"); if (t.chance(1, 2)) { en.pop_back(); } en.push_back({nm + "_z", en.empty() ? 3 : en.back().second + 1}); }
        return enm(nm, b, en, g.sh());
    }
    TyP type(const TyP& ty)
    {
        if (t.chance(1, 4 * rate)) { ++changes; return alias(type(ty), g.fresh("A"), g.sh()); }
        const Ty& o = *ty;
        K bk = bare(o).k;
        if (bk != K::Pair && bk != K::Struct && t.chance(1, 5 * rate))
        {
            ++changes;
            Mem m; m.name = g.fresh("w"); m.ty = type(ty);
            return strct(g.fresh("W"), {m}, nullptr, g.sh());
        }
        if (kinds && t.chance(1, 8 * rate))
        {
            TyP n = other_kind(o);
            if (n) { ++changes; return n; }
        }
        if (is_prim(o.k)) { return hit() ? prim(g.prim_kind()) : ty; }
        switch (o.k)
        {
            case K::Str: case K::WStr: case K::Str16: return str(o.k, bound(o.bound), g.sh());
            case K::Enum: return enumeration(o);
            case K::Array: { TyP c = type(o.c); return arr(c, hit() ? uint32_t(1 + t.below(6)) : o.bound, g.sh()); }
            case K::Seq: { TyP c = type(o.c); return seq(c, bound(o.bound), g.sh()); }
            case K::Map: { TyP k = type(o.key); TyP c = type(o.c); return mp(k, c, bound(o.bound), g.sh()); }
            case K::Pair: { TyP k = type(o.key); TyP c = type(o.c); return pr(k, c, g.sh()); }
            case K::Alias:
                if (hit()) { return type(o.c); }
                return alias(type(o.c), o.name, g.sh());
            case K::Struct:
            {
                std::vector<Mem> ms;
                for (auto& m : o.mem)
                {
                    Mem n; n.name = m.name; n.ty = type(m.ty);
                    if (hit()) { n.name = g.fresh("r"); }
                    ms.push_back(n);
                }
                if (ms.size() != 1 && hit())
                {
                    if (ms.size() > 2 && t.chance(1, 2)) { ms.resize(2 + t.index(ms.size() - 2)); }
                    else { for (size_t i = 0, n = (ms.empty() ? 2 : 1) + t.index(3); i < n; ++i) { ms.push_back(fresh_member()); } }
                }
                return strct(t.chance(1, 2) ? o.name : g.fresh("S"), ms, nullptr, g.sh());
            }
            case K::Union:
            {
                TyP d = o.c;
                const Ty& dr = d->r();
                if (dr.k == K::Enum) { d = enumeration(dr); }
                else if (dr.k != K::Bool && hit())
                {
                    static const std::vector<K> ks = {K::I32, K::I16, K::I64, K::U16, K::U32, K::U64, K::C8, K::I8, K::U8, K::C16, K::WC};
                    d = prim(t.pick(ks));
                }
                std::vector<int64_t> pool = g.label_pool(*d);
                bool relabel = hit();
                std::vector<Mem> ms = o.mem;
                if (!ms.empty() && hit())
                {
                    if (ms.size() > 1 && t.chance(1, 2)) { ms.resize(1 + t.index(ms.size() - 1)); }
                    else { Mem m = fresh_member(); m.labels = {INT64_MAX}; ms.push_back(m); }
                }
                // the labels that the discriminator of the other can hold are kept, the others are replaced
                std::set<int64_t> used;
                std::vector<Mem> out;
                for (auto& m : ms)
                {
                    Mem n; n.name = m.name; n.ty = type(m.ty); n.dflt = m.dflt;
                    if (hit()) { n.name = g.fresh("r"); }
                    for (int64_t l : m.labels)
                    {
                        bool fits = std::find(pool.begin(), pool.end(), l) != pool.end();
                        if ((!fits || (relabel && t.chance(1, 2)) || used.count(l)))
                        {
                            std::vector<int64_t> rest;
                            for (int64_t x : pool)
                            {
                                bool later = used.count(x);
                                for (auto& q : ms) { later |= !relabel && std::find(q.labels.begin(), q.labels.end(), x) != q.labels.end(); }
                                if (!later) { rest.push_back(x); }
                            }
                            if (rest.empty()) { continue; }
                            l = t.pick(rest);
                        }
                        used.insert(l);
                        n.labels.push_back(l);
                    }
                    if (n.labels.empty() && !n.dflt) { break; }
                    out.push_back(n);
                }
                return unio(o.name, d, out, g.sh());
            }
            default: return ty;
        }
    }
};

} // namespace model
