// The nodes of data in the order of a traversal, taken from the model.
#pragma once
#include "model.hpp"

namespace model {

static xt::TypeKind kind_of(const Ty& t)
{
    if (is_prim(t.k)) { return with_prim(t.k, [](auto z) { return xt::primitive_type<decltype(z)>().kind(); }); }
    switch (t.k)
    {
        case K::Str: return xt::TypeKind::STRING_TYPE;
        case K::WStr: return xt::TypeKind::WSTRING_TYPE;
        case K::Str16: return xt::TypeKind::STRING16_TYPE;
        case K::Enum: return xt::TypeKind::ENUMERATION_TYPE;
        case K::Array: return xt::TypeKind::ARRAY_TYPE;
        case K::Seq: return xt::TypeKind::SEQUENCE_TYPE;
        case K::Map: return xt::TypeKind::MAP_TYPE;
        case K::Pair: return xt::TypeKind::PAIR_TYPE;
        case K::Struct: return xt::TypeKind::STRUCTURE_TYPE;
        case K::Union: return xt::TypeKind::UNION_TYPE;
        default: return xt::TypeKind::ALIAS_TYPE;
    }
}

struct N
{
    std::string path;
    const Ty* ty;
    xt::TypeKind kind;
    size_t deep;
    int64_t index;
    std::string member;            // "" none, "?" not checked
    size_t id;                     // of the instance
    int parent;                    // index of the node of the parent, or -1
    Val* val;
    uint64_t mask = ~uint64_t(0); // the bits of the index that are checked
};

// The nodes of a value, in the order of a traversal; the entries of maps in the order of their iteration.
static void walk(std::vector<N>& out, const xt::ReadableDynamicDataRef& r, const Ty& ty, Val& v, size_t deep, int64_t index, const std::string& member, int parent, const std::string& path)
{
    const Ty& t = ty.r();
    out.push_back(N{path, &t, kind_of(t), deep, index, member, r.instance_id(), parent, &v});
    int me = int(out.size()) - 1;
    switch (t.k)
    {
        case K::Array: case K::Seq:
            for (size_t i = 0; i < v.v.size(); ++i) { walk(out, r[i], *t.c, v.v[i], deep + 1, int64_t(i), "", me, join(path, std::to_string(i))); }
            break;
        case K::Pair:
            walk(out, r[0], *t.key, v.v[0], deep + 1, 0, "?", me, join(path, "first"));
            walk(out, r[1], *t.c, v.v[1], deep + 1, 1, "?", me, join(path, "second"));
            break;
        case K::Struct:
            for (size_t i = 0; i < v.v.size(); ++i) { walk(out, r[i], *t.mem[i].ty, v.v[i], deep + 1, int64_t(i), t.mem[i].name, me, join(path, t.mem[i].name)); }
            break;
        case K::Map:
        {
            int64_t n = 0;
            for (auto it = r.begin(); it != r.end(); ++it, ++n)
            {
                xt::ReadableDynamicDataRef p = *it;
                out.push_back(N{join(path, std::to_string(n)), nullptr, xt::TypeKind::PAIR_TYPE, deep + 1, n, "", p.instance_id(), me, nullptr});
                int pn = int(out.size()) - 1;
                std::string k = enc(*t.key, read(p[0], *t.key));
                Val* e = nullptr;
                for (auto& x : v.v) { if (enc(*t.key, x.v[0]) == k) { e = &x; } }
                CHECK(e, path << ": the map has a key " << k << " that nobody inserted");
                walk(out, p[0], *t.key, e->v[0], deep + 2, 0, "?", pn, join(path, std::to_string(n) + ".key"));
                walk(out, p[1], *t.c, e->v[1], deep + 2, 1, "?", pn, join(path, std::to_string(n) + ".value"));
            }
            break;
        }
        case K::Union:
        {
            // (the index of a case is the discriminator)
            size_t at = out.size();
            walk(out, r[t.mem[v.sel].name], *t.mem[v.sel].ty, v.v[0], deep + 1, 0, t.mem[v.sel].name, me, join(path, t.mem[v.sel].name));
            size_t width = r.d().type().memory_size();
            out[at].mask = width == 8 ? ~uint64_t(0) : (uint64_t(1) << (8 * width)) - 1;
            out[at].index = r.d().cast<int64_t>();
            break;
        }
        default: break;
    }
}

static bool unselected(const Ty& ty, const Val& v)
{
    const Ty& t = ty.r();
    switch (t.k)
    {
        case K::Array: case K::Seq: for (auto& e : v.v) { if (unselected(*t.c, e)) { return true; } } return false;
        case K::Pair: return unselected(*t.key, v.v[0]) || unselected(*t.c, v.v[1]);
        case K::Map: for (auto& e : v.v) { if (unselected(*t.key, e.v[0]) || unselected(*t.c, e.v[1])) { return true; } } return false;
        case K::Struct: for (size_t i = 0; i < v.v.size(); ++i) { if (unselected(*t.mem[i].ty, v.v[i])) { return true; } } return false;
        case K::Union: return v.sel < 0 || unselected(*t.mem[v.sel].ty, v.v[0]);
        default: return false;
    }
}

} // namespace model
