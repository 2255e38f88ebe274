// P06: == is equality of the trees of values, and equal data have equal hashes.
#include "model.hpp"
#include "big.hpp"
using namespace model;

// Changes exactly one leaf (or one element count, or one selected case) of the value.
static bool change(Tape& t, const Ty& ty, Val& v, const VCfg& vc)
{
    const Ty& r = ty.r();
    if (is_leaf(r.k))
    {
        for (int i = 0; i < 6; ++i)
        {
            Val n;
            if (is_string(r.k) && t.chance(1, 2))
            {
                n = v;      // a neighbour of the string
                if (n.s.empty() || t.chance(1, 3)) { n.s.push_back('q'); if (r.bound && n.s.size() > r.bound) { continue; } }
                else if (t.chance(1, 2)) { n.s.pop_back(); }
                else { n.s[t.index(n.s.size())] ^= 1; }
            }
            else if (is_prim(r.k) && !is_float(r.k) && r.k != K::Bool && t.chance(1, 2))
            {
                n = v;      // one bit
                uint64_t u = n.u ^ (uint64_t(1) << t.index(8 * prim_size(r.k)));
                n.u = with_prim(r.k, [&](auto z) { using T = decltype(z); if constexpr (std::is_floating_point<T>::value) { return uint64_t(0); } else { return to_u(T(u)); } });
            }
            else { n = VGen(t, vc).leaf(r); }
            if (!same(r, n, v)) { v = n; return true; }
        }
        return false;
    }
    switch (r.k)
    {
        case K::Array: case K::Seq:
            if (r.k == K::Seq && (v.v.empty() || t.chance(1, 4)))
            {
                if (!v.v.empty() && t.chance(1, 2)) { v.v.pop_back(); return true; }
                if (r.bound && v.v.size() >= r.bound) { return false; }
                v.v.push_back(VGen(t, vc).val(*r.c));
                return true;
            }
            return change(t, *r.c, v.v[t.index(v.v.size())], vc);
        case K::Struct:
        {
            if (v.v.empty()) { return false; }
            size_t i = t.index(v.v.size());
            return change(t, *r.mem[i].ty, v.v[i], vc);
        }
        case K::Pair:
        {
            size_t i = t.index(2);
            return change(t, i ? *r.c : *r.key, v.v[i], vc);
        }
        case K::Map:
        {
            if (v.v.empty()) { return false; }
            size_t i = t.index(v.v.size());
            if (t.chance(1, 3)) { v.v.erase(v.v.begin() + i); return true; }
            return change(t, *r.c, v.v[i].v[1], vc);
        }
        case K::Union:
        {
            if (v.sel >= 0 && (r.mem.size() < 2 || t.chance(2, 3))) { return change(t, *r.mem[v.sel].ty, v.v[0], vc); }
            if (r.mem.empty()) { return false; }
            int s = int(t.index(r.mem.size()));
            if (s == v.sel) { return false; }
            v.sel = s;
            v.v.assign(1, VGen(t, vc).val(*r.mem[s].ty));
            return true;
        }
        default: return false;
    }
}

static void equals_both(const xt::ReadableDynamicDataRef& a, const xt::ReadableDynamicDataRef& b, const std::string& what)
{
    CHECK(a == b, what << ": == is false");
    CHECK(b == a, what << ": == is false when reversed");
    CHECK(!(a != b), what << ": != is true");
    CHECK(a.hash() == b.hash(), what << ": the hashes differ");
}
static void differs(const xt::ReadableDynamicDataRef& a, const xt::ReadableDynamicDataRef& b, const std::string& what)
{
    CHECK(!(a == b), what << ": == is true");
    CHECK(!(b == a), what << ": == is true when reversed");
    CHECK(a != b, what << ": != is false");
}

static void body(Tape& t)
{
    if (t.chance(1, 4000)) { big::equality(t); return; }
    Cfg cfg;
    cfg.pairs = true;
    cfg.float_keys = true;
    cfg.depth = int(t.index(5));
    TyP ty = Gen(t, cfg).root(cfg.depth);
    NOTE(t, "type " << show(*ty));
    label_kinds(t, *ty);
    VCfg vc;
    vc.unselected = true;
    Val v = VGen(t, vc).val(*ty);
    NOTE(t, "value " << enc(*ty, v));
    xt::DynamicData a = make(*ty, v), b = make(*ty, v);
    equals_both(a, a, "data and itself");
    equals_both(a, b, "data built twice");
    if (t.chance(1, 2))
    {
        // equal after another history
        Val u = VGen(t, vc).val(*ty);
        xt::DynamicData c = make(*ty, u);
        bool e = same(*ty, u, v);
        if (e) { equals_both(a, c, "equal values"); } else { differs(a, c, "different values"); }
        Mutator m(t, vc);
        for (size_t i = 0, n = t.index(4); i < n; ++i) { m.step(c.ref(), *ty, u, "c"); }
        e = same(*ty, u, v);
        if (!e) { differs(a, c, "after other operations"); }
        c = a;
        equals_both(a, c, "assigned");
        xt::DynamicData d(std::move(c));
        equals_both(b, d, "moved");
        t.label("op:history");
    }
    size_t changed = 0;
    for (size_t i = 0, n = 1 + t.index(4); i < n; ++i)
    {
        Val w = v;
        if (!change(t, *ty, w, vc) || same(*ty, v, w)) { continue; }
        ++changed;
        xt::DynamicData c = make(*ty, w);
        differs(a, c, "one change: " + enc(*ty, w));
        NOTE(t, "changed " << enc(*ty, w));
        if (t.chance(1, 2))
        {
            // and back
            xt::DynamicData e(a.cref());
            e = c;
            equals_both(e, c, "assigned the changed value");
            e = b;
            equals_both(e, a, "assigned the first value again");
        }
    }
    // nodes of equal data are equal
    if (ty->r().k == K::Struct)
    {
        for (size_t i = 0; i < ty->r().mem.size(); ++i) { equals_both(a[i], b[i], "member " + ty->r().mem[i].name); }
    }
    // The hash follows the content: of 24 values that differ, not all share one hash
    if (t.chance(1, 8))
    {
        std::set<uint64_t> hs;
        std::set<std::string> vs;
        hs.insert(a.hash());
        vs.insert(enc(*ty, v));
        Val w = v;
        for (int i = 0; i < 60 && vs.size() < 24; ++i)
        {
            if (!change(t, *ty, w, vc)) { continue; }
            vs.insert(enc(*ty, w));
            hs.insert(make(*ty, w).hash());
        }
        if (vs.size() >= 24) { CHECK(hs.size() > 1, "24 different values have one hash"); t.label("op:hash-spread"); }
    }
    if (changed && count_nodes(*ty, v) > 1) { t.nontrivial(); }
}

// ---- regressions
static void floats()
{
    TyP s = strct("S", {Mem{"f", prim(K::F32), {}, false}, Mem{"d", prim(K::F64), {}, false}, Mem{"l", prim(K::F128), {}, false}, Mem{"q", seq(prim(K::F128)), {}, false},
                Mem{"a", arr(prim(K::F64), 2), {}, false}});
    xt::DynamicData a(s->x()), b(s->x());
    a["f"] = 0.0f; b["f"] = -0.0f;
    a["d"] = 0.0; b["d"] = -0.0;
    a["a"][1] = 0.0; b["a"][1] = -0.0;
    a["l"] = (long double)1.5; b["l"] = (long double)1.5;
    a["q"].push((long double)0.1); b["q"].push((long double)0.1);
    equals_both(a, b, "zeros of both signs");
}
static void long_double_padding()
{
    TyP q = seq(prim(K::F128));
    xt::DynamicData a(q->x()), b(q->x());
    volatile long double x = 3.25L;
    for (int i = 0; i < 5; ++i)
    {
        alignas(16) unsigned char raw[sizeof(long double)];
        memset(raw, i * 37, sizeof raw);
        long double y = x;
        memcpy(raw, &y, 10);
        a.push(*reinterpret_cast<long double*>(raw));
        memset(raw, 255 - i, sizeof raw);
        memcpy(raw, &y, 10);
        b.push(*reinterpret_cast<long double*>(raw));
    }
    equals_both(a, b, "the same long doubles");
}
static void seq_hash()
{
    TyP q = seq(prim(K::I32));
    xt::DynamicData a(q->x()), b(q->x());
    for (int i = 0; i < 3; ++i) { a.push(int32_t(i)); b.push(int32_t(i)); }
    equals_both(a, b, "equal sequences");
    xt::DynamicData c(q->x());
    c.resize(3);
    c[1] = int32_t(1);
    c[2] = int32_t(2);
    equals_both(a, c, "equal sequences of different capacity");
}
static void union_hash()
{
    TyP u = unio("U", prim(K::I32), {Mem{"a", prim(K::I64), {1}, false}, Mem{"b", prim(K::U8), {2}, false}});
    xt::DynamicData a(u->x()), b(u->x());
    a["a"] = int64_t(-1);
    a["b"] = uint8_t(3);
    b["b"] = uint8_t(3);
    equals_both(a, b, "unions that selected other members before");
}
static void array_shape()
{
    xt::DynamicData a(arr(prim(K::I32), 3)->x()), b(arr(prim(K::I32), 4)->x());
    differs(a, b, "arrays of different dimension");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P06";
    p.rule = "case: a random type and value, the data built twice and by other histories (must be equal, with equal hashes, both ways), and 1-4 values that differ in one leaf, one "
        "element or one selected case (must be different); now and then 24 values that must not share one hash. Non-trivial: at least one change was made on a value of at least two nodes.";
    p.body = body;
    p.quick_cases = 500000;
    p.thorough_cases = 8000000;
    p.regressions = {
        {"R-floats", "zeros of both signs are equal, at any depth", floats},
        {"R-long-double", "long doubles are compared by value", long_double_padding},
        {"R-seq-hash", "equal sequences have equal hashes", seq_hash},
        {"R-union-hash", "equal unions have equal hashes", union_hash},
        {"R-array-shape", "arrays of different dimension are different", array_shape},
    };
    return pbt::run_main(argc, argv, p);
}
