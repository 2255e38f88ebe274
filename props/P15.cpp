// P15: iteration, indexing, member lists and native vectors of a data are views of the same elements.
#include "model.hpp"
#include "big.hpp"
using namespace model;
using RRef = xt::ReadableDynamicDataRef;
using WRef = xt::WritableDynamicDataRef;

template<class F> static bool refused(F&& f)
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}

// The identity and type of each element, by some way of iterating.
struct Seen { std::vector<size_t> ids; };

static std::vector<size_t> iterate(Tape& t, const RRef& r, const std::string& path)
{
    std::vector<size_t> ids;
    switch (t.index(5))
    {
        case 0: for (auto it = r.begin(); it != r.end(); ++it) { ids.push_back((*it).instance_id()); } break;
        case 1:
            for (auto it = r.begin(), e = r.end(); !(it == e); )
            {
                auto prev = it++;
                CHECK(prev != it, path << ": an iterator equals the next one");
                ids.push_back((*prev).instance_id());
            }
            break;
        case 2: for (RRef x : r) { ids.push_back(x.instance_id()); } break;
        case 3:
        {
            // copies and assignments
            auto it = r.begin();
            auto other = r.end();
            size_t n = 0;
            while (it != r.end())
            {
                auto copy = it;
                ++copy;
                CHECK(copy != it, path << ": an incremented copy equals its source");
                ids.push_back((*it).instance_id());
                other = it;
                CHECK(other == it && (*other).instance_id() == ids.back(), path << ": an assigned iterator is elsewhere");
                it = copy;
                ++n;
            }
            CHECK(it == r.end(), path << ": the last iterator is not the end");
            break;
        }
        default:
        {
            // iterators of a reference that is gone
            auto both = [](RRef x) { return std::make_pair(x.begin(), x.end()); }(r);
            for (; both.first != both.second; ++both.first) { ids.push_back((*both.first).instance_id()); }
        }
    }
    return ids;
}

template<class T> static bool vector_refused(const RRef& r) { return refused([&] { r.as_vector<T>(); }); }

static void vectors(const RRef& r, const Ty& t, const Val& v, const std::string& path)
{
    const Ty& c = t.c->r();
    if (is_prim(c.k))
    {
        with_prim(c.k, [&](auto z)
                {
                    using T = decltype(z);
                    std::vector<T> got = r.as_vector<T>();
                    CHECK(got.size() == v.v.size(), path << ": as_vector() has " << got.size() << " elements of " << v.v.size());
                    for (size_t i = 0; i < got.size(); ++i) { CHECK(same(c, from_prim<T>(got[i]), v.v[i]), path << ": as_vector() differs at " << i); }
                });
        if (c.k != K::I64) { CHECK(vector_refused<int64_t>(r), path << ": a vector of other type is not refused"); }
        CHECK(vector_refused<std::string>(r), path << ": a vector of strings is not refused");
    }
    else if (is_string(c.k))
    {
        with_str(c.k, [&](auto z)
                {
                    using T = decltype(z);
                    std::vector<T> got = r.as_vector<T>();
                    CHECK(got.size() == v.v.size(), path << ": as_vector() has " << got.size() << " elements of " << v.v.size());
                    for (size_t i = 0; i < got.size(); ++i) { CHECK(same(c, from_str<T>(got[i]), v.v[i]), path << ": as_vector() differs at " << i); }
                });
        CHECK(vector_refused<char>(r), path << ": a vector of chars is not refused");
        if (c.k != K::WStr) { CHECK(vector_refused<std::wstring>(r), path << ": a vector of wide strings is not refused"); }
    }
    else { CHECK(vector_refused<int32_t>(r) && vector_refused<uint8_t>(r) && vector_refused<std::string>(r), path << ": a native vector of " << show(c) << " is not refused"); }
}

static size_t nodes_seen;

static void node(Tape& t, const RRef& r, WRef w, const Ty& ty, Val& v, const std::string& path)
{
    const Ty& x = ty.r();
    ++nodes_seen;
    bool collection = x.k == K::Array || x.k == K::Seq || x.k == K::Map || is_string(x.k);
    bool aggregation = x.k == K::Struct || x.k == K::Union;
    if (!collection) { CHECK(refused([&] { r.begin(); }) && refused([&] { r.end(); }) && refused([&] { w.begin(); }) && refused([&] { r.bounds(); }), path << ": begin(), end() or bounds() is not refused"); }
    if (!aggregation) { CHECK(refused([&] { r.items(); }) && refused([&] { w.items(); }) && refused([&] { w.citems(); }), path << ": items() is not refused"); }
    if (is_string(x.k))
    {
        // a string is a collection of characters
        with_str(x.k, [&](auto z)
                {
                    using S = decltype(z);
                    using C = typename S::value_type;
                    S want = to_str<S>(v);
                    CHECK(r.size() == want.size() && w.size() == want.size() && r.bounds() == x.bound, path << ": size or bounds of a string");
                    std::vector<size_t> ids = iterate(t, r, path);
                    CHECK(ids.size() == want.size(), path << ": iterates " << ids.size() << " characters of " << want.size());
                    for (size_t i = 0; i < want.size(); ++i)
                    {
                        CHECK(r[i].instance_id() == ids[i] && r[i].template value<C>() == want[i] && w[i].type().kind() == xt::primitive_type<C>().kind(), path << ": character " << i);
                    }
                    CHECK(r.template as_vector<C>() == std::vector<C>(want.begin(), want.end()), path << ": vector of characters");
                    CHECK(vector_refused<int64_t>(r) && vector_refused<S>(r), path << ": a vector of other type is not refused");
                    CHECK(refused([&] { r[want.size()]; }) && refused([&] { w[want.size() + 3]; }) && refused([&] { r[-1]; }), path << ": a character past the end is not refused");
                    if (!want.empty() && t.chance(1, 3))
                    {
                        size_t i = t.index(want.size()), j = 0;
                        for (WRef e : w)
                        {
                            if (j++ == i) { want[i] = C('A' + int(i % 26)); e = want[i]; }
                        }
                        v = from_str<S>(want);
                        CHECK(r.template value<S>() == want, path << ": a written character does not arrive");
                        t.label("op:write-character");
                    }
                });
        t.label("node:string");
        return;
    }
    if (is_leaf(x.k)) { CHECK(refused([&] { r.size(); }) && refused([&] { r[0]; }), path << ": size() or [0] is not refused"); return; }
    switch (x.k)
    {
        case K::Array: case K::Seq:
        {
            size_t n = v.v.size();
            CHECK(r.size() == n && w.size() == n, path << ": size is " << r.size() << ", should be " << n);
            CHECK(r.bounds() == x.bound, path << ": bounds() is " << r.bounds());
            std::vector<size_t> ids = iterate(t, r, path), wids;
            CHECK(ids.size() == n, path << ": iterates " << ids.size() << " elements of " << n);
            for (size_t i = 0; i < n; ++i)
            {
                CHECK(r[i].instance_id() == ids[i] && w[i].instance_id() == ids[i] && r[uint8_t(i)].instance_id() == r[uint8_t(i)].instance_id(), path << ": element " << i << " is other one by index");
            }
            std::set<size_t> distinct(ids.begin(), ids.end());
            CHECK(distinct.size() == n || x.c->x().memory_size() == 0, path << ": two elements are the same");
            CHECK(refused([&] { r[n]; }) && refused([&] { w[n]; }) && refused([&] { r[n + 7]; }) && refused([&] { r[-1]; }), path << ": an index past the end is not refused");
            vectors(r, x, v, path);
            // writing while iterating
            if (t.chance(1, 3))
            {
                size_t i = 0;
                for (WRef e : w)
                {
                    CHECK(e.instance_id() == ids[i], path << ": the writable iteration differs at " << i);
                    if (is_leaf(x.c->r().k)) { v.v[i] = VGen(t).leaf(*x.c); write_leaf(e, *x.c, v.v[i]); }
                    ++i;
                }
                CHECK(i == n, path << ": the writable iteration has " << i << " elements of " << n);
                t.label("op:write-iterating");
            }
            for (size_t i = 0; i < n; ++i) { node(t, r[i], w[i], *x.c, v.v[i], join(path, std::to_string(i))); }
            t.label("node:list");
            break;
        }
        case K::Map:
        {
            size_t n = v.v.size();
            CHECK(r.size() == n && r.bounds() == x.bound, path << ": size or bounds");
            std::vector<size_t> ids = iterate(t, r, path);
            CHECK(ids.size() == n, path << ": iterates " << ids.size() << " entries of " << n);
            CHECK(refused([&] { r[0]; }), path << ": an index in a map is not refused");
            std::set<std::string> keys;
            size_t i = 0;
            for (WRef p : w)
            {
                CHECK(p.size() == 2 && p.instance_id() == ids[i], path << ": the writable iteration differs");
                std::string k = enc(*x.key, read(p[0], *x.key));
                CHECK(keys.insert(k).second, path << ": key " << k << " twice");
                for (auto& e : v.v)
                {
                    if (enc(*x.key, e.v[0]) != k) { continue; }
                    xt::DynamicData kd = make(*x.key, e.v[0]);
                    CHECK(w.has_key(kd) && r.at(kd).instance_id() == p[1].instance_id() && w[kd].instance_id() == p[1].instance_id() && w.at(kd).instance_id() == p[1].instance_id(),
                        path << ": the value of key " << k << " is other one by key");
                    node(t, p[1], p[1], *x.c, e.v[1], join(path, k));
                }
                ++i;
            }
            CHECK(i == n, path << ": the writable iteration has " << i << " entries of " << n);
            for (auto& e : v.v) { CHECK(keys.count(enc(*x.key, e.v[0])), path << ": key " << enc(*x.key, e.v[0]) << " is not iterated"); }
            t.label("node:map");
            break;
        }
        case K::Pair:
            CHECK(r.size() == 2, path << ": a pair of size " << r.size());
            CHECK(refused([&] { r[2]; }) && refused([&] { r["first"]; }), path << ": a wrong access to a pair is not refused");
            node(t, r[0], w[0], *x.key, v.v[0], join(path, "first"));
            node(t, r[1], w[1], *x.c, v.v[1], join(path, "second"));
            t.label("node:pair");
            break;
        case K::Struct:
        {
            CHECK(r.size() == x.mem.size(), path << ": size is " << r.size());
            size_t i = 0;
            for (auto&& m : r.items())
            {
                CHECK(i < x.mem.size() && m.member().name() == x.mem[i].name, path << ": item " << i << " is " << m.member().name());
                CHECK(m.data().instance_id() == r[i].instance_id() && m.data().instance_id() == r[x.mem[i].name].instance_id() && m.kind() == m.member().type().kind(), path << ": item " << i << " is other one by index or name");
                CHECK(m.data().type().kind() == r[i].type().kind(), path << ": item " << i << " is a " << m.data().type().name());
                ++i;
            }
            CHECK(i == x.mem.size(), path << ": items() has " << i << " members of " << x.mem.size());
            i = 0;
            for (auto&& m : w.citems()) { CHECK(m.data().instance_id() == w[i].instance_id(), path << ": citem " << i); ++i; }
            CHECK(i == x.mem.size(), path << ": citems() has " << i << " members of " << x.mem.size());
            i = 0;
            auto it = w.items();
            for (auto e = it.end(); it != e; it++)
            {
                auto m = *it;
                CHECK(m.data().instance_id() == w[x.mem[i].name].instance_id(), path << ": writable item " << i);
                if (is_leaf(x.mem[i].ty->r().k) && t.chance(1, 3)) { v.v[i] = VGen(t).leaf(*x.mem[i].ty); write_leaf(m.data(), *x.mem[i].ty, v.v[i]); }
                ++i;
            }
            CHECK(i == x.mem.size(), path << ": the writable items() has " << i << " members");
            CHECK(refused([&] { r[x.mem.size()]; }) && refused([&] { r["no such member"]; }) && refused([&] { w["no such member"]; }), path << ": a wrong member is not refused");
            for (i = 0; i < x.mem.size(); ++i) { node(t, r[i], w[x.mem[i].name], *x.mem[i].ty, v.v[i], join(path, x.mem[i].name)); }
            t.label("node:struct");
            break;
        }
        case K::Union:
        {
            size_t i = 0;
            for (auto&& m : r.items())
            {
                std::string want = i == 0 ? "discriminator" : i <= x.mem.size() ? x.mem[i - 1].name : "?";
                CHECK(m.member().name() == want, path << ": item " << i << " is " << m.member().name());
                if (i == 0) { CHECK(m.data().instance_id() == r.d().instance_id(), path << ": the first item is not the discriminator"); }
                else if (int(i) - 1 == v.sel) { CHECK(m.data().instance_id() == r[want].instance_id(), path << ": the item of the selected case is other one"); }
                ++i;
            }
            CHECK(i == x.mem.size() + 1, path << ": items() has " << i << " entries");
            CHECK(refused([&] { r[0]; }), path << ": an index in a union is not refused");
            if (v.sel >= 0) { node(t, r[x.mem[v.sel].name], w[x.mem[v.sel].name], *x.mem[v.sel].ty, v.v[0], join(path, x.mem[v.sel].name)); }
            t.label("node:union");
            break;
        }
        default: break;
    }
}

static void body(Tape& t)
{
    if (t.chance(1, 2000)) { big::visits(t); return; }
    Cfg cfg;
    cfg.pairs = true;
    cfg.depth = int(1 + t.index(4));
    TyP ty = Gen(t, cfg).root(cfg.depth);
    NOTE(t, "type " << show(*ty));
    VCfg vc;
    vc.unselected = true;
    Val v = VGen(t, vc).val(*ty);
    NOTE(t, "value " << enc(*ty, v));
    xt::DynamicData d = make(*ty, v);
    nodes_seen = 0;
    node(t, d.cref(), d.ref(), *ty, v, "");
    expect(d, *ty, v, "after iterating");
    if (nodes_seen > 2) { t.nontrivial(); }
}

// ---- regressions
static void assign_other_type()
{
    // an iterator assigned from an iterator over a collection of another type
    xt::DynamicData a(seq(prim(K::U8))->x()), b(arr(str(K::Str), 2)->x());
    for (int i = 0; i < 3; ++i) { a.push(uint8_t(i)); }
    b[1] = std::string("x");
    auto it = a.cref().begin();
    it = b.cref().begin();
    ++it;
    CHECK((*it).value<std::string>() == "x", "iterator assigned");
}
static void temporaries()
{
    TyP s = strct("S", {Mem{"q", seq(prim(K::I32)), {}, false}, Mem{"s", strct("T", {Mem{"a", prim(K::I32), {}, false}}, nullptr, false), {}, false}}, nullptr, false);
    xt::DynamicData d(s->x());
    for (int i = 0; i < 5; ++i) { d["q"].push(int32_t(i)); }
    int n = 0;
    for (auto&& e : d["q"]) { CHECK(e.value<int32_t>() == n, "element " << n); ++n; }
    for (auto&& m : d["s"].items()) { m.data() = int32_t(9); ++n; }
    for (auto&& m : d.cref()["s"].items()) { CHECK(m.data().value<int32_t>() == 9, "member"); ++n; }
    CHECK(n == 7, n << " elements");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P15";
    p.rule = "case: a random type and value; at each of its nodes the elements found by iterating (in five ways), by index, by key, by name, by items()/citems() and as native vector must be the same objects with "
        "the values of the model, wrong ways and indexes must be refused, and writes through iterators must arrive. Non-trivial: more than two nodes.";
    p.body = body;
    p.quick_cases = 90000;
    p.thorough_cases = 3000000;
    p.regressions = {
        {"R-iterator-assign", "assigning an iterator takes the type of its elements", assign_other_type},
        {"R-temporaries", "iterators outlive the reference they come from", temporaries},
    };
    return pbt::run_main(argc, argv, p);
}
