// P04: a sequence is a vector with an optional bound; an array is a vector of fixed size.
#include "model.hpp"
using namespace model;

static std::string attempt(const std::function<void()>& f)
{
    try { f(); return ""; }
    catch (const std::runtime_error& e) { return e.what(); }
}

template<class F> static void with_leaf(const Ty& r, F&& f)
{
    if (is_prim(r.k)) { with_prim(r.k, [&](auto z) { f(z); }); }
    else if (is_string(r.k)) { with_str(r.k, [&](auto z) { f(z); }); }
}
template<class T> static T native(const Val& v)
{
    if constexpr (std::is_arithmetic<T>::value) { return to_prim<T>(v); }
    else { return to_str<T>(v); }
}
template<class T> static Val model_of(const T& x)
{
    if constexpr (std::is_arithmetic<T>::value) { return from_prim<T>(x); }
    else { return from_str<T>(x); }
}
static Val truncated(const Ty& r, Val v)
{
    if (is_string(r.k) && r.bound && v.s.size() > r.bound) { v.s.resize(r.bound); }
    return v;
}

static void views(const xt::DynamicData& d, const Ty& q, const Val& v)
{
    const Ty& c = *q.c;
    CHECK(d.size() == v.v.size(), "size() is " << d.size() << ", expected " << v.v.size());
    CHECK(d.bounds() == q.bound, "bounds() is " << d.bounds() << ", expected " << q.bound);
    expect(d, q, v, "by index");
    size_t i = 0;
    for (xt::ReadableDynamicDataRef e : d.cref())
    {
        CHECK(i < v.v.size(), "iteration goes past the end");
        expect(e, c, v.v[i], "element " + std::to_string(i) + " by iterator");
        ++i;
    }
    CHECK(i == v.v.size(), "iteration finds " << i << " elements of " << v.v.size());
    with_leaf(c, [&](auto z)
            {
                using T = decltype(z);
                std::vector<T> w = d.as_vector<T>();
                CHECK(w.size() == v.v.size(), "as_vector() has " << w.size() << " elements");
                for (size_t k = 0; k < w.size(); ++k)
                {
                    CHECK(enc(c, model_of<T>(w[k])) == enc(c, v.v[k]), "as_vector()[" << k << "] is " << enc(c, model_of<T>(w[k])) << ", expected " << enc(c, v.v[k]));
                }
            });
}

// Sequences of many elements (blocks that are reallocated, moved and shared by size).
static void many(Tape& t)
{
    TyP c = prim(K(t.index(15)));
    bool bounded = t.chance(1, 2);
    size_t limit = t.chance(1, 3) ? 65530 + t.index(12) : 1000 + t.index(150000);
    TyP q = seq(c, bounded ? uint32_t(limit) : 0, true);
    NOTE(t, "type " << show(*q));
    t.label("many elements");
    with_prim(c->k, [&](auto z)
            {
                using T = decltype(z);
                std::vector<T> w;
                xt::DynamicData d(q->x());
                uint64_t salt = t.bits() | 1;
                auto native = [&](size_t i) -> T { uint64_t u = (i + 1) * salt; if constexpr (std::is_same<T, bool>::value) { return (u >> 20) & 1; } else { return T(int64_t(u >> 40) & 0x7f7f7f); } };
                for (size_t k = 1 + t.index(4); k > 0; --k)
                {
                    if (t.chance(1, 3))
                    {
                        size_t n = std::min<size_t>(limit, w.size() + t.index(limit));
                        d.resize(n);
                        if (w.size() < n) { w.resize(n, T()); }
                        NOTE(t, "resize " << n);
                    }
                    size_t pushes = t.chance(1, 2) ? limit - w.size() : std::min<size_t>(limit - w.size(), t.index(3000));
                    for (size_t i = 0; i < pushes; ++i) { T x = native(w.size()); d.push<T>(x); w.push_back(x); }
                    NOTE(t, pushes << " pushes");
                    for (size_t i = 0; i < 20 && !w.empty(); ++i) { size_t j = t.index(w.size()); T x = native(j + 7); d[j] = x; w[j] = x; }
                    if (bounded && w.size() == limit)
                    {
                        CHECK(!attempt([&] { d.push<T>(T()); }).empty(), "push was accepted by a full sequence");
                        CHECK(!attempt([&] { d.resize(limit + 1); }).empty(), "resize was accepted beyond the bound");
                    }
                    CHECK(d.size() == w.size(), "size() is " << d.size() << ", expected " << w.size());
                    CHECK(d.as_vector<T>() == w, "as_vector() isn't what was pushed");
                    xt::DynamicData e(d);
                    CHECK(e == d && e.hash() == d.hash(), "a copy compares different");
                    CHECK(e.as_vector<T>() == w, "as_vector() of a copy isn't what was pushed");
                    size_t i = 0;
                    for (xt::ReadableDynamicDataRef x : e.cref()) { CHECK(i < w.size() && x.value<T>() == w[i], "element " << i << " by iterator"); ++i; }
                    CHECK(i == w.size(), "iteration finds " << i << " elements of " << w.size());
                    for (size_t j = 0; j < w.size(); j += 1 + t.index(64)) { CHECK(d[j].template value<T>() == w[j], "element " << j); }
                    if (!w.empty())
                    {
                        e[w.size() - 1] = native(w.size() + 5);
                        CHECK((e == d) == (native(w.size() + 5) == w.back()), "the last element isn't compared");
                    }
                }
            });
    t.nontrivial();
}

static void body(Tape& t)
{
    if (t.chance(1, 400)) { many(t); return; }
    Cfg cfg;
    cfg.depth = int(t.index(3));
    cfg.pairs = true;
    Gen g(t, cfg);
    TyP c = g.type(cfg.depth);
    bool array = t.chance(1, 6);
    uint32_t bound = array ? uint32_t(1 + t.index(12)) : t.chance(1, 2) ? 0 : uint32_t(t.chance(1, 4) ? 1 + t.index(200) : 1 + t.index(12));
    TyP q = array ? arr(c, bound, g.sh()) : seq(c, bound, g.sh());
    NOTE(t, "type " << show(*q));
    label_kinds(t, *q);
    VCfg vc;
    vc.unselected = true;
    vc.big = false;
    Mutator m(t, vc);
    Val v = dflt(*q);
    xt::DynamicData d(q->x());
    bool leaf = is_leaf(c->r().k);
    bool longrun = t.chance(1, 12);
    size_t steps = longrun ? 20 + t.index(leaf ? 300 : 60) : 1 + t.index(20), grown = 0;
    if (longrun) { t.label("long history"); }
    for (size_t n = 0; n < steps; ++n)
    {
        bool full = bound && v.v.size() >= bound;
        switch (t.weighted({6, 3, 3, 2, 2, 1, 1, 1}))
        {
            case 0:
            {
                Val e = m.gen(*c);
                xt::DynamicData x = make(*c, e);
                std::string err = attempt([&] { d.push(x); });
                if (array || full) { CHECK(!err.empty(), "push was accepted by " << (array ? "an array" : "a full sequence")); t.label("op:refused-push"); }
                else { CHECK(err.empty(), "push refused: " << err); v.v.push_back(e); ++grown; t.label("op:push"); }
                NOTE(t, "push " << enc(*c, e));
                break;
            }
            case 1:
                if (c->k == K::Enum || c->k == K::Alias || !leaf) { break; }
                {
                    VCfg loose = vc;
                    Val e = VGen(t, loose).leaf(*c);
                    if (is_string(c->k) && t.chance(1, 3)) { for (int i = 0; i < 30; ++i) { e.s.push_back('t'); } }
                    std::string err;
                    with_leaf(*c, [&](auto z) { using T = decltype(z); err = attempt([&] { d.push<T>(native<T>(e)); }); });
                    if (array || full) { CHECK(!err.empty(), "push was accepted by " << (array ? "an array" : "a full sequence")); }
                    else { CHECK(err.empty(), "push refused: " << err); v.v.push_back(truncated(*c, e)); ++grown; t.label("op:push-native"); }
                    NOTE(t, "push value " << enc(*c, e));
                }
                break;
            case 2:
                if (v.v.empty()) { break; }
                {
                    size_t i = t.index(v.v.size());
                    std::string what = m.step(d[i], *c, v.v[i], "d[" + std::to_string(i) + "]");
                    NOTE(t, what);
                    t.label("op:write-element");
                }
                break;
            case 3:
            {
                size_t n2 = t.index(std::max<size_t>(v.v.size(), bound) + 4);
                if (longrun && t.chance(1, 3)) { n2 += t.index(120); }
                std::string err = attempt([&] { d.resize(n2); });
                if (array || (bound && n2 > bound)) { CHECK(!err.empty(), "resize(" << n2 << ") was accepted"); t.label("op:refused-resize"); }
                else
                {
                    CHECK(err.empty(), "resize(" << n2 << ") refused: " << err);
                    if (n2 > v.v.size()) { ++grown; }
                    while (v.v.size() < n2) { v.v.push_back(dflt(*c)); }
                    t.label("op:resize");
                }
                NOTE(t, "resize " << n2);
                break;
            }
            case 4:
                if (v.v.empty() || array || full) { break; }
                {
                    size_t i = t.index(v.v.size());
                    d.push(d[i]);
                    Val e = v.v[i];
                    v.v.push_back(e);
                    ++grown;
                    t.label("op:push-own-element");
                    NOTE(t, "push own element " << i);
                }
                break;
            case 5:
            {
                size_t i = v.v.size() + t.index(3);
                std::string err = attempt([&] { d[i]; });
                CHECK(!err.empty(), "index " << i << " of a collection of " << v.v.size() << " was accepted");
                err = attempt([&] { d.cref()[i]; });
                CHECK(!err.empty(), "read index " << i << " of a collection of " << v.v.size() << " was accepted");
                t.label("op:out-of-range");
                break;
            }
            case 6:
            {
                // the same content reached by another history is the same value
                xt::DynamicData e = make(*q, v);
                if (!several_labels(*q))
                {
                    CHECK(e == d && !(e != d), "a collection with the same elements compares different");
                    CHECK(e.hash() == d.hash(), "a collection with the same elements has another hash");
                }
                xt::DynamicData f(d);
                CHECK(f == d, "a copy compares different");
                d = e;
                t.label("op:rebuilt");
                break;
            }
            case 7:
                if (v.v.size() < 2) { break; }
                {
                    size_t i = t.index(v.v.size()), j = t.index(v.v.size());
                    d[i] = d[j];
                    v.v[i] = Val(v.v[j]);
                    t.label("op:element-to-element");
                    NOTE(t, "d[" << i << "] = d[" << j << "]");
                }
                break;
        }
        if (!longrun || n % 16 == 0 || n + 1 == steps)
        {
            if (array) { Val w = v; (void)w; CHECK(d.size() == bound && d.bounds() == bound, "size of an array changed"); }
            views(d, *q, v);
        }
    }
    if (grown > 1 || (array && steps > 2)) { t.nontrivial(); }
}

// ---- regressions
static void empty_vector()
{
    xt::DynamicData d(seq(prim(K::I32))->x());
    CHECK(d.as_vector<int32_t>().empty(), "as_vector of an empty sequence");
    xt::DynamicData e(seq(str(K::Str), 4)->x());
    CHECK(e.as_vector<std::string>().empty(), "as_vector of an empty bounded sequence");
}
static void wrong_type_push()
{
    xt::DynamicData d(seq(prim(K::I32))->x());
    xt::DynamicData x(prim(K::I64)->x());
    x = int64_t(7);
    std::string err = attempt([&] { d.push(x); });
    CHECK(!err.empty() && d.size() == 0, "a sequence of int32 was pushed an int64");
}
static void large()
{
    TyP q = seq(str(K::Str));
    xt::DynamicData d(q->x());
    for (int i = 0; i < 3000; ++i) { d.push("element number " + std::to_string(i)); }
    for (int i = 0; i < 3000; ++i) { CHECK(d[i].value<std::string>() == "element number " + std::to_string(i), "element " << i); }
    xt::DynamicData e(seq(prim(K::U16))->x());
    for (int i = 0; i < 70000; ++i) { e.push(uint16_t(i)); }
    CHECK(e.size() == 70000, "size " << e.size());
    for (int i = 0; i < 70000; ++i) { CHECK(e[i].value<uint16_t>() == uint16_t(i), "element " << i); }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P04";
    p.rule = "case: a sequence (bounded or not) or array of a random element type and 1-320 operations (push of data, of native values and of own elements, resize, element writes, "
        "accesses and growth past the limits, rebuilding), and (1 of 400) sequences of up to 150000 primitive elements; size, indexes, iteration and as_vector are compared with a std::vector model. Non-trivial: it grew at least twice.";
    p.body = body;
    p.quick_cases = 90000;
    p.thorough_cases = 4000000;
    p.regressions = {
        {"R-empty-vector", "as_vector of an empty sequence is empty", empty_vector},
        {"R-wrong-type-push", "data of another type cannot be pushed", wrong_type_push},
        {"R-large", "large sequences", large},
    };
    return pbt::run_main(argc, argv, p);
}
