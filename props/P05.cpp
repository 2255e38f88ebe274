// P05: a map associates each key, identified by its value, with one value.
#include "model.hpp"
using namespace model;

static std::string attempt(const std::function<void()>& f)
{
    try { f(); return ""; }
    catch (const std::runtime_error& e) { return e.what(); }
}

struct Model
{
    const Ty& m;
    std::map<std::string, std::pair<Val, Val>> e;
    Val val() const
    {
        Val v;
        for (auto& x : e) { Val p; p.v = {x.second.first, x.second.second}; v.v.push_back(p); }
        return v;
    }
};

static void views(const xt::DynamicData& d, const Model& m)
{
    CHECK(d.size() == m.e.size(), "size() is " << d.size() << ", expected " << m.e.size());
    CHECK(d.bounds() == m.m.bound, "bounds() is " << d.bounds() << ", expected " << m.m.bound);
    expect(d, m.m, m.val(), "map");
    for (auto& x : m.e)
    {
        xt::DynamicData k = make(*m.m.key, x.second.first);
        CHECK(d.has_key(k), "has_key is false for the key " << x.first);
        expect(d.cref().at(k), *m.m.c, x.second.second, "at(" + x.first + ")");
    }
}

static void body(Tape& t)
{
    Cfg cfg;
    cfg.float_keys = true;
    cfg.depth = int(t.index(3));
    cfg.pairs = true;
    Gen g(t, cfg);
    TyP k;
    // keys: mostly leaves; small domains make keys meet
    switch (t.weighted({4, 2, 2, 2}))
    {
        case 0: k = g.leaf(); break;
        case 1: k = g.type(2); break;
        case 2: k = str(K::Str, 0, g.sh()); break;
        default: k = prim(g.prim_kind());
    }
    TyP c = g.type(cfg.depth);
    uint32_t bound = t.chance(1, 2) ? 0 : uint32_t(t.chance(1, 4) ? 1 + t.index(120) : 1 + t.index(10));
    TyP ty = mp(k, c, bound, g.sh());
    NOTE(t, "type " << show(*ty));
    label_kinds(t, *ty);
    VCfg vc;
    vc.big = false;
    vc.max_items = 3;
    VCfg vu = vc;
    vu.unselected = true;
    Mutator mut(t, vu);
    Model m{*ty, {}};
    xt::DynamicData d(ty->x());
    bool longrun = t.chance(1, 10);
    size_t steps = longrun ? 30 + t.index(is_leaf(k->r().k) ? 400 : 60) : 1 + t.index(24);
    if (longrun) { t.label("long history"); }
    size_t inserted = 0, met = 0;
    for (size_t n = 0; n < steps; ++n)
    {
        // a key: new or one of those present
        Val kv;
        if (!m.e.empty() && t.chance(1, 3))
        {
            auto it = m.e.begin();
            std::advance(it, t.index(m.e.size()));
            kv = it->second.first;
        }
        else { kv = VGen(t, vc).val(*k); }
        std::string ek = enc(*k, kv);
        xt::DynamicData kd = make(*k, kv);
        bool present = m.e.count(ek) > 0, full = bound && m.e.size() >= bound;
        met += present;
        switch (t.weighted({6, 2, 2, 4, 2, 1, 1, 1}))
        {
            case 0:
            {
                NOTE(t, "[" << ek << "]" << (present ? " (present)" : full ? " (full)" : ""));
                if (!present && full)
                {
                    CHECK(!attempt([&] { d[kd]; }).empty(), "a full map accepted the key " << ek);
                    t.label("op:refused");
                    break;
                }
                xt::WritableDynamicDataRef w = d[kd];
                if (!present) { m.e[ek] = {kv, dflt(*c)}; ++inserted; }
                expect(w, *c, m.e[ek].second, "value of " + ek + (present ? "" : ", just added"));
                if (t.chance(3, 4)) { std::string what = mut.step(w, *c, m.e[ek].second, "[" + ek + "]"); NOTE(t, what); }
                t.label(present ? "op:write" : "op:add");
                break;
            }
            case 1:
                NOTE(t, "at " << ek);
                if (!present)
                {
                    CHECK(!attempt([&] { d.at(kd); }).empty(), "at() found the key " << ek << ", which is not in the map");
                    CHECK(!attempt([&] { d.cref().at(kd); }).empty(), "at() found the key " << ek << ", which is not in the map");
                    t.label("op:at-missing");
                }
                else { std::string what = mut.step(d.at(kd), *c, m.e[ek].second, "at " + ek); NOTE(t, what); t.label("op:at"); }
                break;
            case 2:
                CHECK(d.has_key(kd) == present, "has_key(" << ek << ") is " << d.has_key(kd));
                t.label("op:has_key");
                break;
            case 3:
            {
                Val cv = mut.gen(*c);
                TyP p = pr(k, c);
                Val pv;
                pv.v = {kv, cv};
                xt::DynamicData pd = make(*p, pv);
                bool ok = false;
                std::string err = attempt([&] { ok = d.insert(pd); });
                NOTE(t, "insert " << enc(*p, pv));
                if (present || full) { CHECK(!ok, "insert of " << ek << " succeeded although " << (present ? "the key was present" : "the map is full")); t.label("op:refused-insert"); }
                else
                {
                    CHECK(err.empty() && ok, "insert of " << ek << " failed " << err);
                    m.e[ek] = {kv, cv};
                    ++inserted;
                    t.label("op:insert");
                }
                break;
            }
            case 4:
            {
                // the same content reached by another history is the same value
                auto es = m.val();
                for (size_t i = es.v.size(); i > 1; --i) { std::swap(es.v[i - 1], es.v[t.index(i)]); }
                xt::DynamicData o = make(*ty, es);
                if (!several_labels(*ty))
                {
                    CHECK(o == d && d == o, "maps with the same entries compare different");
                    CHECK(o.hash() == d.hash(), "maps with the same entries have different hashes");
                }
                if (!es.v.empty())
                {
                    // one value or one key changed
                    Val old = es.v[0].v[1];
                    Val nv = mut.gen(*c);
                    if (!same(*c, old, nv) )
                    {
                        xt::DynamicData k0 = make(*k, es.v[0].v[0]);
                        xt::DynamicData x = make(*c, nv);
                        o[k0] = x.ref();
                        CHECK(!(o == d) && o != d, "maps that differ in one value compare equal");
                    }
                    t.label("op:compared");
                }
                if (t.chance(1, 2)) { o = d; d = o; }
                break;
            }
            case 5:
            {
                // entries of the map itself as keys and values
                if (m.e.empty()) { break; }
                size_t i = t.index(m.e.size()), j = 0;
                for (xt::WritableDynamicDataRef p : d)
                {
                    if (j++ == i)
                    {
                        xt::WritableDynamicDataRef first = p[0];
                        Val fk = read(first, *k);
                        std::string e2 = enc(*k, fk);
                        CHECK(m.e.count(e2), "iteration finds the key " << e2 << ", which is not in the map");
                        CHECK(d.has_key(first), "has_key is false for a key taken from the map");
                        CHECK(d[first].instance_id() == p[1].instance_id(), "[key] is not the value that iteration pairs with the key");
                        CHECK(!d.insert(p), "the map accepted its own entry again");
                        break;
                    }
                }
                t.label("op:own-entry");
                break;
            }
            case 6:
            {
                xt::DynamicData e(d);
                d = e;
                xt::DynamicData f(std::move(e));
                expect(f, *ty, m.val(), "copied and moved map");
                t.label("op:copy");
                break;
            }
            case 7:
                CHECK(!attempt([&] { d[size_t(0)]; }).empty(), "a map was accessed by index");
                break;
        }
        if (!longrun || n % 24 == 0 || n + 1 == steps) { views(d, m); }
        else { CHECK(d.size() == m.e.size(), "size() is " << d.size() << ", expected " << m.e.size()); }
    }
    if (inserted > 1 && met > 0) { t.nontrivial(); }
}

// ---- regressions
static void many()
{
    TyP m = mp(prim(K::I64), str(K::Str));
    xt::DynamicData d(m->x()), k(prim(K::I64)->x());
    for (int i = 0; i < 2000; ++i) { k = int64_t(uint64_t(i) * 0x9e3779b97f4a7c15ULL); d[k] = std::to_string(i); }
    CHECK(d.size() == 2000, "size " << d.size());
    for (int i = 0; i < 2000; ++i) { k = int64_t(uint64_t(i) * 0x9e3779b97f4a7c15ULL); CHECK(d.at(k).value<std::string>() == std::to_string(i), "entry " << i); }
}
static void colliding_struct_keys()
{
    TyP s = strct("S", {Mem{"a", prim(K::I32), {}, false}, Mem{"b", prim(K::I32), {}, false}, Mem{"c", prim(K::I32), {}, false}});
    TyP m = mp(s, prim(K::I32));
    xt::DynamicData d(m->x()), k(s->x());
    for (int32_t a = 0; a < 9; ++a)
    {
        for (int32_t b = 0; b < 9; ++b)
        {
            for (int32_t c = 0; c < 9; ++c) { k["a"] = a; k["b"] = b; k["c"] = c; d[k] = a * 81 + b * 9 + c; }
        }
    }
    CHECK(d.size() == 729, "729 different keys make " << d.size() << " entries");
    for (int32_t a = 0; a < 9; ++a)
    {
        for (int32_t b = 0; b < 9; ++b)
        {
            for (int32_t c = 0; c < 9; ++c)
            {
                k["a"] = a; k["b"] = b; k["c"] = c;
                CHECK(d.at(k).value<int32_t>() == a * 81 + b * 9 + c, "entry " << a << b << c);
            }
        }
    }
}
static void sequence_keys()
{
    TyP q = seq(prim(K::I32)), m = mp(q, prim(K::I32));
    xt::DynamicData d(m->x());
    for (int i = 0; i < 10; ++i)
    {
        xt::DynamicData k(q->x());
        for (int j = 0; j < i; ++j) { k.push(int32_t(j)); }
        d[k] = int32_t(i);
    }
    CHECK(d.size() == 10, "10 different keys make " << d.size() << " entries");
    for (int i = 0; i < 10; ++i)
    {
        xt::DynamicData k(q->x());
        for (int j = 0; j < i; ++j) { k.push(int32_t(j)); }
        k.resize(size_t(i));
        CHECK(d.at(k).value<int32_t>() == i, "entry " << i);
    }
}
static void pair_value()
{
    TyP m = mp(str(K::Str), str(K::Str)), p = pr(str(K::Str), str(K::Str));
    xt::DynamicData d(m->x()), x(p->x());
    x[0] = std::string("key");
    x[1] = std::string("value");
    CHECK(d.insert(x), "insert");
    CHECK(d.at(x[0]).value<std::string>() == "value", "inserted value is '" << d.at(x[0]).value<std::string>() << "'");
}
static void converted()
{
    TyP a = mp(prim(K::I32), str(K::Str)), b = mp(prim(K::I32), str(K::Str), 3);
    xt::DynamicData d(a->x()), k(prim(K::I32)->x());
    for (int32_t i = 0; i < 5; ++i) { k = i; d[k] = std::to_string(i); }
    xt::DynamicData e(d, b->x());
    CHECK(e.size() == 3, "a map of 5 entries converted to a bound of 3 has " << e.size());
    for (auto p : e.cref()) { CHECK(p[1].value<std::string>() == std::to_string(p[0].value<int32_t>()), "converted entry"); }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P05";
    p.rule = "case: a map (bounded or not) of random key and value types and 1-430 operations ([], at, has_key, insert of pairs, writes, comparison with a map of the same entries "
        "built in another order, use of its own entries), compared with a std::map model after them. Non-trivial: at least two entries were added and a key was met again.";
    p.body = body;
    p.quick_cases = 30000;
    p.thorough_cases = 3000000;
    p.regressions = {
        {"R-many", "large maps", many},
        {"R-colliding-keys", "keys with one hash are different keys", colliding_struct_keys},
        {"R-sequence-keys", "sequences as keys", sequence_keys},
        {"R-pair-value", "insert stores the value of the pair", pair_value},
        {"R-converted", "a converted map keeps its entries", converted},
    };
    return pbt::run_main(argc, argv, p);
}
