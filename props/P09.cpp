// P09: unions: the discriminator and the selected case always agree.
#include "model.hpp"
using namespace model;

static std::string attempt(const std::function<void()>& f)
{
    try { f(); return ""; }
    catch (const std::runtime_error& e) { return e.what(); }
}

static size_t disc_size(const Ty& d) { return d.r().k == K::Enum ? d.r().ebytes : prim_size(d.r().k); }
// what the discriminator reads after a label was stored in it
static uint64_t as_disc(const Ty& dt, int64_t l)
{
    const Ty& d = dt.r();
    if (d.k == K::Enum) { return with_enum(d.ebytes, [&](auto z) { using T = decltype(z); return uint64_t(T(l)); }); }
    return with_prim(d.k, [&](auto z) -> uint64_t { using T = decltype(z); return to_u(T(l)); });
}
static uint64_t disc_of(const xt::ReadableDynamicDataRef& r, const Ty& dt)
{
    const Ty& d = dt.r();
    return read_leaf(r.d(), d).u;
}

struct Model
{
    TyP disc;
    std::vector<Mem> cases;
    int dflt = -1;
    std::map<uint64_t, int> by;         // masked label -> case
    std::set<uint64_t> reserved;

    explicit Model(TyP d) : disc(d)
    {
        uint64_t top = uint64_t(INT64_MAX) >> (64 - 8 * disc_size(*d));
        reserved = {top, top - 1};
    }
    uint64_t mask(int64_t l) const { return mask_label(*disc, uint64_t(l)); }
    int case_of(int64_t l) const
    {
        auto it = by.find(mask(l));
        if (it != by.end()) { return it->second; }
        return dflt;
    }
};

static void check_type(const xt::UnionType& u, const Model& m, const std::string& what)
{
    CHECK(u.kind() == xt::TypeKind::UNION_TYPE, what);
    CHECK(u.get_case_members().size() == m.cases.size(), what << ": " << u.get_case_members().size() << " cases instead of " << m.cases.size());
    CHECK(u.discriminator().name() == m.disc->x().name(), what << ": discriminator " << u.discriminator().name());
    size_t big = 0;
    for (size_t i = 0; i < m.cases.size(); ++i)
    {
        const Mem& c = m.cases[i];
        CHECK(u.get_case_members()[i] == c.name, what << ": case " << i << " is " << u.get_case_members()[i]);
        CHECK(u.has_member(c.name) && u.member(c.name).name() == c.name, what << ": member " << c.name);
        CHECK(u.member(c.name).type().name() == c.ty->x().name(), what << ": type of the member " << c.name);
        CHECK(u.is_default(c.name) == (int(i) == m.dflt), what << ": is_default(" << c.name << ")");
        std::multiset<uint64_t> want, got;
        for (int64_t l : c.labels) { want.insert(as_disc(*m.disc, l)); }
        for (int64_t l : u.get_labels(c.name)) { got.insert(uint64_t(l)); }
        if (want != got)
        {
            std::string s;
            for (uint64_t l : got) { s += std::to_string(int64_t(l)) + ","; }
            FAIL(what << ": get_labels(" << c.name << ") is " << s);
        }
        big = std::max(big, c.ty->x().memory_size());
    }
    CHECK(u.get_default() == (m.dflt < 0 ? "" : m.cases[m.dflt].name), what << ": get_default() is '" << u.get_default() << "'");
}

static std::string label_text(Tape& t, const Ty& dt, int64_t l)
{
    const Ty& d = dt.r();
    char b[64];
    switch (d.k)
    {
        case K::Bool: return l ? "TRUE" : "FALSE";
        case K::C8: case K::C16: case K::WC:
            if (l < 32 || l > 126 || l == '\'') { return ""; }
            return t.chance(1, 2) ? std::string(1, char(l)) : "'" + std::string(1, char(l)) + "'";
        case K::Enum:
            if (t.chance(1, 2)) { for (auto& e : d.en) { if (int64_t(e.second) == l) { return e.first; } } }
            return std::to_string(l);
        default:
            if (l >= 0 && t.chance(1, 3)) { snprintf(b, sizeof b, t.chance(1, 2) ? "0x%llx" : "0X%llX", (unsigned long long)l); return b; }
            if (l >= 0 && t.chance(1, 3)) { snprintf(b, sizeof b, "0%llo", (unsigned long long)l); return b; }
            return std::to_string(l);
    }
}

// adds a case with its labels given as numbers of the type T, if all of them are the same in that type
template<class T>
static bool add_as(xt::UnionType& u, const Model& m, const Mem& c, bool as_member, std::string& err)
{
    std::vector<T> ls;
    for (int64_t l : c.labels)
    {
        if (m.mask(int64_t(T(l))) != m.mask(l)) { return false; }
        ls.push_back(T(l));
    }
    err = attempt([&]
            {
                if (as_member) { u.add_case_member<T>(ls, xt::Member(c.name, c.ty->x()), c.dflt); }
                else { u.add_case_member<T>(ls, c.name, c.ty->x(), c.dflt); }
            });
    return true;
}

static void body(Tape& t)
{
    Cfg cfg;
    cfg.depth = 2;
    Gen g(t, cfg);
    TyP d = g.disc_type();
    Model m(d);
    bool shared = t.chance(1, 2);
    std::shared_ptr<xt::UnionType> sp = std::make_shared<xt::UnionType>("U", d->x());
    std::unique_ptr<xt::UnionType> up(new xt::UnionType("U", d->x()));
    xt::UnionType& u = shared ? *sp : *up;
    std::unique_ptr<xt::UnionType> v(new xt::UnionType("U", d->x()));   // the same one, with labels given as text
    bool text = true;
    size_t refused = 0, switches = 0;
    std::vector<int64_t> pool = g.label_pool(*d);
    NOTE(t, "union switch(" << show(*d) << ")");
    // ------------------------------------------------------------------ building
    size_t adds = 1 + t.index(6);
    int depth = 2;
    if (is_prim(d->r().k) && d->r().k != K::Bool && t.chance(1, 20))
    {
        // many cases, with any labels
        adds = 7 + t.index(60);
        depth = 1;
        pool.clear();
        std::set<uint64_t> masks = m.reserved;
        for (size_t i = 0; i < 100; ++i)
        {
            int64_t l = int64_t(as_disc(*d, t.chance(1, 2) ? int64_t(t.bits()) : t.range(-60, 200)));
            if (d->r().k == K::WC && l < 0) { continue; }      // (not a character)
            if (masks.insert(m.mask(l)).second) { pool.push_back(l); }
        }
        t.label("many cases");
    }
    for (size_t i = 0; i < adds; ++i)
    {
        Mem c;
        c.name = t.chance(1, 10) && !m.cases.empty() ? m.cases[t.index(m.cases.size())].name : t.chance(1, 20) ? "discriminator" : "m" + std::to_string(i);
        c.dflt = t.chance(1, 4);
        size_t n = t.weighted({1, 6, 2, 1});
        if (n == 0 && t.chance(2, 3)) { n = 1; }
        bool ok = (c.dflt || n > 0) && c.name != "discriminator" && !(c.dflt && m.dflt >= 0);
        for (auto& o : m.cases) { ok &= o.name != c.name; }
        std::set<uint64_t> now;
        for (size_t j = 0; j < n && !pool.empty(); ++j)
        {
            int64_t l = t.pick(pool);
            if (t.chance(1, 12)) { l = int64_t(*std::next(m.reserved.begin(), t.index(2))); }
            if (t.chance(1, 12)) { l = int64_t(t.below(100)); }
            if (d->r().k == K::Bool && l > 1) { l = 1; }
            if (!now.insert(m.mask(l)).second) { continue; }
            c.labels.push_back(l);
            ok &= !m.reserved.count(m.mask(l)) && !m.by.count(m.mask(l));
            if (d->r().k == K::Enum)
            {
                bool in = false;
                for (auto& e : d->r().en) { in |= e.second == uint64_t(as_disc(*d, l)); }
                ok &= in;
            }
        }
        if (c.labels.empty() && !c.dflt) { ok = false; }
        c.ty = g.type(depth);
        std::string ls;
        for (int64_t l : c.labels) { ls += std::to_string(l) + ","; }
        NOTE(t, "add " << c.name << " labels " << ls << (c.dflt ? " default" : "") << " " << show(*c.ty) << (ok ? "" : " (wrong)"));
        std::string err;
        bool as_member = t.chance(1, 2), done = false;
        switch (t.index(24))
        {
            case 1: done = add_as<int8_t>(u, m, c, as_member, err); break;
            case 2: done = add_as<uint8_t>(u, m, c, as_member, err); break;
            case 3: done = add_as<int16_t>(u, m, c, as_member, err); break;
            case 4: done = add_as<uint16_t>(u, m, c, as_member, err); break;
            case 5: case 6: done = add_as<int32_t>(u, m, c, as_member, err); break;
            case 7: case 8: done = add_as<uint32_t>(u, m, c, as_member, err); break;
            case 9: case 10: done = add_as<uint64_t>(u, m, c, as_member, err); break;
            case 11: done = add_as<char>(u, m, c, as_member, err); break;
            case 12: done = add_as<char16_t>(u, m, c, as_member, err); break;
            case 13: done = add_as<wchar_t>(u, m, c, as_member, err); break;
            case 14: done = add_as<bool>(u, m, c, as_member, err); break;
            default: break;
        }
        if (!done) { add_as<int64_t>(u, m, c, as_member, err); }
        CHECK(err.empty() == ok, "add_case_member(" << c.name << "): " << (err.empty() ? "accepted" : err));
        if (ok)
        {
            if (c.dflt) { m.dflt = int(m.cases.size()); }
            for (int64_t l : c.labels) { m.by[m.mask(l)] = int(m.cases.size()); }
            std::vector<std::string> lt;
            for (int64_t l : c.labels) { lt.push_back(label_text(t, *d, l)); text &= !lt.back().empty(); }
            if (c.dflt) { lt.insert(lt.begin() + t.index(lt.size() + 1), "default"); }
            if (text) { v->add_case_member(lt, xt::Member(c.name, c.ty->x())); }
            m.cases.push_back(c);
        }
        else { ++refused; }
        check_type(u, m, "type");
    }
    if (text && !m.cases.empty())
    {
        check_type(*v, m, "type with textual labels");
        if (u.is_compatible(u) == xt::TypeConsistency::EQUALS)
        {
            CHECK(u.is_compatible(*v) == xt::TypeConsistency::EQUALS && v->is_compatible(u) == xt::TypeConsistency::EQUALS,
                    "unions with the same labels given as numbers and as text aren't equal");
        }
        t.label("textual labels");
    }
    if (m.cases.empty()) { return; }

    // ------------------------------------------------------------------ data
    auto ut = std::make_shared<Ty>();
    ut->k = K::Union; ut->name = "U"; ut->c = d; ut->mem = m.cases;
    if (shared) { ut->sh = sp; } else { ut->un = std::move(up); }
    TyP uty = ut;
    TyP holder;
    size_t where = t.index(3);
    if (where == 0) { holder = uty; }
    else if (where == 1) { holder = strct("S", {Mem{"a", prim(K::U64), {}, false}, Mem{"u", uty, {}, false}, Mem{"z", prim(K::U64), {}, false}}); }
    else { holder = arr(uty, 2); }
    xt::DynamicData data(holder->x());
    auto at = [&](xt::DynamicData& x) -> xt::WritableDynamicDataRef { return where == 0 ? x.ref() : where == 1 ? x["u"] : x[1]; };
    Val val = dflt(*uty);
    bool isbool = d->r().k == K::Bool;
    bool known_disc = false;        // the discriminator was set, and must stay
    uint64_t disc = 0;
    size_t ops = 1 + t.index(10);
    for (size_t i = 0; i < ops; ++i)
    {
        xt::WritableDynamicDataRef w = at(data);
        switch (t.weighted({5, 5, 2, 2, 1, 1}))
        {
            case 0:     // select and write
            {
                int s = int(t.index(m.cases.size()));
                NOTE(t, "select " << m.cases[s].name);
                if (s != val.sel)
                {
                    ++switches;
                    val.sel = s;
                    val.v.assign(1, dflt(*m.cases[s].ty));
                    known_disc = false;
                }
                if (t.chance(1, 4)) { w[m.cases[s].name]; }     // only selecting it
                else
                {
                    Mutator mu(t);
                    std::string what = mu.step(w[m.cases[s].name], *m.cases[s].ty, val.v[0], m.cases[s].name);
                    NOTE(t, "  " << what);
                }
                break;
            }
            case 1:     // set the discriminator
            {
                int64_t l = t.chance(3, 4) && !pool.empty() ? t.pick(pool) : isbool ? int64_t(t.index(2)) : int64_t(as_disc(*d, int64_t(t.chance(1, 2) ? t.below(130) : t.bits())));
                if (val.sel >= 0 && !m.cases[val.sel].labels.empty() && t.chance(1, 2)) { l = t.pick(m.cases[val.sel].labels); }
                if (d->r().k == K::Enum)
                {
                    bool in = false;
                    for (auto& e : d->r().en) { in |= e.second == uint64_t(l); }
                    if (!in) { l = int64_t(d->r().en[0].second); }
                }
                int c = m.case_of(l);
                bool refuse = c >= 0 && val.sel >= 0 && c != val.sel;
                bool by_data = t.chance(1, 2);
                NOTE(t, "d(" << l << ") selects " << c << (by_data ? " by data" : "") << (refuse ? " (wrong)" : ""));
                std::string err = attempt([&]
                        {
                            if (by_data)
                            {
                                xt::DynamicData x(d->x());
                                Val lv;
                                lv.u = as_disc(*d, l);
                                write_leaf(x.ref(), *d, lv);
                                w.d(x.ref());
                            }
                            else { w.d(l); }
                        });
                CHECK(err.empty() == !refuse, "d(" << l << "): " << (err.empty() ? "accepted" : err));
                if (refuse) { ++refused; }
                else if (c >= 0)
                {
                    if (val.sel < 0) { val.sel = c; val.v.assign(1, dflt(*m.cases[c].ty)); ++switches; }
                    known_disc = true;
                    disc = as_disc(*d, l);
                }
                break;
            }
            case 2:     // read a case that isn't selected
            {
                int s = int(t.index(m.cases.size()));
                NOTE(t, "read " << m.cases[s].name);
                std::string e1 = attempt([&] { w.cref()[m.cases[s].name]; });
                std::string e2 = attempt([&] { w.get_member(m.cases[s].name); });
                CHECK(e1.empty() == (s == val.sel), "read of " << m.cases[s].name << ": " << (e1.empty() ? "accepted" : e1));
                CHECK(e2.empty() == (s == val.sel), "get_member(" << m.cases[s].name << "): " << (e2.empty() ? "accepted" : e2));
                if (s != val.sel) { ++refused; }
                CHECK(!attempt([&] { w["discriminator"]; }).empty(), "the discriminator was accessed by its name");
                CHECK(!attempt([&] { w["nothing"]; }).empty(), "an unknown case was accessed");
                CHECK(!attempt([&] { w[size_t(0)]; }).empty(), "a case was accessed by index");
                break;
            }
            case 3:     // copies follow it
            {
                xt::DynamicData c(w.cref());
                CHECK(c == w, "a copy isn't equal");
                CHECK(c.hash() == w.hash(), "a copy has other hash");
                expect(c, *uty, val, "copy");
                if (known_disc) { CHECK(disc_of(c, *d) == disc, "discriminator of the copy"); }
                xt::DynamicData mv(std::move(c));
                expect(mv, *uty, val, "moved copy");
                if (known_disc) { CHECK(disc_of(mv, *d) == disc, "discriminator of the moved copy"); }
                NOTE(t, "copy");
                break;
            }
            case 4:     // assignment of other value, with its discriminator
            {
                Val n = VGen(t, VCfg()).val(*uty);
                xt::DynamicData x = make(*uty, n);
                bool set = n.sel >= 0 && !m.cases[n.sel].labels.empty() && t.chance(1, 2);
                if (set) { x.d(t.pick(m.cases[n.sel].labels)); }
                w = x.ref();
                switches += n.sel != val.sel;
                val = n;
                known_disc = !isbool || n.sel >= 0;
                disc = disc_of(x, *d);
                NOTE(t, "assign " << enc(*uty, val) << " with discriminator " << int64_t(disc));
                break;
            }
            default:    // converted to a union with the same cases and other name, and back
            {
                TyP o = unio("O", d, m.cases);
                xt::DynamicData c(w.cref(), o->x());
                expect(c, *o, val, "converted");
                if (known_disc && val.sel >= 0) { CHECK(disc_of(c, *d) == disc, "discriminator of the converted one"); }
                NOTE(t, "convert");
            }
        }
        w = at(data);
        xt::ReadableDynamicDataRef r = w.cref();
        expect(r, *uty, val, "data");
        if (val.sel >= 0)
        {
            CHECK(r.current_case().name() == m.cases[val.sel].name, "current_case() is " << r.current_case().name());
            uint64_t now = disc_of(r, *d);
            CHECK(m.case_of(int64_t(now)) == val.sel, "the discriminator " << int64_t(now) << " belongs to other case than " << m.cases[val.sel].name);
            if (known_disc) { CHECK(now == disc, "the discriminator is " << int64_t(now) << " instead of " << int64_t(disc)); }
            disc = now;
            known_disc = true;
        }
        else { CHECK(!attempt([&] { r.current_case(); }).empty(), "a case is selected"); }
        if (where == 1) { CHECK(data["a"].value<uint64_t>() == 0 && data["z"].value<uint64_t>() == 0, "the neighbours of the union were written"); }
        if (where == 2) { expect(data[0], *uty, dflt(*uty), "the other element"); }
    }
    if (m.cases.size() > 1 && switches > 1 && refused > 0) { t.nontrivial(); }
    if (m.dflt >= 0) { t.label("with default"); }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P09";
    p.rule = "case: a union with a discriminator of any allowed type (integers, characters, bool, enumerations, aliases of them), built by 1-6 additions of cases (now and then up to 66), some of them wrong, with labels as numbers "
        "and as text; then 1-10 operations on data of it (alone, in a structure or an array): select and write, set the discriminator, read other cases, copy, assign, convert. "
        "Non-trivial: two or more cases, two switches and something refused.";
    p.body = body;
    p.quick_cases = 150000;
    p.thorough_cases = 5000000;
    p.leak_check = true;
    p.regressions.push_back({"R-keep-disc", "accessing the selected case keeps the discriminator that was set", []
            {
                xt::UnionType u("U", xt::primitive_type<int32_t>());
                u.add_case_member<int>({1, 2}, "a", xt::primitive_type<int32_t>());
                xt::DynamicData d(u);
                d["a"] = 5;
                d.d(2);
                d["a"] = 6;
                CHECK(d.d().value<int32_t>() == 2, "discriminator is " << d.d().value<int32_t>());
            }});
    p.regressions.push_back({"R-refused", "a refused case leaves the union as it was", []
            {
                xt::UnionType u("U", xt::primitive_type<int32_t>());
                u.add_case_member<int>({1}, "a", xt::primitive_type<int32_t>());
                CHECK(!attempt([&] { u.add_case_member<int>({2, 1}, "b", xt::primitive_type<int32_t>(), true); }).empty(), "accepted");
                CHECK(u.get_default().empty() && !u.has_member("b"), "it was added");
                xt::DynamicData d(u);
                d.d(2);
                CHECK(!attempt([&] { d.current_case(); }).empty(), "label 2 selects something");
            }});
    return pbt::run_main(argc, argv, p);
}
