// P16: a structure has the members it was given, in order, after those it inherits, each with its annotations.
#include "model.hpp"
#include "big.hpp"
using namespace model;

template<class F> static bool refused(F&& f)
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}

struct MM { Mem m; int32_t id = -1; bool key = false, opt = false; };

// A structure and what is known about it.
struct S
{
    std::unique_ptr<xt::StructType> x;
    std::string name;
    std::vector<MM> mem;
    bool parent = false;
    std::string parent_name;
    size_t parent_size = 0;

    TyP ty() const
    {
        std::vector<Mem> own;
        for (auto& m : mem) { own.push_back(m.m); }
        return strct(name, own, nullptr, false);
    }
};

static void verify(const xt::StructType& x, const S& s, const std::string& what)
{
    CHECK(x.name() == s.name && x.kind() == xt::TypeKind::STRUCTURE_TYPE, what << ": its name is " << x.name());
    CHECK(x.is_aggregation_type() && x.is_constructed_type() && !x.is_collection_type() && !x.is_primitive_type() && !x.is_enumerated_type() && !x.is_floating_point_type(), what << ": classes of the kind");
    CHECK(x.members().size() == s.mem.size(), what << ": has " << x.members().size() << " members of " << s.mem.size());
    std::vector<std::pair<size_t, size_t>> places;
    for (size_t i = 0; i < s.mem.size(); ++i)
    {
        const MM& w = s.mem[i];
        const xt::Member& m = x.member(i);
        CHECK(m.name() == w.m.name, what << ": member " << i << " is " << m.name() << ", should be " << w.m.name);
        CHECK(x.has_member(w.m.name) && &x.member(w.m.name) == &m && &x.members()[i] == &m, what << ": member " << w.m.name << " isn't found by its name");
        CHECK(m.get_id() == w.id && m.has_id() == (w.id >= 0) && m.is_key() == w.key && m.is_optional() == w.opt, what << ": annotations of " << w.m.name);
        CHECK(m.type().kind() == w.m.ty->x().kind() && m.type().name() == w.m.ty->x().name(), what << ": type of " << w.m.name << " is " << m.type().name() << ", should be " << show(*w.m.ty));
        CHECK(m.type().is_compatible(w.m.ty->x()) == xt::TypeConsistency::EQUALS, what << ": type of " << w.m.name << " changed");
        if (m.type().memory_size()) { places.push_back({m.offset(), m.offset() + m.type().memory_size()}); }
    }
    std::sort(places.begin(), places.end());
    for (size_t i = 0; i < places.size(); ++i)
    {
        CHECK(places[i].second <= x.memory_size(), what << ": a member ends at " << places[i].second << " in a structure of " << x.memory_size() << " bytes");
        CHECK(i == 0 || places[i - 1].second <= places[i].first, what << ": two members overlap");
    }
    CHECK(!x.has_member("no such member") && refused([&] { x.member("no such member"); }) && refused([&] { x.member(s.mem.size()); }), what << ": finds a member that isn't there");
    CHECK(x.has_parent() == s.parent, what << ": has_parent() is " << x.has_parent());
    if (s.parent)
    {
        CHECK(x.parent().name() == s.parent_name && x.parent().members().size() == s.parent_size, what << ": its parent is " << x.parent().name() << " with " << x.parent().members().size() << " members");
        for (size_t i = 0; i < s.parent_size; ++i) { CHECK(x.parent().member(i).name() == s.mem[i].m.name, what << ": the members of the parent aren't the first ones"); }
    }
    else { CHECK(refused([&] { x.parent(); }), what << ": a parent that isn't there is not refused"); }
}

// Data of the structure has its members, with default values, and each is independent of the others.
static void data(Tape& t, const xt::StructType& x, const S& s, const std::string& what)
{
    TyP ty = s.ty();
    xt::DynamicData d(x);
    Val v = dflt(*ty);
    expect(d, *ty, v, what + ": new data");
    for (int i = 0; i < 4 && !s.mem.empty(); ++i)
    {
        size_t k = t.index(s.mem.size());
        Val n = VGen(t).val(*ty->mem[k].ty);
        xt::DynamicData src = make(*ty->mem[k].ty, n);
        if (t.chance(1, 2)) { d[s.mem[k].m.name] = src.ref(); } else { d[k] = src.ref(); }
        v.v[k] = n;
        expect(d, *ty, v, what + ": after writing " + s.mem[k].m.name);
    }
}

static size_t weight(const Ty& t)
{
    size_t n = 1;
    if (t.c) { n += weight(*t.c) * (t.k == K::Array ? t.bound : 1); }
    if (t.key) { n += weight(*t.key); }
    for (auto& m : t.mem) { n += weight(*m.ty); }
    return n;
}

static void add(S& s, MM m) { s.mem.push_back(std::move(m)); }

static void body(Tape& t)
{
    if (t.chance(1, 600)) { if (t.chance(2, 3)) { big::types(t); } else { big::values(t); } return; }
    Cfg cfg;
    cfg.pairs = false;
    cfg.depth = 2;
    Gen g(t, cfg);
    std::vector<S> pool;
    std::vector<std::pair<xt::DynamicData, std::pair<TyP, Val>>> old;
    auto fresh_struct = [&](const std::string& name)
    {
        S s;
        s.name = name;
        s.x.reset(new xt::StructType(name));
        return s;
    };
    pool.push_back(fresh_struct("Top"));
    int names = 0;
    size_t ops = 2 + t.index(12);
    size_t accepted = 0, refusals = 0;
    if (t.chance(1, 150))
    {
        // a structure of many members
        size_t many = 20 + t.index(400);
        NOTE(t, many << " members of primitive types");
        for (size_t i = 0; i < many; ++i)
        {
            MM m;
            m.m.name = "w" + std::to_string(i);
            m.m.ty = prim(g.prim_kind());
            pool[0].x->add_member(m.m.name, m.m.ty->x());
            add(pool[0], m);
        }
        ops = 1 + t.index(5);
        t.label("many members");
    }
    auto member_name = [&]() -> std::string
    {
        static const char* odd[] = {"", "m 1", "::x", "value", "Name", "name"};
        if (t.chance(1, 10)) { return odd[t.index(6)] + std::to_string(names++); }
        return "m" + std::to_string(names++);
    };
    for (size_t op = 0; op < ops; ++op)
    {
        size_t at = t.index(pool.size());
        S& s = pool[at];
        std::string who = s.name + "#" + std::to_string(at);
        switch (t.weighted({5, 3, 4, 3, 2, 3, 1, 1, 2, 2}))
        {
            case 0:
            {
                MM m;
                m.m.name = member_name();
                m.m.ty = g.type(cfg.depth);
                NOTE(t, who << ".add_member(" << m.m.name << ", " << show(*m.m.ty) << ")");
                xt::StructType& r = s.x->add_member(m.m.name, m.m.ty->x());
                CHECK(&r == s.x.get(), "add_member() returns other structure");
                add(s, m);
                ++accepted;
                break;
            }
            case 1:
            {
                // types as temporaries
                MM m;
                m.m.name = member_name();
                switch (t.index(5))
                {
                    case 0: m.m.ty = str(K::Str, 7, false); s.x->add_member(m.m.name, xt::StringType(7)); break;
                    case 1: m.m.ty = seq(prim(K::U16), 3, false); s.x->add_member(m.m.name, xt::SequenceType(xt::primitive_type<uint16_t>(), 3)); break;
                    case 2: m.m.ty = arr(str(K::WStr), 2, false); s.x->add_member(m.m.name, xt::ArrayType(xt::WStringType(), 2)); break;
                    case 3: m.m.ty = mp(prim(K::I8), prim(K::F64), 0, false); s.x->add_member(m.m.name, xt::MapType(xt::primitive_type<int8_t>(), xt::primitive_type<double>())); break;
                    default: m.m.ty = strct("In", {Mem{"a", prim(K::Bool), {}, false}}, nullptr, false); s.x->add_member(m.m.name, std::move(xt::StructType("In").add_member("a", xt::primitive_type<bool>())));
                }
                NOTE(t, who << ".add_member(" << m.m.name << ", temporary " << show(*m.m.ty) << ")");
                add(s, m);
                ++accepted;
                t.label("op:temporary");
                break;
            }
            case 2:
            {
                MM m;
                m.m.name = member_name();
                m.m.ty = g.type(cfg.depth);
                xt::Member x(m.m.name, m.m.ty->x());
                if (t.chance(1, 2)) { static const int32_t ids[] = {0, 1, 7, INT32_MAX, -1}; m.id = ids[t.index(5)]; x.id(m.id); }
                if (t.chance(1, 2)) { m.key = true; x.key(); if (t.chance(1, 4)) { x.key(false); m.key = false; } }
                if (t.chance(1, 2)) { m.opt = true; x.optional(); if (t.chance(1, 4)) { x.optional(false); m.opt = false; } }
                NOTE(t, who << ".add_member(Member " << m.m.name << ", " << show(*m.m.ty) << ", id " << m.id << (m.key ? ", key" : "") << (m.opt ? ", optional" : "") << ")");
                if (t.chance(1, 3)) { xt::Member y(x); s.x->add_member(y); y.id(99).key(!m.key); } else { s.x->add_member(x); x.id(98).optional(!m.opt); }
                add(s, m);
                ++accepted;
                t.label("op:annotated");
                break;
            }
            case 3:
            {
                if (s.mem.empty()) { break; }
                std::string name = s.mem[t.index(s.mem.size())].m.name;
                TyP ty = g.type(1);
                NOTE(t, who << ".add_member(" << name << ", " << show(*ty) << ") again");
                bool no;
                if (t.chance(1, 2)) { no = refused([&] { s.x->add_member(name, ty->x()); }); } else { no = refused([&] { s.x->add_member(xt::Member(name, ty->x()).id(5)); }); }
                CHECK(no, who << ": a second member " << name << " is not refused");
                ++refusals;
                t.label("op:repeated");
                break;
            }
            case 4:
            {
                if (pool.size() >= 4) { break; }
                NOTE(t, "copy of " << who);
                S n;
                n.x.reset(new xt::StructType(*s.x));
                n.name = s.name; n.mem = s.mem; n.parent = s.parent; n.parent_name = s.parent_name; n.parent_size = s.parent_size;
                pool.push_back(std::move(n));
                t.label("op:copy");
                break;
            }
            case 5:
            {
                if (pool.size() >= 4) { break; }
                std::string name = "D" + std::to_string(names++);
                NOTE(t, name << " inherits from " << who);
                S n;
                n.x.reset(new xt::StructType(name, s.x.get()));
                n.name = name; n.mem = s.mem; n.parent = true; n.parent_name = s.name; n.parent_size = s.mem.size();
                pool.push_back(std::move(n));
                t.label("op:inherit");
                break;
            }
            case 6:
                s.name = "R" + std::to_string(names++);
                NOTE(t, who << " is now " << s.name);
                s.x->name(s.name);
                break;
            case 7:
            {
                NOTE(t, "move of " << who);
                std::unique_ptr<xt::StructType> n(new xt::StructType(std::move(*s.x)));
                s.x = std::move(n);
                break;
            }
            case 8:
            {
                // one structure of the pool as member of other (or of itself)
                S& other = pool[t.index(pool.size())];
                TyP oty = other.ty();
                if (weight(*oty) > 60) { break; }
                MM m;
                m.m.name = member_name();
                m.m.ty = oty;
                NOTE(t, who << ".add_member(" << m.m.name << ", " << other.name << " of the pool)");
                s.x->add_member(m.m.name, *other.x);
                add(s, m);
                t.label(&other == &s ? "op:itself" : "op:member-of-pool");
                break;
            }
            default:
            {
                // data that outlives changes of its type
                if (old.size() >= 2 || s.mem.empty()) { break; }
                TyP ty = s.ty();
                NOTE(t, "data of " << who);
                Val v = VGen(t).val(*ty);
                xt::DynamicData d(*s.x);
                write(d.ref(), *ty, v);
                old.emplace_back(d, std::make_pair(ty, v));
                t.label("op:data");
            }
        }
        for (size_t i = 0; i < pool.size(); ++i) { verify(*pool[i].x, pool[i], pool[i].name + "#" + std::to_string(i)); }
        for (auto& o : old)
        {
            CHECK(o.first.size() == o.second.first->mem.size(), "data of a structure that changed later has " << o.first.size() << " members");
            if (op + 1 == ops) { expect(o.first, *o.second.first, o.second.second, "data of a structure that changed later"); }
        }
    }
    size_t at = t.index(pool.size());
    data(t, *pool[at].x, pool[at], pool[at].name);
    if (accepted >= 2 && (pool.size() > 1 || refusals || old.size())) { t.nontrivial(); }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P16";
    p.rule = "case: a random history of adding members (plain, temporary, annotated, repeated, of a structure of the pool), copying, moving, renaming and inheriting structures, and creating data of them; after each step "
        "every structure must have the members of its model and the data must be as written. Non-trivial: two members were added and there was a second structure, a refusal or data that outlived a change.";
    p.body = body;
    p.quick_cases = 80000;
    p.thorough_cases = 3000000;
    return pbt::run_main(argc, argv, p);
}
