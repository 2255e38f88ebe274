// P21: a module keeps the symbols it was given: once each, named by their scope, and all of them are listed.
#include "modules.hpp"
using namespace modules;

static const std::vector<std::string> names = {"a", "b", "M", "N", "c", "d", "e1"};

static void verify(const Mod& m, const std::vector<std::string>& extra)
{
    idl::Module& x = *m.x;
    std::string what = "module '" + m.scope() + "'";
    CHECK(x.name() == m.name && x.scope() == m.scope(), what << ": its name is " << x.name() << " and its scope " << x.scope());
    CHECK(x.submodule_size() == m.inner.size(), what << ": has " << x.submodule_size() << " submodules of " << m.inner.size());
    for (auto& n : extra)
    {
        bool sub = m.inner.count(n);
        CHECK(x.has_submodule(n) == sub, what << ": has_submodule(" << n << ")");
        CHECK((x.submodule(n) != nullptr) == sub, what << ": submodule(" << n << ")");
        if (sub) { CHECK(x.submodule(n).get() == m.inner.at(n)->x && &x[n] == m.inner.at(n)->x && &static_cast<const idl::Module&>(x)[n] == m.inner.at(n)->x, what << ": submodule " << n << " is other one"); }
        else { CHECK(refused([&] { x[n]; }), what << ": [" << n << "] of nothing"); }
        unsigned count = 0;
        for (const Mod* s = &m; s; s = s->outer) { count += s->declares(n); }
        CHECK(x.has_symbol(n, false) == m.declares(n), what << ": has_symbol(" << n << ") of its own");
        CHECK(x.has_symbol(n) == (count > 0), what << ": has_symbol(" << n << ")");
        CHECK(x.symbol_count(n) == count, what << ": symbol_count(" << n << ") is " << x.symbol_count(n) << ", should be " << count);
        auto it = m.syms.find(n);
        CHECK(x.is_const_from_enum(n) == (it != m.syms.end() && it->second.kind == Kind::Const && it->second.from_enum), what << ": is_const_from_enum(" << n << ")");
    }
    for (auto& s : m.syms) { ask(m, s.first); }
    // all the types, with and without their scope
    std::vector<Mod*> below;
    const_cast<Mod&>(m).all(below);
    std::map<std::string, std::vector<std::pair<const Mod*, const Sym*>>> scoped, plain;
    for (const Mod* b : below)
    {
        for (auto& s : b->syms)
        {
            if (s.second.kind == Kind::Const) { continue; }
            scoped[b->scoped(s.first)].push_back({b, &s.second});
            plain[s.first].push_back({b, &s.second});
        }
    }
    for (bool full : {true, false})
    {
        auto& want = full ? scoped : plain;
        auto got = x.get_all_types(full);
        CHECK(got.size() == want.size(), what << ": get_all_types() has " << got.size() << " types of " << want.size());
        for (auto& w : want)
        {
            auto it = got.find(w.first);
            CHECK(it != got.end(), what << ": get_all_types() misses " << w.first);
            bool ok = false;
            std::string why;
            for (auto& c : w.second)
            {
                // (one of those that share a name)
                try { verify_type(*it->second, *c.second, c.first->scoped(split(w.first).back()), what + ": type " + w.first); ok = true; }
                catch (const pbt::Failure& f) { why = f.msg; }
            }
            CHECK(ok, why);
        }
    }
    // visiting the modules
    std::vector<const idl::Module*> want, got, sub, inner;
    for (const Mod* b : below) { want.push_back(b->x); }
    x.for_each([&](const idl::Module& y) { got.push_back(&y); });
    CHECK(got == want, what << ": for_each() visits " << got.size() << " modules of " << want.size());
    x.for_each_submodule([&](const idl::Module& y) { sub.push_back(&y); });
    CHECK(sub == std::vector<const idl::Module*>(want.begin() + 1, want.end()), what << ": for_each_submodule() visits " << sub.size() << " modules");
    x.for_each_submodule([&](const idl::Module& y) { inner.push_back(&y); }, false);
    CHECK(inner.size() == m.inner.size(), what << ": for_each_submodule() without descending visits " << inner.size() << " modules");
}

static void body(Tape& t)
{
    auto root = std::make_shared<idl::Module>();
    Mod top;
    top.x = root.get();
    std::vector<Mod*> mods = {&top};
    int tag = 1;
    size_t ops = 3 + t.index(16), refusals = 0, accepted = 0;
    for (size_t op = 0; op < ops; ++op)
    {
        Mod* m = mods[t.index(mods.size())];
        std::string name = t.pick(names);
        idl::Module& x = *m->x;
        auto it = m->syms.find(name);
        std::string where = "'" + m->scope() + "'";
        switch (t.weighted({3, 5, 3, 2, 2, 2, 2}))
        {
            case 0:
            {
                if (it != m->syms.end() || (!m->inner.count(name) && mods.size() > 6)) { break; }
                NOTE(t, "submodule " << name << " of " << where);
                idl::Module* y = &x.create_submodule(name);
                if (m->inner.count(name)) { CHECK(y == m->inner[name]->x, "creating a submodule again returns other one"); t.label("op:submodule-again"); break; }
                auto inner = std::make_unique<Mod>();
                inner->name = name; inner->outer = m; inner->x = y;
                mods.push_back(inner.get());
                m->inner[name] = std::move(inner);
                break;
            }
            case 1:
                if (m->declares(name)) { break; }
                NOTE(t, "new symbol " << name << " in " << where);
                add(t, *m, name, tag++);
                ++accepted;
                break;
            case 2:
            {
                // again: refused, and what was there stays
                if (it == m->syms.end()) { break; }
                NOTE(t, "symbol " << name << " again in " << where);
                int n = tag++;
                switch (it->second.kind)
                {
                    case Kind::Struct:
                    {
                        auto y = make_struct(name, n);
                        if (t.chance(1, 2)) { CHECK(!x.structure(y), "a second structure " << name); CHECK(y.name() == name, "a refused structure is now " << y.name()); }
                        else { CHECK(!x.structure(std::move(y)), "a second structure " << name); }
                        break;
                    }
                    case Kind::Union:
                    {
                        auto y = make_union(name, n);
                        if (t.chance(1, 2)) { CHECK(!x.union_switch(y), "a second union " << name); CHECK(y.name() == name, "a refused union is now " << y.name()); }
                        else { CHECK(!x.union_switch(std::move(y)), "a second union " << name); }
                        break;
                    }
                    case Kind::Enum: CHECK(!add_enum(x, name, n), "a second enumeration " << name); break;
                    case Kind::Alias:
                    {
                        auto y = make_alias(name, n);
                        switch (t.index(3))
                        {
                            case 0: CHECK(!x.create_alias(xt::DynamicType::Ptr(xt::StringType(n)), name), "a second alias " << name); break;
                            case 1: CHECK(!x.add_alias(y), "a second alias " << name); CHECK(y.name() == name, "a refused alias is now " << y.name()); break;
                            default: CHECK(!x.add_alias(std::move(y)), "a second alias " << name);
                        }
                        break;
                    }
                    default: CHECK(!x.create_constant(name, make_const(n), false, t.chance(1, 2)), "a second constant " << name);
                }
                ++refusals;
                t.label("op:again");
                break;
            }
            case 3:
            {
                // replaced
                if (it == m->syms.end() || it->second.kind == Kind::Alias) { break; }
                NOTE(t, "symbol " << name << " replaced in " << where);
                int n = tag++;
                Kind k = it->second.kind;
                bool from_enum = k == Kind::Const && t.chance(1, 3);
                switch (k)
                {
                    case Kind::Struct: CHECK(x.structure(make_struct(name, n), true), "a structure isn't replaced"); break;
                    case Kind::Union: CHECK(x.union_switch(make_union(name, n), true), "a union isn't replaced"); break;
                    case Kind::Enum: CHECK(add_enum(x, name, n, true), "an enumeration isn't replaced"); break;
                    default: CHECK(x.create_constant(name, make_const(n), true, from_enum), "a constant isn't replaced");
                }
                it->second = Sym{k, n, from_enum, 0};
                t.label("op:replace");
                break;
            }
            case 4:
            {
                // scoped names aren't accepted
                static const std::vector<std::string> scopeds = {"::a", "M::a", "a::b::c", "::", "zz::"};
                std::string n = t.pick(scopeds);
                NOTE(t, "scoped symbol " << n << " in " << where);
                auto s = make_struct(n, 1);
                auto u = make_union(n, 1);
                auto al = make_alias(n, 1);
                bool no = !x.structure(s) && s.name() == n && !x.structure(make_struct(n, 1)) && !x.structure(make_struct(n, 1), true) && !x.union_switch(u) && u.name() == n && !x.union_switch(make_union(n, 1))
                    && !add_enum(x, n, 1) && !x.create_alias(xt::DynamicType::Ptr(xt::StringType(3)), n) && !x.create_constant(n, make_const(1)) && !x.add_alias(al) && al.name() == n && !x.add_alias(make_alias(n, 1));
                CHECK(no, "a symbol with scoped name is accepted");
                ++refusals;
                t.label("op:scoped");
                break;
            }
            case 5:
            {
                // what is got by reference can be changed, and what was given is independent
                if (it == m->syms.end() || it->second.kind != Kind::Struct) { break; }
                NOTE(t, "structure " << name << " of " << where << " has a new member");
                xt::StructType before = static_cast<const idl::Module&>(x).structure(name);
                x.structure(name).add_member("more" + std::to_string(tag++), xt::primitive_type<bool>());
                ++it->second.extra;
                CHECK(before.members().size() + 1 == parts(it->second.tag) + size_t(it->second.extra), "a copy of a structure changed with it");
                t.label("op:change");
                break;
            }
            default:
            {
                if (m->declares(name)) { break; }
                NOTE(t, "structure " << name << " in " << where << ", changed afterwards");
                auto y = make_struct(name, tag);
                CHECK(x.structure(y), "a structure isn't accepted");
                CHECK(y.name() == m->scoped(name), "an accepted structure is now " << y.name());
                m->syms[name] = Sym{Kind::Struct, tag++, false, 0};
                y.add_member("later", xt::primitive_type<bool>());
                y.name("other");
                ++accepted;
                t.label("op:independent");
            }
        }
        if (op + 1 == ops || t.chance(1, 3)) { for (Mod* y : mods) { verify(*y, names); } }
    }
    if (accepted >= 2 && refusals && mods.size() > 1) { t.nontrivial(); }
}

// ---- regressions
static void refused_name()
{
    idl::Module r;
    idl::Module& m = r.create_submodule("M");
    xt::StructType a("S"), b("S");
    CHECK(m.structure(a) && a.name() == "M::S" && !m.structure(b) && b.name() == "S", "a refused structure keeps its name");
}
static void outer_alias()
{
    idl::Module r;
    CHECK(r.create_alias(xt::DynamicType::Ptr(xt::StringType(3)), "A") && r.create_submodule("M").create_alias(xt::DynamicType::Ptr(xt::StringType(4)), "A"), "an alias with the name of an outer one");
}
static void scoped_alias()
{
    idl::Module r;
    CHECK(!r.create_alias(xt::DynamicType::Ptr(xt::StringType(3)), "X::A") && !r.has_symbol("X::A"), "an alias with a scoped name");
}
static void replaced_constant()
{
    idl::Module r;
    xt::DynamicData one(xt::primitive_type<uint32_t>());
    CHECK(r.create_constant("ONE", one, false, true) && r.is_const_from_enum("ONE"), "an enumerator is a constant");
    xt::DynamicData d(xt::primitive_type<bool>());
    CHECK(r.create_constant("ONE", d, true) && !r.is_const_from_enum("ONE"), "the constant that replaced an enumerator");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P21";
    p.rule = "case: a random history of creating submodules, registering, repeating, replacing and changing symbols of the five kinds, with simple and scoped names; the content, names, counts and listings of every module are "
        "compared with the model. Non-trivial: two symbols registered, a refusal, and a submodule.";
    p.body = body;
    p.quick_cases = 60000;
    p.thorough_cases = 2000000;
    p.regressions = {
        {"R-refused-name", "a type whose registration is refused keeps its name", refused_name},
        {"R-outer-alias", "an alias may have the name of an outer one", outer_alias},
        {"R-scoped-alias", "an alias with a scoped name is refused", scoped_alias},
        {"R-replaced-constant", "a constant that replaces an enumerator is no enumerator", replaced_constant},
    };
    return pbt::run_main(argc, argv, p);
}
