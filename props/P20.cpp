// P20: a name is found in the innermost scope that declares it, and a scoped name in the scope it tells.
#include "modules.hpp"
using namespace modules;

static const std::vector<std::string> names = {"a", "b", "M", "N", "c", "MM"};

static std::string right_name(Tape& t, const std::vector<Mod*>& mods)
{
    std::string n;
    switch (t.weighted({3, 3, 2, 2, 1}))
    {
        case 0: return t.pick(names);
        case 1:
        {
            size_t k = 1 + t.index(3);
            for (size_t i = 0; i < k; ++i) { n += t.pick(names) + "::"; }
            n += t.pick(names);
            return t.chance(1, 4) ? "::" + n : n;
        }
        case 2: case 3:
        {
            // the full name of a symbol, or the end of one
            const Mod* m = mods[t.index(mods.size())];
            std::string s = m->syms.empty() || t.chance(1, 6) ? t.pick(names) : std::next(m->syms.begin(), t.index(m->syms.size()))->first;
            n = m->scoped(s);
            if (t.chance(1, 2)) { return "::" + n; }
            std::vector<std::string> parts = split(n);
            size_t from = t.index(parts.size());
            n.clear();
            for (size_t i = from; i < parts.size(); ++i) { n += (i > from ? "::" : "") + parts[i]; }
            return n;
        }
        default:
        {
            static const std::vector<std::string> odd = {"", "::", "::a", "zzz", "zzz::a", "M::zzz", "a::b", "::zzz::a", "M::", "::M"};
            return t.pick(odd);
        }
    }
}

static std::string some_name(Tape& t, const std::vector<Mod*>& mods)
{
    std::string n = right_name(t, mods);
    if (t.chance(1, 12))
    {
        // no symbol has a name written as this
        static const std::vector<std::string> wrong = {"::", "::::", ":", " ", "::x::"};
        size_t i = t.index(n.size() + 1);
        if (i > 0 && i < n.size() && n[i - 1] == ':' && n[i] == ':') { ++i; }
        n.insert(i, t.pick(wrong));
    }
    return n;
}

static void body(Tape& t)
{
    auto root = std::make_shared<idl::Module>();
    Mod top;
    top.x = root.get();
    std::vector<Mod*> mods = {&top};
    size_t n = t.index(8), syms = 1 + t.index(10);
    bool deep = t.chance(1, 8);
    if (deep) { n = 5 + t.index(12); syms += t.index(15); }
    for (size_t i = 0; i < n; ++i)
    {
        Mod* m = deep && !t.chance(1, 4) ? mods.back() : mods[t.index(mods.size())];
        std::string name = t.pick(names);
        if (m->declares(name)) { continue; }
        auto inner = std::make_unique<Mod>();
        inner->name = name; inner->outer = m;
        inner->x = &m->x->create_submodule(name);
        mods.push_back(inner.get());
        m->inner[name] = std::move(inner);
    }
    int tag = 1;
    for (size_t i = 0; i < syms; ++i)
    {
        Mod* m = mods[t.index(mods.size())];
        std::string name = t.pick(names);
        if (m->declares(name)) { continue; }
        add(t, *m, name, tag++);
    }
    if (t.logging) { show(t.log(), top); }
    size_t found = 0, scoped_names = 0;
    for (size_t i = 0, q = 4 + t.index(12); i < q; ++i)
    {
        const Mod* from = mods[t.index(mods.size())];
        std::string name = some_name(t, mods);
        NOTE(t, "ask for '" << name << "' from '" << from->scope() << "'");
        if (lookup(*from, name)) { ++found; if (name.find("::") != std::string::npos) { ++scoped_names; } }
        ask(*from, name);
        // through the submodules
        if (t.chance(1, 4))
        {
            xt::DynamicType::Ptr p = from->x->type(name, true);
            const Mod* where;
            const Sym* s = lookup(*from, name, &where);
            std::vector<Mod*> below;
            const_cast<Mod*>(from)->all(below);
            bool any = false;
            for (Mod* b : below) { const Sym* y = lookup(*b, name); if (y && y->kind != Kind::Const) { any = true; } }
            CHECK((p.get() != nullptr) == any, "recursive type('" << name << "') from '" << from->scope() << "' " << (any ? "finds nothing" : "finds something"));
            if (s && s->kind != Kind::Const) { verify_type(*p, *s, name.compare(0, 2, "::") == 0 ? name : where->scoped(split(name).back()), "recursive type('" + name + "')"); }
            t.label("recursive");
        }
    }
    if (found >= 2 && mods.size() >= 3) { t.nontrivial(); }
    if (scoped_names) { t.label("scoped-name-found"); }
}

// ---- regressions
static void unknown()
{
    idl::Module r;
    r.create_submodule("A");
    CHECK(r.submodule("B") == nullptr && !r.has_submodule("B") && r.submodule_size() == 1, "an unknown submodule");
    CHECK(r.type("x", true).get() == nullptr && r.type("A::x").get() == nullptr, "an unknown type");
}
static void enums()
{
    idl::Module r;
    idl::Module& a = r.create_submodule("A");
    add_enum(a, "E", 3);
    CHECK(r.has_enum_32("A::E") && r.has_enum_32("::A::E") && !r.has_enum_32("E") && a.has_enum_32("E"), "an enumeration in a module");
}
static void out_of_scope()
{
    // A::x isn't the x that encloses A
    idl::Module r;
    r.create_submodule("A");
    xt::StructType s("x");
    r.structure(s);
    CHECK(!r.has_structure("A::x") && r.type("A::x").get() == nullptr, "a symbol out of the scope");
}

static void empty_scope()
{
    idl::Module r;
    idl::Module& a = r.create_submodule("A");
    a.create_submodule("B").structure(xt::StructType("x"));
    CHECK(!r.has_symbol("A::::B::x", true) && r.type("A::::x").get() == nullptr && !a.has_structure("::A::::B::x") && !r.has_constant("A::::A::x"), "a symbol of nowhere");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P20";
    p.rule = "case: a random tree of up to 16 modules that reuse few names, with structures, unions, enumerations, aliases and constants, and up to 15 simple, relative and absolute names asked from any module; all the answers are "
        "compared with a lookup written from the rules of IDL. Non-trivial: two names found in a tree of three modules.";
    p.body = body;
    p.quick_cases = 80000;
    p.thorough_cases = 4000000;
    p.regressions = {
        {"R-unknown", "looking for something unknown finds nothing and changes nothing", unknown},
        {"R-enums", "enumerations are found in their modules", enums},
        {"R-out-of-scope", "a scoped name isn't found out of its scope", out_of_scope},
        {"R-empty-scope", "a name with an empty scope inside is not found", empty_scope},
    };
    return pbt::run_main(argc, argv, p);
}
