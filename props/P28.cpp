// P28: threads may read the same types, data and modules at the same time, and threads that use different data don't meet.
#include "related.hpp"
#include "modules.hpp"
#include "threads.hpp"
#include <xtypes/idl/generator.hpp>
using namespace model;

struct Shared
{
    TyP ty, other;                 // other: a type near to it
    int c;
    Val v, w;
    xt::DynamicData d, e;          // of v and of w
    Shared(TyP a, TyP b, Val va, Val vw) : ty(a), other(b), c(consistency(*a, *b)), v(va), w(vw), d(make(*a, va)), e(make(*a, vw)) {}
};

// (the texts of characters that aren't such are refused)
static std::string text(const xt::DynamicData& d)
{
    try { return d.to_string(); }
    catch (const std::exception& e) { return e.what(); }
}

static size_t visit(const xt::ReadableDynamicDataRef& r)
{
    size_t n = 0;
    r.for_each([&](const xt::ReadableDynamicDataRef::ReadableNode& node) { n = n * 31 + node.deep() + (node.has_parent() ? node.from_index() : 0) + size_t(node.data().type().kind()); });
    return n;
}

// Some of the things that can be done with shared data without changing it; what they return, as text.
static std::string read_some(const Shared& s, uint64_t seed)
{
    Tape t(seed);
    t.quiet = true;
    std::ostringstream os;
    xt::ReadableDynamicDataRef r = s.d.cref();
    const Ty& ty = *s.ty;
    for (size_t n = 1 + t.index(5); n > 0; --n)
    {
        switch (t.index(11))
        {
            case 0: expect(r, ty, s.v, "a reader"); os << "read;"; break;
            case 1: os << "text " << text(s.d) << ";"; break;
            case 2: os << "hash " << s.d.hash() << ";"; break;
            case 3: os << "equal " << (s.d == s.e) << (s.d != s.d) << (s.e == s.e.cref()) << ";"; break;
            case 4:
            {
                xt::DynamicData x(s.d);
                expect(x, ty, s.v, "a copy");
                VCfg vc;
                vc.max_items = 3;
                vc.big = false;
                Mutator m(t, vc);
                Val v = s.v;
                for (size_t k = t.index(4); k > 0; --k) { m.step(x.ref(), ty, v, ""); }
                expect(x, ty, v, "a copy that changed");
                os << "copy " << enc(ty, v) << ";";
                break;
            }
            case 5:
            {
                if (s.c == NO) { os << "incompatible " << int(ty.x().is_compatible(s.other->x())); break; }
                if (contains_kind(ty, K::Map)) { break; }
                xt::DynamicData x(s.d, s.other->x());
                os << "converted " << text(x) << ";";
                break;
            }
            case 6: os << "visit " << visit(r) << ";"; break;
            case 7:
            {
                os << "type " << ty.x().name() << ty.x().memory_size() << int(ty.x().is_compatible(s.other->x())) << int(s.other->x().is_compatible(ty.x()));
                size_t k = 0;
                ty.x().for_each([&](const xt::DynamicType::TypeNode& node) { k = k * 31 + node.deep() + size_t(node.type().kind()) + node.type().name().size(); });
                os << " " << k << ";";
                break;
            }
            case 8:
            {
                xt::DynamicType::Ptr p(ty.x()), q(p);
                xt::DynamicData x(*q);
                expect(x, ty, dflt(ty), "new data");
                x = s.d;
                expect(x, ty, s.v, "assigned data");
                os << "new " << p->name() << ";";
                break;
            }
            case 9:
            {
                if (!r.type().is_collection_type()) { break; }
                size_t k = 0;
                for (xt::ReadableDynamicDataRef e : r) { k = k * 31 + e.hash(); }
                for (xt::ReadableDynamicDataRef e : s.e.cref()) { k = k * 31 + e.hash(); }
                os << "items " << r.size() << " " << k << ";";
                break;
            }
            default:
            {
                TyP b = alias(seq(s.ty, 4), "A");
                xt::DynamicData x(b->x());
                x.push(s.d);
                x.push(s.e);
                CHECK(x[0] == s.d && x[1] == s.e, "pushed data are different");
                os << "pushed " << x.hash() << ";";
            }
        }
    }
    return os.str();
}

static void readers(Tape& t)
{
    Cfg cfg;
    cfg.depth = int(t.index(4));
    cfg.pairs = true;
    Gen g(t, cfg);
    TyP a = g.type(cfg.depth);
    Relate rel(t, g, 4, false);
    TyP b = rel.type(a);
    VCfg vc;
    vc.max_items = 4;
    vc.big = false;
    Val v = VGen(t, vc).val(*a), w = t.chance(1, 3) ? v : VGen(t, vc).val(*a);
    NOTE(t, "type " << show(*a) << "\nvalue " << enc(*a, v) << "\nother type " << show(*b));
    Shared s(a, b, v, w);
    size_t n = 2 + t.index(3);
    std::vector<uint64_t> seeds(n);
    for (auto& x : seeds) { x = t.bits(); }
    if (t.chance(1, 2)) { std::fill(seeds.begin(), seeds.end(), seeds[0]); }
    std::vector<std::string> got(n);
    together(n, [&](size_t i) { got[i] = read_some(s, seeds[i]); });
    // (after the threads: what it fills, if anything, is not yet filled when they run)
    for (size_t i = 0; i < n; ++i)
    {
        std::string alone = read_some(s, seeds[i]);
        NOTE(t, "thread " << i << ": " << alone.substr(0, 300));
        CHECK(got[i] == alone, "a thread got \"" << got[i] << "\", alone it is \"" << alone << "\"");
    }
    expect(s.d, *a, v, "after the readers");
    label_kinds(t, *a);
    t.label("readers");
    t.nontrivial();
}

// Each thread with its own data (of a shared type, or of types of its own)
static std::string own_some(uint64_t seed, TyP shared)
{
    Tape t(seed);
    t.quiet = true;
    Cfg cfg;
    cfg.depth = int(t.index(3));
    cfg.pairs = true;
    Gen g(t, cfg);
    TyP a = shared ? shared : g.type(cfg.depth);
    VCfg vc;
    vc.max_items = 4;
    vc.big = false;
    Val v = VGen(t, vc).val(*a);
    xt::DynamicData d = make(*a, v);
    Mutator m(t, vc);
    for (size_t k = 1 + t.index(6); k > 0; --k)
    {
        m.step(d.ref(), *a, v, "");
        expect(d, *a, v, "own data");
        if (t.chance(1, 3)) { xt::DynamicData e(d); d = e; expect(d, *a, v, "own data, assigned"); }
    }
    return text(d);
}
static void owners(Tape& t)
{
    TyP shared;
    if (t.chance(2, 3))
    {
        Cfg cfg;
        cfg.depth = int(t.index(4));
        cfg.pairs = true;
        Gen g(t, cfg);
        shared = g.type(cfg.depth);
        NOTE(t, "data of type " << show(*shared));
        label_kinds(t, *shared);
    }
    size_t n = 2 + t.index(3);
    std::vector<uint64_t> seeds(n);
    for (auto& x : seeds) { x = t.bits(); }
    std::vector<std::string> got(n);
    together(n, [&](size_t i) { got[i] = own_some(seeds[i], shared); });
    for (size_t i = 0; i < n; ++i)
    {
        std::string alone = own_some(seeds[i], shared);
        NOTE(t, "thread " << i << ": " << alone.substr(0, 200));
        CHECK(got[i] == alone, "a thread got \"" << got[i] << "\", alone it is \"" << alone << "\"");
    }
    t.label(shared ? "owners of data" : "owners of types");
    t.nontrivial();
}

// The same modules, asked by several threads; and modules of their own
struct Tree
{
    std::shared_ptr<modules::idl::Module> root = std::make_shared<modules::idl::Module>();
    modules::Mod top;
    std::vector<modules::Mod*> mods;
    Tree(Tape& t)
    {
        top.x = root.get();
        mods.push_back(&top);
        int tag = 1;
        for (size_t n = 3 + t.index(10); n > 0; --n)
        {
            modules::Mod* m = mods[t.index(mods.size())];
            std::string name = names()[t.index(5)];
            if (m->declares(name)) { continue; }
            if (t.chance(1, 4))
            {
                auto inner = std::make_unique<modules::Mod>();
                inner->name = name; inner->outer = m; inner->x = &m->x->create_submodule(name);
                mods.push_back(inner.get());
                m->inner[name] = std::move(inner);
            }
            else { modules::add(t, *m, name, tag++); }
        }
    }
    static const std::vector<std::string>& names() { static const std::vector<std::string> n = {"a", "b", "M", "N", "c", "M::a", "::a", "N::b", "::M::N::c", "a::b"}; return n; }
};
static std::string ask_some(const Tree& tree, uint64_t seed)
{
    Tape t(seed);
    t.quiet = true;
    std::ostringstream os;
    for (size_t n = 1 + t.index(8); n > 0; --n)
    {
        const modules::Mod& m = *tree.mods[t.index(tree.mods.size())];
        const modules::idl::Module& x = *m.x;
        std::string name = t.pick(Tree::names());
        const modules::Mod* where = nullptr;
        const modules::Sym* s = modules::lookup(m, name, &where);
        auto is = [&](modules::Kind k) { return s && s->kind == k; };
        std::string full = s ? where->scoped(modules::split(name).back()) : "", what = "'" + name + "' from '" + m.scope() + "'";
        switch (t.index(5))
        {
            case 0:
                CHECK(x.has_structure(name) == is(modules::Kind::Struct) && x.has_union(name) == is(modules::Kind::Union) && x.has_enum_32(name) == is(modules::Kind::Enum) && x.has_alias(name) == is(modules::Kind::Alias)
                        && x.has_constant(name) == is(modules::Kind::Const), what << ": it isn't what it should be");
                break;
            case 1:
                if (is(modules::Kind::Struct)) { xt::DynamicData d(x.structure(name)); modules::verify_type(d.type(), *s, full, what); os << d.hash() << ";"; }
                if (is(modules::Kind::Union)) { xt::DynamicData d(x.union_switch(name)); modules::verify_type(d.type(), *s, full, what); os << d.hash() << ";"; }
                if (is(modules::Kind::Enum)) { modules::verify_type(x.enum_32(name), *s, full, what); }
                if (is(modules::Kind::Alias)) { modules::verify_type(x.alias(name), *s, full, what); }
                if (is(modules::Kind::Const)) { modules::verify_const(x.constant(name), *s, what); }
                break;
            case 2: os << modules::idl::generator::module(x) << ";"; break;
            case 3: { size_t k = 0; x.for_each([&](const modules::idl::Module& y) { k += y.scope().size(); }); os << k << ";"; break; }
            default:
            {
                xt::DynamicType::Ptr p = m.x->type(name);
                CHECK((p.get() != nullptr) == (s && s->kind != modules::Kind::Const), what << ": type() finds " << (p.get() ? "something" : "nothing"));
                os << x.has_symbol(name) << x.symbol_count(modules::split(name).back()) << ";";
            }
        }
    }
    return os.str();
}
static void askers(Tape& t)
{
    Tree tree(t);
    std::ostringstream all;
    modules::show(all, tree.top);
    NOTE(t, all.str());
    size_t n = 2 + t.index(3);
    std::vector<uint64_t> seeds(n);
    for (auto& x : seeds) { x = t.bits(); }
    if (t.chance(1, 2)) { std::fill(seeds.begin(), seeds.end(), seeds[0]); }
    bool own = t.chance(1, 4);
    std::vector<std::string> got(n);
    auto run = [&](size_t i)
            {
                if (!own) { return ask_some(tree, seeds[i]); }
                Tape s(seeds[i]);
                s.quiet = true;
                Tree mine(s);
                return ask_some(mine, s.bits());
            };
    together(n, [&](size_t i) { got[i] = run(i); });
    for (size_t i = 0; i < n; ++i)
    {
        std::string alone = run(i);
        CHECK(got[i] == alone, "a thread got \"" << got[i] << "\", alone it is \"" << alone << "\"");
    }
    t.label(own ? "modules of each thread" : "shared modules");
    if (tree.mods.size() > 1) { t.nontrivial(); }
}

// The texts of many data, again and again (the conversions of the standard library aren't seen by ThreadSanitizer, what they return is)
static void texts(Tape& t)
{
    static const std::vector<K> ks = {K::WStr, K::Str16, K::Str, K::F64, K::C16, K::WC, K::I32};
    size_t n = 2 + t.index(3), rounds = 100 + t.index(300);
    std::vector<xt::DynamicData> data;
    std::vector<std::string> want(n);
    for (size_t i = 0; i < n; ++i)
    {
        std::vector<Mem> ms;
        Val v;
        for (size_t k = 1 + t.index(4); k > 0; --k)
        {
            Mem m;
            m.name = "m" + std::to_string(k);
            K kind = t.pick(ks);
            m.ty = is_string(kind) ? str(kind) : prim(kind);
            Val x = dflt(*m.ty);
            if (is_string(kind)) { for (size_t j = t.index(200); j > 0; --j) { x.s.push_back(t.chance(1, 5) && kind != K::Str ? 0xe0 + t.index(0x500) : 'a' + i); } }
            else if (kind == K::F64) { x = from_prim<double>(double(t.range(-100000, 100000)) / 8); }
            else if (kind == K::C16) { x = from_prim<char16_t>(char16_t(0x100 + 16 * i + t.index(16))); }
            else if (kind == K::WC) { x = from_prim<wchar_t>(wchar_t(0x100 + 16 * i + t.index(16))); }
            else { x = from_prim<int32_t>(int32_t(t.bits())); }
            ms.push_back(m);
            v.v.push_back(x);
        }
        TyP s = strct("S" + std::to_string(i), ms);
        NOTE(t, "thread " << i << " " << rounds << " times: " << enc(*s, v).substr(0, 200));
        data.push_back(make(*s, v));
    }
    together(n, [&](size_t i)
            {
                std::string first = data[i].to_string();
                for (size_t k = 0; k < rounds; ++k) { std::string s = data[i].to_string(); CHECK(s == first, "the text of the same data is now \"" << s << "\" instead of \"" << first << "\""); }
                want[i] = first;
            });
    for (size_t i = 0; i < n; ++i) { CHECK(data[i].to_string() == want[i], "alone, the text is \"" << data[i].to_string() << "\" instead of \"" << want[i] << "\""); }
    t.label("texts");
    t.nontrivial();
}

static void body(Tape& t)
{
    switch (t.weighted({20, 12, 8, 1}))
    {
        case 0: readers(t); break;
        case 1: owners(t); break;
        case 3: texts(t); break;
        default: askers(t);
    }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P28";
    p.rule = "case: 2-4 threads, started at the same moment, that read shared data of a random type (values, iteration, visits, texts, hashes, comparisons, copies, conversions, new data of the type), or change data of their own of a "
        "shared type or of types of their own, or ask the same modules (lookups, listings, generation); compiled with ThreadSanitizer: no data race in the happens-before order of the execution, each value as in the model, and each "
        "thread gets what the same operations give alone. Non-trivial: all, but the modules without submodules.";
    p.body = body;
    p.threads = true;
    p.quick_cases = 40000;
    p.thorough_cases = 600000;
    p.assumptions = {"a case is one execution: ThreadSanitizer orders the accesses by happens-before, so a race is seen when both accesses are made, in whatever order, but those of paths that aren't taken are not"};
    return pbt::run_main(argc, argv, p);
}
