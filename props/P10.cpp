// P10: is_compatible() tells how two types differ, and what is accepted where equality is required.
#include "related.hpp"
#include "big.hpp"
using namespace model;

static int asked(const Ty& a, const Ty& b) { return int(a.x().is_compatible(b.x())); }

static void agree(const Ty& a, const Ty& b)
{
    int want = consistency(a, b);
    int ab = asked(a, b), ba = asked(b, a);
    CHECK(ab == want, "is_compatible(" << show(a) << " , " << show(b) << ") = " << cname(ab) << ", should be " << cname(want));
    CHECK(ba == want, "reversed: is_compatible(" << show(b) << " , " << show(a) << ") = " << cname(ba) << ", should be " << cname(want));
}

template<class F>
static bool refused(F&& f)
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}

static void use(Tape& t, const Ty& a, const Ty& b, int c)
{
    VCfg vc;
    vc.max_items = 3;
    Val va = VGen(t, vc).val(a), vb = VGen(t, vc).val(b);
    Conv cv;
    Val moved;
    if (c == EQ) { moved = cv.conv(a, va, b); }
    xt::DynamicData da = make(a, va), db = make(b, vb);
    bool equal = c == EQ;
    const char* how;
    bool r;
    switch (t.index(3))
    {
        case 0: how = "assignment of data"; r = refused([&] { db = da; }); break;
        case 1: how = "assignment of a reference"; r = refused([&] { db = da.cref(); }); break;
        default: how = "assignment to a reference"; r = refused([&] { auto w = db.ref(); auto s = da.ref(); w = s; });
    }
    CHECK(r == !equal, how << (r ? " is refused" : " is accepted") << " although the types are " << cname(c));
    expect(db, b, equal ? moved : vb, std::string("after an ") + how);
    expect(da, a, va, "the source");
}

static void collections(Tape& t, TyP a, TyP b, int c)
{
    bool equal = c == EQ;
    VCfg vc;
    vc.max_items = 3;
    Val va = VGen(t, vc).val(*a);
    xt::DynamicData da = make(*a, va);
    Conv cv;
    Val moved;
    if (equal) { moved = cv.conv(*a, va, *b); }
    if (t.chance(1, 2))
    {
        TyP q = seq(b, 0);
        xt::DynamicData d(q->x());
        bool r = refused([&] { d.push(da); });
        CHECK(r == !equal, "push " << (r ? "is refused" : "is accepted") << " although the types are " << cname(c));
        CHECK(d.size() == (equal ? 1u : 0u), "size after push is " << d.size());
        if (equal) { expect(d[0], *b, moved, "the pushed element"); }
    }
    else
    {
        TyP m = mp(b, prim(K::I32), 0);
        xt::DynamicData d(m->x());
        bool r2 = refused([&] { d.has_key(da); });
        CHECK(r2 == !equal, "has_key " << (r2 ? "is refused" : "is accepted") << " although the types are " << cname(c));
        bool r = refused([&] { d[da] = int32_t(5); });
        CHECK(r == !equal, "access by key " << (r ? "is refused" : "is accepted") << " although the types are " << cname(c));
        CHECK(d.size() == (equal ? 1u : 0u), "size after the access is " << d.size());
    }
}

static void body(Tape& t)
{
    if (t.chance(1, 3000)) { big::types(t); return; }
    Cfg cfg;
    cfg.deep = false;
    cfg.pairs = true;
    cfg.depth = int(t.chance(1, 10) ? 0 : 1 + t.index(4));
    Gen g(t, cfg);
    TyP a = g.root(cfg.depth);
    static const unsigned rates[] = {2, 3, 6, 16};
    Relate rel(t, g, rates[t.index(4)], t.chance(1, 3));
    TyP b = rel.type(a);
    NOTE(t, "type a " << show(*a));
    NOTE(t, "type b " << show(*b));
    int c = consistency(*a, *b);
    NOTE(t, "consistency " << cname(c));
    agree(*a, *b);
    agree(*a, *a);
    agree(*b, *b);
    t.label(c == NO ? "pair:incompatible" : c == EQ ? "pair:equals" : (c & (c - 1)) ? "pair:several" : "pair:one-difference");
    if (t.chance(1, 3)) { agree(*alias(a, "X"), *b); agree(*a, *alias(alias(b, "X"), "Y")); }
    if (t.chance(1, 6)) { TyP d = rel.type(b); agree(*b, *d); }
    if (t.chance(1, 6)) { agree(*arr(a, 2), *arr(b, 3)); agree(*seq(a), *seq(b, 4)); agree(*mp(a, prim(K::I8)), *mp(b, prim(K::I8), 3)); }
    if (t.chance(1, 2)) { use(t, *a, *b, c); t.label("op:assign"); }
    else { collections(t, a, b, c); t.label("op:collections"); }
    if (rel.changes) { t.nontrivial(); }
}

// ---- regressions
static void floats()
{
    agree(*prim(K::F32), *prim(K::I32));
    agree(*prim(K::F64), *prim(K::U64));
    agree(*prim(K::Bool), *prim(K::I8));
    agree(*prim(K::Bool), *prim(K::U8));
}
static void alias_of_alias()
{
    for (K k : {K::I32, K::U8, K::F64})
    {
        TyP x = alias(alias(prim(k), "A"), "B");
        agree(*x, *prim(K::I32));
        agree(*seq(x), *seq(prim(K::I32)));
    }
    agree(*alias(str(K::Str, 4), "A"), *str(K::Str, 4));
}
static void labels()
{
    TyP u = unio("U", prim(K::I32), {Mem{"a", prim(K::I64), {1}, false}, Mem{"b", prim(K::U8), {2}, false}});
    TyP v = unio("U", prim(K::I32), {Mem{"a", prim(K::I64), {2}, false}, Mem{"b", prim(K::U8), {1}, false}});
    TyP w = unio("U", prim(K::I32), {Mem{"a", prim(K::I64), {1}, false}, Mem{"b", prim(K::U8), {2}, true}});
    agree(*u, *v);
    agree(*u, *w);
    agree(*u, *u);
}
static void one_member()
{
    TyP s = strct("S", {Mem{"a", prim(K::I64), {}, false}});
    TyP s2 = strct("S2", {Mem{"b", s, {}, false}});
    agree(*s, *prim(K::I64));
    agree(*s2, *prim(K::U64));
    agree(*s2, *s);
    agree(*seq(s2, 3), *seq(prim(K::I64)));
    agree(*alias(s2, "A"), *alias(prim(K::I16), "B"));
    agree(*s2, *str(K::Str));
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P10";
    p.rule = "case: a random type and a second one that differs from it in a random number of places (primitives, bounds, dimensions, widths, names, members, labels, aliases, one-member structs, now and "
        "then kinds); the answer in both directions against a reference, then an assignment, a push or a use as key, which must be accepted exactly when the types are equal, and leave everything as it was "
        "otherwise. Non-trivial: the second type differs from the first.";
    p.body = body;
    p.quick_cases = 300000;
    p.thorough_cases = 6000000;
    p.assumptions = {"Pairs of a pair and a one-member struct, of an enumeration and a primitive, and of a one-member struct and a struct of several members are left out: their answer depends on the direction."};
    p.regressions = {
        {"R-floats", "numbers, floating points and booleans of one size are not equal", floats},
        {"R-alias", "aliases are transparent", alias_of_alias},
        {"R-labels", "unions of different labels are not equal", labels},
        {"R-one-member", "a struct of one member is compatible as its member", one_member},
    };
    return pbt::run_main(argc, argv, p);
}
