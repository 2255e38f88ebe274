// P11: data created from data of a compatible type has its value, converted.
#include "related.hpp"
using namespace model;

// The unions of the value keep their label where it selects the same case in both types.
static void labels_kept(const xt::ReadableDynamicDataRef& a, const Ty& ta, const xt::ReadableDynamicDataRef& b, const Ty& tb)
{
    const Ty& x = ta.r();
    const Ty& y = tb.r();
    if (x.k != y.k) { return; }
    if (x.k == K::Struct)
    {
        for (size_t i = 0; i < std::min(x.mem.size(), y.mem.size()); ++i) { labels_kept(a[i], *x.mem[i].ty, b[i], *y.mem[i].ty); }
    }
    else if (x.k == K::Seq || x.k == K::Array)
    {
        for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) { labels_kept(a[i], *x.c, b[i], *y.c); }
    }
    else if (x.k == K::Union && x.c->r().k != K::Bool && y.c->r().k != K::Bool)
    {
        Val va = read(a, x), vb = read(b, y);
        if (va.sel < 0 || va.sel != vb.sel) { return; }
        auto la = labels_of(y);
        auto it = la.find(va.u);
        // (a negative label may become another one of the case where the width of the discriminator changes)
        if (it != la.end() && it->second == va.sel && (int64_t(va.u) >= 0 || consistency(*x.c, *y.c) == EQ))
        {
            CHECK(mask_label(*y.c, vb.u) == va.u, "the label of case " << y.mem[vb.sel].name << " was " << int64_t(va.u) << ", and " << int64_t(vb.u) << " after the conversion");
        }
        labels_kept(a[x.mem[va.sel].name], *x.mem[va.sel].ty, b[y.mem[vb.sel].name], *y.mem[vb.sel].ty);
    }
}

static void body(Tape& t)
{
    Cfg cfg;
    cfg.deep = false;
    cfg.pairs = true;
    cfg.depth = int(t.chance(1, 10) ? 0 : 1 + t.index(4));
    Gen g(t, cfg);
    TyP a = g.root(cfg.depth);
    static const unsigned rates[] = {2, 3, 6, 16};
    Relate rel(t, g, rates[t.index(4)], t.chance(1, 8));
    TyP b = rel.type(a);
    if (t.chance(1, 3)) { std::swap(a, b); }
    NOTE(t, "type a " << show(*a));
    NOTE(t, "type b " << show(*b));
    int c = consistency(*a, *b);
    NOTE(t, "consistency " << cname(c));
    VCfg vc;
    vc.unselected = true;
    Val v = VGen(t, vc).val(*a);
    Conv cv;
    Val want;
    if (c != NO) { want = cv.conv(*a, v, *b); }
    NOTE(t, "value " << enc(*a, v));
    xt::DynamicData src = make(*a, v);
    bool ok = true;
    Val got;
    try
    {
        xt::DynamicData d(src.cref(), b->x());
        got = read(d, *b, "the copy");
        if (ok && c != NO && !cv.refused)
        {
            if (cv.collided) { t.label("conv:keys-collide"); }
            else if (!converted(*b, got, want)) { FAIL("the copy is " << enc(*b, got) << " but should be " << enc(*b, want)); }
            labels_kept(src, *a, d, *b);
            // The copy is independent
            xt::DynamicData keep(d.cref());
            Mutator m(t, vc);
            Val w = got;
            // (a value that is not one of its enumeration cannot be written again)
            for (size_t i = 0, n = rel.enumerators ? 0 : t.index(4); i < n; ++i) { std::string s = m.step(d.ref(), *b, w, "copy"); NOTE(t, s); }
            expect(d, *b, w, "the copy after operations");
            expect(src, *a, v, "the source after operations on its copy");
            for (size_t i = 0, n = t.index(3); i < n; ++i) { std::string s = m.step(src.ref(), *a, v, "source"); NOTE(t, s); }
            expect(d, *b, w, "the copy after operations on its source");
            if (!several_labels(*b)) { CHECK(same(*b, read(keep, *b), got), "a copy of the copy has other value"); }
        }
    }
    catch (const std::runtime_error& e)
    {
        NOTE(t, "refused: " << e.what());
        ok = false;
    }
    if (c == NO) { CHECK(!ok, "a copy between incompatible types is not refused"); t.label("conv:incompatible"); }
    else if (cv.unsure) { t.label("conv:map-unsure"); }
    else if (cv.refused) { CHECK(!ok, "a copy between maps of different contents is not refused"); t.label("conv:map-refused"); }
    else
    {
        CHECK(ok, "a copy between compatible types (" << cname(c) << ") is refused");
        if (cv.cut) { t.label("conv:truncated"); }
        if (cv.filled) { t.label("conv:filled"); }
        if (cv.narrowed) { t.label("conv:narrowed"); }
        if (c == EQ) { t.label("conv:equals"); }
    }
    expect(src, *a, v, "the source");
    // And an equal type gives an equal value
    if (c == EQ && ok && t.chance(1, 2))
    {
        xt::DynamicData d(src.cref(), b->x()), e(d.cref(), a->x());
        if (!several_labels(*a)) { CHECK(e == src, "a copy to an equal type and back is different"); }
        expect(e, *a, v, "a copy to an equal type and back");
    }
    if (rel.changes && c != NO) { t.nontrivial(); }
}

// ---- regressions
template<class A, class B>
static B one(A x)
{
    xt::DynamicData a(xt::primitive_type<A>());
    a = x;
    xt::DynamicData b(a.cref(), xt::primitive_type<B>());
    return b.template value<B>();
}
static void prims()
{
    CHECK((one<float, int32_t>(3.75f) == 3), "float to int32");
    CHECK((one<int32_t, double>(-7) == -7.0), "int32 to double");
    CHECK((one<bool, uint64_t>(true) == 1), "bool to uint64");
    CHECK((one<int32_t, bool>(256) == true), "int32 to bool");
    CHECK((one<int8_t, int64_t>(-5) == -5), "int8 to int64");
    CHECK((one<uint64_t, uint8_t>(0x1234) == 0x34), "uint64 to uint8");
    CHECK((one<long double, float>(1.5L) == 1.5f), "long double to float");
}
static void arrays()
{
    TyP a = arr(strct("S", {Mem{"s", str(K::Str), {}, false}, Mem{"i", prim(K::I16), {}, false}}), 2);
    TyP b = arr(strct("R", {Mem{"s", str(K::Str, 3), {}, false}, Mem{"i", prim(K::I64), {}, false}, Mem{"z", str(K::Str), {}, false}}), 4);
    xt::DynamicData x(a->x());
    x[1]["s"] = std::string("abcdef");
    x[1]["i"] = int16_t(-3);
    xt::DynamicData y(x.cref(), b->x());
    CHECK(y[1]["s"].value<std::string>() == "abc" && y[1]["i"].value<int64_t>() == -3 && y[3]["z"].value<std::string>().empty(), "array of structs");
    y[3]["z"] = std::string("ok");
    xt::DynamicData z(y.cref(), a->x());
    CHECK(z[1]["s"].value<std::string>() == "abc" && z.size() == 2, "and back");
}
static void one_member()
{
    TyP i = prim(K::I32);
    TyP s = strct("S", {Mem{"a", i, {}, false}});
    TyP s2 = strct("S2", {Mem{"b", alias(s, "A"), {}, false}});
    xt::DynamicData x(i->x());
    x = int32_t(77);
    xt::DynamicData y(x.cref(), s2->x());
    CHECK(y["b"]["a"].value<int32_t>() == 77, "to a struct of one member");
    xt::DynamicData z(y.cref(), prim(K::I64)->x());
    CHECK(z.value<int64_t>() == 77, "and back");
}
static void unions()
{
    TyP u = unio("U", prim(K::I32), {Mem{"a", str(K::Str), {1, 300}, false}, Mem{"b", seq(prim(K::U8)), {2}, false}});
    TyP v = unio("V", prim(K::I16), {Mem{"a", str(K::Str, 2), {300}, false}, Mem{"c", seq(prim(K::I32), 1), {1}, false}, Mem{"d", prim(K::I8), {2}, true}});
    xt::DynamicData x(u->x());
    x["a"] = std::string("hello");
    xt::DynamicData y(x.cref(), v->x());
    CHECK(y["a"].value<std::string>() == "he" && y.d().value<int16_t>() == 300, "union, first case");
    x["b"].push(uint8_t(200));
    x["b"].push(uint8_t(201));
    xt::DynamicData z(x.cref(), v->x());
    CHECK(z.current_case().name() == "c" && z["c"].size() == 1 && z["c"][0].value<int32_t>() == 200, "union, second case");
}
static void failed_part()
{
    // the conversion of a later part is refused: the parts already converted are released
    TyP a = strct("S", {Mem{"s", str(K::Str), {}, false}, Mem{"m", mp(prim(K::I32), str(K::Str)), {}, false}});
    TyP b = strct("S", {Mem{"s", str(K::Str), {}, false}, Mem{"m", mp(prim(K::I64), str(K::Str)), {}, false}});
    for (TyP p : {a, arr(a, 3), pr(a, a)})
    {
        TyP q = p == a ? b : p->k == K::Array ? arr(b, 3) : pr(b, b);
        xt::DynamicData x(p->x());
        bool r = false;
        try { xt::DynamicData y(x.cref(), q->x()); }
        catch (const std::runtime_error&) { r = true; }
        CHECK(r, "not refused");
    }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P11";
    p.rule = "case: a random value of a random type, and a second type that differs from the first in a random number of places; the data of the second type created from it against a reference "
        "conversion, in a direction or the other, then operations on both. Non-trivial: the types differ and are compatible.";
    p.body = body;
    p.quick_cases = 160000;
    p.thorough_cases = 5000000;
    p.leak_check = true;
    p.assumptions = {"Where converted keys of a map meet, which of the entries is kept is left open.", "Floating values that an integer type cannot hold are not converted (undefined in C++)."};
    p.regressions = {
        {"R-prims", "primitive values are cast", prims},
        {"R-arrays", "arrays of other dimension and content", arrays},
        {"R-one-member", "structs of one member convert as their member", one_member},
        {"R-unions", "unions convert by position of their cases", unions},
        {"R-failed-part", "a conversion refused half way releases what it made", failed_part},
    };
    return pbt::run_main(argc, argv, p);
}
