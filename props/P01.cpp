// P01: data of any type behaves as a tree of independent typed values.
#include "model.hpp"
#include "big.hpp"
using namespace model;

static void body(Tape& t)
{
    if (t.chance(1, 3000)) { big::values(t); return; }
    Cfg cfg;
    cfg.pairs = true;
    cfg.depth = 1 + int(t.index(4));
    TyP ty = Gen(t, cfg).root(cfg.depth);
    NOTE(t, "type " << show(*ty));
    label_kinds(t, *ty);
    VCfg vc;
    vc.unselected = true;
    Val v = dflt(*ty);
    xt::DynamicData d(ty->x());
    expect(d, *ty, v, "fresh data");
    if (t.chance(1, 2))
    {
        v = VGen(t, vc).val(*ty);
        NOTE(t, "initial " << enc(*ty, v));
        write(d.ref(), *ty, v);
        expect(d, *ty, v, "after the initial writes");
    }
    Mutator m(t, vc);
    size_t steps = 1 + t.index(10);
    for (size_t i = 0; i < steps; ++i)
    {
        std::string what = m.step(d.ref(), *ty, v, "d");
        NOTE(t, what);
        expect(d, *ty, v, "after " + what);
    }
    if (!is_leaf(ty->r().k) && steps > 1 && count_nodes(*ty, v) > 2) { t.nontrivial(); }
}

// ---- regressions
static void push_own()
{
    TyP s = str(K::Str), q = seq(s);
    Val v;
    xt::DynamicData d(q->x());
    for (int i = 0; i < 20; ++i)
    {
        Val e;
        e.s.assign(40, uint32_t('a' + i));
        v.v.push_back(e);
        d.push(make(*s, e));
        d.push(d[v.v.size() - 1]);
        v.v.push_back(e);
    }
    expect(d, *q, v, "sequence that was pushed its own elements");
}
static void self_assign()
{
    TyP s = str(K::Str);
    Val e;
    e.s.assign(60, uint32_t('x'));
    xt::DynamicData d = make(*s, e);
    xt::DynamicData& r = d;
    d = r;
    expect(d, *s, e, "self-assigned");
    d = d.ref();
    expect(d, *s, e, "self-assigned by reference");
    d = d.value<std::string>();
    expect(d, *s, e, "assigned its own value");
}
static void union_switch()
{
    TyP u = unio("U", prim(K::I32), {Mem{"a", str(K::Str), {1, 2}, false}, Mem{"b", seq(prim(K::I32)), {3}, false}});
    TyP s = strct("S", {Mem{"x", u, {}, false}, Mem{"y", prim(K::U8), {}, false}});
    xt::DynamicData d(s->x()), e(s->x());
    d["x"]["a"] = std::string(50, 'q');
    e["x"]["b"].push(int32_t(4));
    e["y"] = uint8_t(7);
    d["x"] = e["x"];
    CHECK(d["x"].current_case().name() == "b" && d["x"]["b"][0].value<int32_t>() == 4 && d["y"].value<uint8_t>() == 0, "union member assigned");
    xt::DynamicData f(s->x());
    e = f;
    CHECK(e["y"].value<uint8_t>() == 0, "assigned from data whose union has no selected case");
}
static void label_kept()
{
    TyP u = unio("U", prim(K::I32), {Mem{"a", prim(K::I32), {1, 2}, false}});
    xt::DynamicData d(u->x());
    d["a"] = 5;
    d.d(2);
    d["a"] = 6;
    CHECK(d.d().value<int32_t>() == 2, "writing the selected case changed its label to " << d.d().value<int32_t>());
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P01";
    p.rule = "case: a random type (depth 1-4, all kinds, shared or not), data of it, optional random value, 1-10 random operations on random nodes; "
        "after each the whole tree is read back and compared with a reference model. Non-trivial: the type is not a leaf, at least 2 operations, at least 3 nodes.";
    p.body = body;
    p.quick_cases = 300000;
    p.thorough_cases = 1500000;
    p.regressions = {
        {"R-push-own-element", "a sequence can be pushed its own elements", push_own},
        {"R-self-assign", "self-assignment keeps the value", self_assign},
        {"R-union-switch", "assigning a union replaces its selected case", union_switch},
        {"R-label-kept", "writing the selected case of a union keeps its label", label_kept},
    };
    return pbt::run_main(argc, argv, p);
}
