// P03: no history of operations reads or writes memory it does not own, or leaves memory behind.
#include "model.hpp"
#include "big.hpp"
using namespace model;

// Destroys every type object that the model holds: from here only the data keeps types alive.
static void drop_types(const Ty& ty)
{
    Ty& t = const_cast<Ty&>(ty);
    t.sh.reset();
    t.un.reset();
    if (t.c) { drop_types(*t.c); }
    if (t.key) { drop_types(*t.key); }
    if (t.parent) { drop_types(*t.parent); }
    for (auto& m : t.mem) { drop_types(*m.ty); }
}

// Any call, right or wrong: only std::exception may come out of it.
template<class F> static bool attempt(F&& f)
{
    try { f(); return true; }
    catch (const std::exception&) { return false; }
}

// Uses a random node in a random way, often a wrong one.
static void abuse(Tape& t, xt::WritableDynamicDataRef w, const Ty& any, const xt::DynamicData& other)
{
    switch (t.index(18))
    {
        case 0: attempt([&] { w[t.index(8)]; }); break;
        case 1: attempt([&] { w["m" + std::to_string(t.index(6))]; }); break;
        case 2: attempt([&] { w.resize(t.index(12)); }); break;
        case 3: attempt([&] { w.push(other); }); break;
        case 4: attempt([&] { w = other.ref(); }); break;
        case 5: attempt([&] { w[other]; }); break;
        case 6: attempt([&] { w.at(other); }); break;
        case 7: attempt([&] { w.insert(other); }); break;
        case 8: attempt([&] { w.has_key(other); }); break;
        case 9: attempt([&] { w.d(t.range(-3, 130)); }); break;
        case 10: attempt([&] { w.value<std::string>(std::string(t.index(60), 's')); }); break;
        case 11: attempt([&] { w.value<uint32_t>(uint32_t(t.index(50))); }); break;
        case 12: attempt([&] { w = std::u16string(t.index(60), u's'); }); break;
        case 13: // (only data of one type can be compared)
            if (w.type().is_compatible(other.type()) == xt::TypeConsistency::EQUALS) { attempt([&] { w.cref() == other; }); }; break;
        case 14: attempt([&] { w.hash(); }); break;
        case 15:
        {
            size_t stop = 1 + t.index(6), n = 0;
            attempt([&] { w.cref().for_each([&](const xt::ReadableDynamicDataRef::ReadableNode&) { if (++n == stop) { throw true; } }); });
            break;
        }
        case 16: attempt([&] { w.to_string(); }); break;
        case 17: attempt([&] { xt::DynamicData c(w.cref(), any.x()); }); break;
    }
}

static void pick_node(Tape& t, xt::WritableDynamicDataRef w, const std::function<void(xt::WritableDynamicDataRef)>& f, int depth)
{
    if (depth > 0 && !t.chance(1, 4))
    {
        const xt::DynamicType& ty = w.type();
        try
        {
            switch (ty.kind())
            {
                case xt::TypeKind::STRUCTURE_TYPE: case xt::TypeKind::ARRAY_TYPE: case xt::TypeKind::SEQUENCE_TYPE: case xt::TypeKind::PAIR_TYPE:
                    if (w.size() > 0) { pick_node(t, w[t.index(w.size())], f, depth - 1); return; }
                    break;
                case xt::TypeKind::MAP_TYPE:
                    if (w.size() > 0)
                    {
                        size_t i = t.index(w.size());
                        for (xt::WritableDynamicDataRef e : w) { if (i-- == 0) { pick_node(t, e[1], f, depth - 1); return; } }
                    }
                    break;
                case xt::TypeKind::UNION_TYPE:
                    pick_node(t, w[w.current_case().name()], f, depth - 1);
                    return;
                default: break;
            }
        }
        catch (const std::runtime_error&) {}    // a union with nothing selected
    }
    f(w);
}

static void body(Tape& t)
{
    if (t.chance(1, 4000)) { if (t.chance(1, 2)) { big::values(t); } else { big::copies(t); } return; }
    Cfg cfg;
    cfg.pairs = true;
    cfg.depth = 1 + int(t.index(4));
    TyP ty = Gen(t, cfg).root(cfg.depth);
    Cfg small = cfg;
    small.depth = 1;
    Gen g2(t, small);
    g2.counter = 500;
    TyP ty2 = t.chance(1, 2) ? g2.type(int(t.index(3))) : ty;
    if (!is_leaf(ty->r().k) && t.chance(1, 2) && ty->r().c && ty->r().k != K::Union) { ty2 = ty->r().c; }
    NOTE(t, "type " << show(*ty));
    NOTE(t, "other type " << show(*ty2));
    label_kinds(t, *ty);
    VCfg vc;
    vc.unselected = true;
    bool heap = contains_kind(*ty, K::Str) || contains_kind(*ty, K::WStr) || contains_kind(*ty, K::Str16) || contains_kind(*ty, K::Seq) || contains_kind(*ty, K::Map);
    Mutator m(t, vc);
    std::vector<std::unique_ptr<xt::DynamicData>> pool;
    std::vector<Val> vals;
    for (int i = 0; i < 2; ++i)
    {
        Val v = m.gen(*ty);
        pool.emplace_back(new xt::DynamicData(make(*ty, v)));
    }
    xt::DynamicData other = make(*ty2, m.gen(*ty2));
    size_t steps = 1 + t.index(12), done = 0;
    bool dropped = false;
    for (size_t n = 0; n < steps; ++n)
    {
        size_t i = t.index(pool.size()), j = t.index(pool.size());
        switch (t.weighted({5, 2, 2, 2, 1, 1, 2, 1, 1, 1}))
        {
            case 0:
                pick_node(t, pool[i]->ref(), [&](xt::WritableDynamicDataRef w) {
                        if (dropped) { abuse(t, w, *prim(K::I32), other); }
                        else { abuse(t, w, t.chance(1, 2) ? *ty2 : *ty, t.chance(1, 2) ? other : *pool[j]); } }, 4);
                NOTE(t, "abuse slot " << i);
                break;
            case 1: *pool[i] = *pool[j]; NOTE(t, "assign " << i << "," << j); break;
            case 2: pool[i].reset(new xt::DynamicData(*pool[j])); NOTE(t, "copy construct " << i << "," << j); break;
            case 3:
                if (i != j)
                {
                    pool[i].reset(new xt::DynamicData(std::move(*pool[j])));
                    pool[j].reset(new xt::DynamicData(*pool[i]));
                    NOTE(t, "move construct " << i << "," << j);
                }
                break;
            case 4: pool[i]->ref() = pool[j]->ref(); NOTE(t, "reference assign " << i << "," << j); break;
            case 5:
                // data whose construction fails, or that lives shortly
                if (!dropped)
                {
                    attempt([&] { xt::DynamicData c(*pool[i], ty2->x()); t.label("op:converted"); });
                    attempt([&] { xt::DynamicData c(other, ty->x()); });
                    NOTE(t, "convert " << i);
                }
                break;
            case 6:
                pick_node(t, pool[i]->ref(), [&](xt::WritableDynamicDataRef w) { xt::DynamicData c(w.cref()); w = c.ref(); }, 4);
                NOTE(t, "extract and assign back " << i);
                break;
            case 7:
                pick_node(t, pool[i]->ref(), [&](xt::WritableDynamicDataRef w) { xt::DynamicData c(w.type()); w = c.ref(); }, 4);
                NOTE(t, "reset a node " << i);
                break;
            case 8:
                if (!dropped && t.chance(1, 2))
                {
                    drop_types(*ty);
                    drop_types(*ty2);
                    dropped = true;
                    t.label("op:types-dropped");
                    NOTE(t, "types dropped");
                }
                break;
            case 9:
                if (pool.size() < 4) { pool.emplace_back(new xt::DynamicData(*pool[i])); }
                else { pool.pop_back(); }
                NOTE(t, "grow or shrink the pool");
                break;
        }
        ++done;
    }
    bool eq = *pool[0] == *pool[pool.size() - 1];
    (void)eq;
    attempt([&] { pool[0]->hash(); });
    if (heap && done > 1) { t.nontrivial(); }
}

// ---- regressions: each one is a history that used to corrupt memory or to leak
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static std::function<void()> clean(const std::function<void()>& f)
{
    return [f]()
    {
        f();
        f();
        size_t a = __sanitizer_get_current_allocated_bytes();
        f();
        size_t b = __sanitizer_get_current_allocated_bytes();
        f();
        size_t c = __sanitizer_get_current_allocated_bytes();
        CHECK(!(b > a && c > b), "the heap grows by " << b - a << " bytes every time");
    };
}
static std::string S(char c, size_t n = 60) { return std::string(n, c); }
static void failed_conversion()
{
    // maps whose contents are compatible only by conversion refuse to be converted
    TyP a = strct("A", {Mem{"s", str(K::Str), {}, false}, Mem{"m", mp(prim(K::I32), str(K::Str)), {}, false}});
    TyP b = strct("A", {Mem{"s", str(K::Str), {}, false}, Mem{"m", prim(K::I32), {}, false}});
    xt::DynamicData d(a->x());
    d["s"] = S('x');
    attempt([&] { xt::DynamicData c(d, b->x()); });
    xt::DynamicData e(b->x());
    attempt([&] { xt::DynamicData c(e, a->x()); });
}
static void moved()
{
    TyP a = strct("A", {Mem{"s", str(K::Str), {}, false}, Mem{"q", seq(str(K::Str)), {}, false}, Mem{"m", mp(str(K::Str), str(K::Str)), {}, false},
                Mem{"r", arr(str(K::WStr), 3), {}, false}});
    xt::DynamicData d(a->x());
    d["s"] = S('x');
    d["q"].push(S('y'));
    xt::DynamicData k(str(K::Str)->x());
    k = S('k');
    d["m"][k] = S('z');
    d["r"][1] = std::wstring(60, L'w');
    std::vector<xt::DynamicData> v;
    for (int i = 0; i < 5; ++i) { v.push_back(std::move(d)); d = v.back(); }
}
static void own_element()
{
    TyP q = seq(str(K::Str));
    xt::DynamicData d(q->x());
    for (int i = 0; i < 40; ++i) { d.push(S(char('a' + i % 26))); d.push(d[i]); d.push(d[i].value<std::string>()); }
    xt::DynamicData u(seq(q)->x());
    for (int i = 0; i < 20; ++i) { u.push(d); u.push(u[i]); }
    u.resize(70);
}
static void shorter()
{
    TyP s = str(K::Str);
    TyP a = strct("A", {Mem{"s", s, {}, false}});
    TyP b = strct("A", {Mem{"s", s, {}, false}, Mem{"t", s, {}, false}, Mem{"u", seq(s), {}, false}});
    xt::DynamicData d(a->x());
    d["s"] = S('x');
    attempt([&] { xt::DynamicData e(d, b->x()); e["t"] = S('t'); e["u"].push(S('u')); });
    xt::DynamicData e(arr(s, 2)->x());
    e[0] = S('a');
    attempt([&] { xt::DynamicData f(e, arr(s, 6)->x()); f[5] = S('b'); });
}
static void temporary()
{
    TyP s = str(K::Str);
    xt::DynamicData d(s->x());
    d = S('x');
    xt::ReadableDynamicDataRef r = xt::DynamicData(d);
    CHECK(r.type().kind() == xt::TypeKind::STRING_TYPE, "type");
}
static void insert_pairs()
{
    TyP k = str(K::Str), v = seq(str(K::Str)), m = mp(k, v), q = pr(k, v);
    xt::DynamicData d(m->x());
    for (int i = 0; i < 40; ++i)
    {
        xt::DynamicData p(q->x());
        p[0] = S('k') + std::to_string(i % 30);
        p[1].push(S('v'));
        d.insert(p);
    }
}
static void unions()
{
    TyP u = unio("U", prim(K::I32), {Mem{"a", str(K::Str), {1}, false}, Mem{"b", seq(str(K::Str)), {2, 3}, false}, Mem{"c", prim(K::I64), {}, true}});
    xt::DynamicData d(u->x()), e(u->x());
    d["a"] = S('x');
    e["b"].push(S('y'));
    e = d;
    d["b"].push(S('z'));
    e = d;
    xt::DynamicData f(std::move(e));
    f["c"] = int64_t(4);
    attempt([&] { f.d(1); });
    d = f;
    TyP w = unio("W", prim(K::I32), {Mem{"a", prim(K::I32), {1}, false}, Mem{"b", str(K::Str), {2}, false}});
    xt::DynamicData x(w->x()), y(x);
    y = x;
}
static void refused()
{
    TyP s = str(K::Str), mb = mp(prim(K::Bool), s), mi = mp(prim(K::I32), s);
    auto mk = [&](TyP m, std::vector<TyP>& out)
            {
                TyP st = strct("T", {Mem{"a", s, {}, false}, Mem{"m", m, {}, false}});
                out = {st, seq(m), arr(st, 2), pr(s, m), seq(st), strct("U", {Mem{"q", seq(s), {}, false}, Mem{"x", seq(st), {}, false}})};
            };
    std::vector<TyP> a, b;
    mk(mb, a);
    mk(mi, b);
    pbt::Tape t(3);
    for (size_t i = 0; i < a.size(); ++i)
    {
        for (int k = 0; k < 4; ++k)
        {
            VCfg vc; vc.big = true; vc.max_str = 60;
            xt::DynamicData d = make(*a[i], VGen(t, vc).val(*a[i]));
            attempt([&] { xt::DynamicData e(d, b[i]->x()); });
        }
    }
}
static void items_of_temporary()
{
    TyP in = strct("I", {Mem{"a", str(K::Str), {}, false}, Mem{"b", prim(K::I32), {}, false}});
    TyP s = strct("S", {Mem{"x", in, {}, false}});
    xt::DynamicData d(s->x());
    size_t n = 0;
    for (auto&& i : d["x"].items()) { n += i.member().name().size(); }
    for (auto&& i : d["x"].citems()) { n += i.member().name().size(); }
    for (auto&& i : d.cref()["x"].items()) { n += i.member().name().size(); }
    CHECK(n == 6, "members visited");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P03";
    p.rule = "case: a random type, a second one, a pool of data, 1-12 operations (right and wrong calls on random nodes, copies, moves, conversions that succeed or fail, "
        "resets, destruction of the type objects while data lives). AddressSanitizer and UBSan watch every access; the heap must be as large after the case as before it. "
        "Non-trivial: the type owns heap memory and there were at least 2 operations.";
    p.body = body;
    p.quick_cases = 400000;
    p.thorough_cases = 6000000;
    p.leak_check = true;
    p.regressions = {
        {"R-failed-conversion", "a conversion that fails releases what it had built", clean(failed_conversion)},
        {"R-moved", "moved-from data releases what it owns", clean(moved)},
        {"R-own-element", "pushing a sequence's own elements", clean(own_element)},
        {"R-shorter", "copy from a shorter array or structure", clean(shorter)},
        {"R-temporary", "a reference to temporary data", clean(temporary)},
        {"R-insert-pairs", "inserting pairs in a map", clean(insert_pairs)},
        {"R-unions", "copying, moving and switching unions", clean(unions)},
        {"R-refused", "a conversion refused half way releases what it had converted", [] { refused(); clean([] { refused(); })(); }},
        {"R-items-of-temporary", "iterating the members of data reached through a temporary reference", clean(items_of_temporary)},
    };
    return pbt::run_main(argc, argv, p);
}
