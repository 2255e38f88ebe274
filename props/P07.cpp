// P07: strings of the three character widths keep every character, and bounded ones keep the first `bound` ones.
#include "model.hpp"
using namespace model;

static std::string attempt(const std::function<void()>& f)
{
    try { f(); return ""; }
    catch (const std::runtime_error& e) { return e.what(); }
}
static Val cut(Val v, uint32_t bound)
{
    if (bound && v.s.size() > bound) { v.s.resize(bound); }
    return v;
}
static size_t length(Tape& t, uint32_t bound)
{
    switch (t.weighted({4, 4, 2, 1}))
    {
        case 0: return t.index(20);
        case 1: return bound ? bound - std::min<size_t>(bound, 2) + t.index(5) : t.index(40);    // around the bound
        case 2: return t.index(100);
        default: return t.index(t.chance(1, 60) ? 80000 : 2000);
    }
}
static Val text(Tape& t, K k, uint32_t bound)
{
    Val v;
    size_t n = length(t, bound);
    uint32_t mask = k == K::Str ? 0xff : k == K::Str16 ? 0xffff : 0x1fffff;
    for (size_t i = 0; i < n; ++i)
    {
        uint32_t c = t.chance(1, 6) ? uint32_t(t.bits()) & mask : uint32_t('a' + t.index(26));
        if (t.chance(1, 30)) { c = 0; }
        v.s.push_back(c);
        if (i > 60) { uint32_t q = c; while (++i < n) { v.s.push_back((q = q * 31 + uint32_t(i)) & mask); } }
    }
    return v;
}
static uint32_t bound(Tape& t)
{
    switch (t.weighted({3, 4, 2, 1})) { case 0: return 0; case 1: return uint32_t(1 + t.index(20)); case 2: return uint32_t(1 + t.index(200)); default: return uint32_t(1 + t.index(t.chance(1, 10) ? 75000 : 1500)); }
}

static void body(Tape& t)
{
    static const K ks[] = {K::Str, K::WStr, K::Str16};
    K k = ks[t.weighted({2, 1, 1})];
    uint32_t b = bound(t), b2 = bound(t);
    bool sh = t.chance(1, 2);
    TyP s = str(k, b, sh), s2 = str(k, b2, t.chance(1, 2));
    TyP leaf = t.chance(1, 6) ? alias(s, "A") : s;
    CHECK(static_cast<const xt::MutableCollectionType&>(s->x()).bounds() == b, "bounds() of the type is " << static_cast<const xt::MutableCollectionType&>(s->x()).bounds());
    // where the string lives
    TyP ty;
    std::function<xt::WritableDynamicDataRef(xt::DynamicData&)> at;
    switch (t.index(5))
    {
        case 0: ty = leaf; at = [](xt::DynamicData& d) { return d.ref(); }; break;
        case 1:
            ty = strct("S", {Mem{"a", prim(K::U8), {}, false}, Mem{"s", leaf, {}, false}, Mem{"z", leaf, {}, false}}, nullptr, t.chance(1, 2));
            at = [](xt::DynamicData& d) { return d["s"]; };
            break;
        case 2: ty = arr(leaf, 3, t.chance(1, 2)); at = [](xt::DynamicData& d) { return d[1]; }; break;
        case 3: ty = seq(leaf, 4, t.chance(1, 2)); at = [](xt::DynamicData& d) { if (d.size() < 2) { d.resize(2); } return d[1]; }; break;
        default:
            ty = unio("U", prim(K::I32), {Mem{"x", prim(K::I64), {1}, false}, Mem{"s", leaf, {2}, false}}, t.chance(1, 2));
            at = [](xt::DynamicData& d) { return d["s"]; };
    }
    NOTE(t, "type " << show(*ty) << ", other bound " << b2);
    xt::DynamicData d(ty->x());
    Val v;
    expect(at(d), *s, v, "fresh");
    bool truncated = false;
    size_t writes = 0;
    with_str(k, [&](auto z)
            {
                using T = decltype(z);
                using C = typename T::value_type;
                size_t steps = 1 + t.index(6);
                for (size_t i = 0; i < steps; ++i)
                {
                    Val n = text(t, k, b);
                    std::string what;
                    ++writes;
                    switch (t.index(8))
                    {
                        case 0: at(d).template value<T>(to_str<T>(n)); v = cut(n, b); what = "value()"; break;
                        case 1: at(d) = to_str<T>(n); v = cut(n, b); what = "="; break;
                        case 2:
                        {
                            xt::DynamicData e(s->x());
                            e = to_str<T>(n);
                            at(d) = e.ref();
                            v = cut(n, b);
                            what = "= data";
                            break;
                        }
                        case 3:
                        {
                            // a copy with another bound
                            xt::DynamicData e(at(d).cref(), s2->x());
                            Val w = cut(v, b2);
                            expect(e, *s2, w, "copied to a string of bound " + std::to_string(b2));
                            if (b2 && v.s.size() > b2) { truncated = true; t.label("truncated on conversion"); }
                            // and from it
                            e = to_str<T>(n);
                            w = cut(n, b2);
                            expect(e, *s2, w, "string of bound " + std::to_string(b2));
                            xt::DynamicData f(e, s->x());
                            expect(f, *s, cut(w, b), "copied from a string of bound " + std::to_string(b2));
                            if (b != b2) { CHECK(!attempt([&] { at(d) = e.ref(); }).empty(), "a string of another bound was assigned"); }
                            what = "conversion";
                            break;
                        }
                        case 4:
                        {
                            xt::DynamicData q(seq(s)->x());
                            q.push<T>(to_str<T>(n));
                            q.push(at(d));
                            expect(q[0], *s, cut(n, b), "pushed value");
                            expect(q[1], *s, v, "pushed string");
                            what = "push";
                            break;
                        }
                        case 5:
                        {
                            // its own value
                            const T& own = at(d).cref().template value<T>();
                            at(d).template value<T>(own);
                            what = "own value";
                            break;
                        }
                        case 6:
                        {
                            T x = at(d);    // conversion operator
                            CHECK(enc(*s, from_str<T>(x)) == enc(*s, v), "read by conversion");
                            xt::DynamicData e(d);
                            at(e) = to_str<T>(n);
                            expect(at(d), *s, v, "original of a copy that was written");
                            expect(at(e), *s, cut(n, b), "copy");
                            what = "copy";
                            break;
                        }
                        default:
                        {
                            // the other kinds of string are refused
                            std::string err;
                            if (k == K::Str) { err = attempt([&] { at(d) = std::wstring(L"x"); }); }
                            else { err = attempt([&] { at(d) = std::string("x"); }); }
                            CHECK(!err.empty(), "a string of other character width was accepted");
                            CHECK(!attempt([&] { at(d).template value<int32_t>(1); }).empty(), "a number was accepted");
                            what = "refused kinds";
                        }
                    }
                    if (b && n.s.size() > b) { truncated = true; t.label("truncated"); }
                    NOTE(t, what << " with " << n.s.size() << " characters");
                    expect(at(d), *s, v, "after " + what);
                    const T& r = at(d).cref().template value<T>();
                    CHECK(!b || r.size() <= b, "the string has " << r.size() << " characters, its bound is " << b);
                    (void)sizeof(C);
                }
            });
    if (truncated && writes > 1) { t.nontrivial(); }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P07";
    p.rule = "case: a string type (3 character widths, bound 0-1500) alone or inside a structure, array, sequence or union, and 1-6 writes (values up to 2000 characters, now and then 80000, with any code unit; many "
        "around the bound) by every way of writing, copying and converting. Non-trivial: some value was longer than its bound and there were two operations.";
    p.body = body;
    p.quick_cases = 700000;
    p.thorough_cases = 20000000;
    return pbt::run_main(argc, argv, p);
}
