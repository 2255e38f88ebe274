// P13: comparing, testing and casting data gives what C++ gives on native values.
#include "model.hpp"
using namespace model;

template<class F> static bool refused(F&& f)
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}
template<class T> static std::string txt(T x) { if constexpr (std::is_floating_point<T>::value) { return encf(x); } else { return std::to_string(x); } }

template<class T> static T operand(Tape& t, const Ty& p, T other)
{
    switch (t.index(5))
    {
        case 0: return other;
        case 1: return T(t.below(3));
        case 2:
            if constexpr (std::is_floating_point<T>::value)
            {
                static const T sp[] = {std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), T(-0.0), T(0.5), std::numeric_limits<T>::denorm_min()};
                return sp[t.index(6)];
            }
            return T(other + (t.chance(1, 2) ? 1 : -1) * (other > T(0) && other < T(100)));
        default: return to_prim<T>(VGen(t).leaf(p));
    }
}

template<class T> static void compare(Tape& t, K k)
{
    TyP p = prim(k);
    TyP ap = t.chance(1, 3) ? alias(p, "A") : p;
    TyP q = seq(ap);
    T a = operand<T>(t, *p, T(1)), b = operand<T>(t, *p, a);
    NOTE(t, kname(k) << " " << txt(a) << " and " << txt(b));
    xt::DynamicData d(p->x()), e(ap->x()), s(q->x());
    d = a; e = b; s.push(b);
    for (int i = 0; i < 2; ++i)
    {
        xt::ReadableDynamicDataRef r = i ? s[0] : e.cref();
        CHECK((d < r) == (a < b), "< is " << (d < r));
        CHECK((d > r) == (a > b), "> is " << (d > r));
        CHECK((d <= r) == (a <= b), "<= is " << (d <= r));
        CHECK((d >= r) == (a >= b), ">= is " << (d >= r));
        CHECK((d == r) == (a == b), "== is " << (d == r));
        CHECK((d != r) == (a != b), "!= is " << (d != r));
        CHECK((d && r) == (a && b), "&& is " << (d && r));
        CHECK((d || r) == (a || b), "|| is " << (d || r));
    }
    if constexpr (std::is_floating_point<T>::value) { CHECK(refused([&] { !d; }), "! on a floating point number is not refused"); }
    else { CHECK(!d == !a, "! is " << !d); }
    T back = d;
    CHECK(txt(back) == txt(a) && txt(d.template value<T>()) == txt(a), "the conversion gives " << txt(back));
    if (a == a && b == b && !(a == b)) { t.nontrivial(); }
    t.label("op:compare");
}

template<class A, class B> static void cast_one(const xt::ReadableDynamicDataRef& d, A a)
{
    if constexpr (std::is_floating_point<A>::value && !std::is_floating_point<B>::value && !std::is_same<B, bool>::value)
    {
        // (out of range: undefined in C++)
        if (!(a > (long double)(std::numeric_limits<B>::min()) - 1 && a < (long double)(std::numeric_limits<B>::max()))) { return; }
    }
    B want = static_cast<B>(a), got = d.cast<B>();
    CHECK(txt(got) == txt(want), "cast of " << txt(a) << " from " << d.type().name() << " to " << xt::primitive_type<B>().name() << " gives " << txt(got) << ", should be " << txt(want));
}
template<class A> static void casts(const xt::ReadableDynamicDataRef& d, A a)
{
    cast_one<A, bool>(d, a); cast_one<A, char>(d, a); cast_one<A, wchar_t>(d, a); cast_one<A, char16_t>(d, a);
    cast_one<A, int8_t>(d, a); cast_one<A, uint8_t>(d, a); cast_one<A, int16_t>(d, a); cast_one<A, uint16_t>(d, a);
    cast_one<A, int32_t>(d, a); cast_one<A, uint32_t>(d, a); cast_one<A, int64_t>(d, a); cast_one<A, uint64_t>(d, a);
    cast_one<A, float>(d, a); cast_one<A, double>(d, a); cast_one<A, long double>(d, a);
    std::string s = d.cast<std::string>();
    CHECK(s == std::to_string(a), "cast of " << txt(a) << " to a string gives " << s);
}

static void cast(Tape& t)
{
    Cfg cfg;
    TyP ty = Gen(t, cfg).leaf();
    if (t.chance(1, 3)) { ty = alias(ty, "A"); }
    Val v = VGen(t).leaf(*ty);
    const Ty& r = ty->r();
    NOTE(t, show(*ty) << " " << enc(*ty, v));
    TyP q = seq(ty);
    xt::DynamicData d = make(*ty, v), s(q->x());
    s.push(d);
    for (int i = 0; i < 2; ++i)
    {
        xt::ReadableDynamicDataRef x = i ? s[0] : d.cref();
        if (is_prim(r.k)) { with_prim(r.k, [&](auto z) { using T = decltype(z); casts<T>(x, to_prim<T>(v)); }); t.nontrivial(); t.label("op:cast"); }
        else if (r.k == K::Enum) { with_enum(r.ebytes, [&](auto z) { using T = decltype(z); casts<T>(x, T(v.u)); }); t.nontrivial(); t.label("op:cast-enum"); }
        else
        {
            CHECK(refused([&] { x.cast<int32_t>(); }) && refused([&] { x.cast<double>(); }) && refused([&] { x.cast<bool>(); }), "a cast of a string to a number is not refused");
            if (r.k == K::Str) { CHECK(x.cast<std::string>() == to_str<std::string>(v), "cast of a string to a string"); }
            if (i == 0)
            {
                bool e = with_str(r.k, [&](auto z) { using T = decltype(z); return to_str<T>(v).empty(); });
                CHECK(!d == e, "! of a string is " << !d);
            }
            t.label("op:cast-string");
        }
        expect(x, *ty, v, "the data");
    }
}

// Data that is not primitive, or of another primitive type, has no order and no truth.
static void wrong(Tape& t)
{
    Cfg cfg;
    cfg.pairs = true;
    TyP a = Gen(t, cfg).type(int(t.index(3))), b = t.chance(1, 2) ? a : Gen(t, cfg).type(int(t.index(3)));
    Val va = VGen(t).val(*a), vb = VGen(t).val(*b);
    NOTE(t, show(*a) << " " << enc(*a, va) << " with " << show(*b) << " " << enc(*b, vb));
    const Ty& ra = a->r();
    const Ty& rb = b->r();
    if (is_prim(ra.k) && (rb.k == ra.k || (rb.k == K::Enum && !is_float(ra.k)))) { return; }
    xt::DynamicData da = make(*a, va), db = make(*b, vb);
    CHECK(refused([&] { da < db; }) && refused([&] { da > db; }) && refused([&] { da <= db; }) && refused([&] { da >= db; }), "a comparison is not refused");
    // (the right side of && and || is only looked at when it decides)
    bool left = is_prim(ra.k) && with_prim(ra.k, [&](auto z) { using T = decltype(z); return bool(to_prim<T>(va)); });
    if (!is_prim(ra.k) || left) { CHECK(refused([&] { da && db; }), "&& is not refused"); }
    if (!is_prim(ra.k) || !left) { CHECK(refused([&] { da || db; }), "|| is not refused"); }
    if (!is_prim(ra.k) && !is_string(ra.k))
    {
        CHECK(refused([&] { !da; }), "! is not refused");
        if (ra.k != K::Enum) { CHECK(refused([&] { da.cast<int32_t>(); }) && refused([&] { da.cast<std::string>(); }), "a cast is not refused"); }
    }
    expect(da, *a, va, "the left side");
    expect(db, *b, vb, "the right side");
    t.label("wrong:refused");
}

// Ordering data sorts it.
static void sorted(Tape& t)
{
    K k = Gen(t).prim_kind();
    TyP p = prim(k);
    with_prim(k, [&](auto z)
            {
                using T = decltype(z);
                std::vector<xt::DynamicData> ds;
                std::vector<T> ns;
                for (size_t i = 0, n = 2 + t.index(10); i < n; ++i)
                {
                    T x = to_prim<T>(VGen(t).leaf(*p));
                    ns.push_back(x);
                    xt::DynamicData d(p->x());
                    d = x;
                    ds.push_back(d);
                }
                std::stable_sort(ns.begin(), ns.end());
                std::stable_sort(ds.begin(), ds.end(), [](const xt::DynamicData& a, const xt::DynamicData& b) { return a < b; });
                for (size_t i = 0; i < ns.size(); ++i) { CHECK(txt(ds[i].template value<T>()) == txt(ns[i]), "sorted data has " << txt(ds[i].template value<T>()) << " at " << i << ", should be " << txt(ns[i])); }
            });
    t.nontrivial();
    t.label("op:sort");
}

static void body(Tape& t)
{
    switch (t.weighted({6, 4, 2, 1}))
    {
        case 0:
        {
            K k = Gen(t).prim_kind();
            with_prim(k, [&](auto z) { using T = decltype(z); compare<T>(t, k); });
            break;
        }
        case 1: cast(t); break;
        case 2: wrong(t); break;
        default: sorted(t);
    }
}

static void enums()
{
    TyP e = enm("E", 1, {{"A", 1}, {"B", 200}});
    xt::DynamicData d(e->x());
    d = uint8_t(200);
    CHECK(d.cast<int32_t>() == 200 && d.cast<int8_t>() == int8_t(200) && d.cast<std::string>() == "200", "cast of an enumeration of 8 bits");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P13";
    p.rule = "case: two values of a primitive type (equal, near, special or random), all comparison and logical operators against C++; or a leaf cast to the 15 primitive types and to string; or operands without "
        "the operator, which must be refused; or a vector sorted with <. Non-trivial: two different comparable values, a primitive or enumeration cast, a sort.";
    p.body = body;
    p.quick_cases = 1500000;
    p.thorough_cases = 20000000;
    p.assumptions = {"Casts of floating point values out of the range of the target are not made (undefined in C++)."};
    p.regressions = {{"R-enum-width", "enumerations are cast by their width", enums}};
    return pbt::run_main(argc, argv, p);
}
