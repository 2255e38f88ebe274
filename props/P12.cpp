// P12: arithmetic and bitwise operators on data compute what C++ computes on native values of its type.
#include "model.hpp"
using namespace model;

enum Op { Mul, Div, Mod, Add, Sub, Shl, Shr, And, Xor, Or, OpCount };
static const char* opname[] = {"*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"};

// What C++ gives; false where C++ leaves it undefined.
template<class T> static bool native(int op, T a, T b, T& r)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        switch (op)
        {
            case Mul: r = a * b; return true;
            case Div: r = a / b; return true;
            case Add: r = a + b; return true;
            case Sub: r = a - b; return true;
            default: return false;
        }
    }
    else
    {
        using P = decltype(a + b);      // the type the operation is done in
        using L = std::numeric_limits<P>;
        P x = a, y = b;
        P z = 0;
        bool bad = false;
        switch (op)
        {
            case Mul: bad = __builtin_mul_overflow(x, y, &z) && L::is_signed; break;
            case Add: bad = __builtin_add_overflow(x, y, &z) && L::is_signed; break;
            case Sub: bad = __builtin_sub_overflow(x, y, &z) && L::is_signed; break;
            case Div: case Mod:
                bad = y == 0 || (L::is_signed && x == L::min() && y == P(-1));
                if (!bad) { z = op == Div ? x / y : x % y; }
                break;
            case Shl: case Shr:
                bad = y < 0 || y >= P(8 * sizeof(P)) || (op == Shl && L::is_signed && (x < 0 || (y > 0 && x > (L::max() >> y))));
                if (!bad) { z = op == Shl ? x << y : x >> y; }
                break;
            case And: z = x & y; break;
            case Xor: z = x ^ y; break;
            default: z = x | y;
        }
        r = T(z);
        return !bad;
    }
}

static xt::DynamicData binary(int op, const xt::DynamicData& a, const xt::ReadableDynamicDataRef& b)
{
    switch (op)
    {
        case Mul: return a * b;
        case Div: return a / b;
        case Mod: return a % b;
        case Add: return a + b;
        case Sub: return a - b;
        case Shl: return a << b;
        case Shr: return a >> b;
        case And: return a & b;
        case Xor: return a ^ b;
        default: return a | b;
    }
}
static xt::DynamicData* compound(int op, xt::DynamicData& a, const xt::ReadableDynamicDataRef& b)
{
    switch (op)
    {
        case Mul: return &(a *= b);
        case Div: return &(a /= b);
        case Mod: return &(a %= b);
        case Add: return &(a += b);
        case Sub: return &(a -= b);
        case Shl: return &(a <<= b);
        case Shr: return &(a >>= b);
        case And: return &(a &= b);
        case Xor: return &(a ^= b);
        default: return &(a |= b);
    }
}
template<class T> static xt::DynamicData* compound_native(int op, xt::DynamicData& a, T b)
{
    if constexpr (!std::is_floating_point<T>::value)
    {
        switch (op)
        {
            case Mod: return &(a %= b);
            case Shl: return &(a <<= b);
            case Shr: return &(a >>= b);
            case And: return &(a &= b);
            case Xor: return &(a ^= b);
            case Or: return &(a |= b);
            default: break;
        }
    }
    switch (op)
    {
        case Mul: return &(a *= b);
        case Div: return &(a /= b);
        case Add: return &(a += b);
        default: return &(a -= b);
    }
}

template<class T> static std::string txt(T x) { if constexpr (std::is_floating_point<T>::value) { return encf(x); } else { return std::to_string(x); } }

template<class T> static void is(const xt::ReadableDynamicDataRef& d, T want, const std::string& what)
{
    CHECK(d.type().kind() == xt::primitive_type<T>().kind(), what << ": the type is " << d.type().name());
    T got = d.value<T>();
    CHECK(txt(got) == txt(want), what << " is " << txt(got) << " but should be " << txt(want));
}

template<class F> static bool refused(F&& f)
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}

template<class T> static T operand(Tape& t, K k)
{
    if (t.chance(1, 3)) { return T(t.range(0, 12)); }
    TyP p = prim(k);
    return to_prim<T>(VGen(t).leaf(*p));
}

template<class T> static void numeric(Tape& t, K k)
{
    TyP p = prim(k);
    if (t.chance(1, 3)) { p = alias(p, "A"); }
    // three data, and elements of a sequence and a struct as right sides
    TyP s = strct("S", {Mem{"c", prim(K::U8), {}, false}, Mem{"x", p, {}, false}}), q = seq(p);
    xt::DynamicData d[3] = {xt::DynamicData(p->x()), xt::DynamicData(p->x()), xt::DynamicData(p->x())};
    xt::DynamicData st(s->x()), sq(q->x());
    T m[3], ms, mq;
    for (int i = 0; i < 3; ++i) { m[i] = operand<T>(t, k); d[i] = m[i]; }
    ms = operand<T>(t, k); st["x"] = ms;
    mq = operand<T>(t, k); sq.push(T(0)); sq.push(mq);
    size_t done = 0;
    for (size_t step = 0, n = 1 + t.index(12); step < n; ++step)
    {
        int op = int(t.index(OpCount));
        size_t i = t.index(3), j = t.index(5);
        T b = j < 3 ? m[j] : j == 3 ? ms : mq;
        std::string what = txt(m[i]) + " " + opname[op] + " " + txt(b);
        T r;
        bool ok = native<T>(op, m[i], b, r);
        bool integer_only = op != Mul && op != Div && op != Add && op != Sub;
        auto rhs = [&]() -> xt::ReadableDynamicDataRef { return j < 3 ? d[j].cref() : j == 3 ? st["x"] : sq[1]; };
        if (std::is_floating_point<T>::value && integer_only)
        {
            CHECK(refused([&] { binary(op, d[i], rhs()); }), opname[op] << " on a floating type is not refused");
            CHECK(refused([&] { compound(op, d[i], rhs()); }), opname[op] << "= on a floating type is not refused");
            t.label("op:refused");
        }
        else if (ok)
        {
            NOTE(t, kname(k) << " " << what << " -> " << txt(r));
            switch (t.index(4))
            {
                case 0: is<T>(binary(op, d[i], rhs()), r, what); t.label("op:binary"); break;
                case 1:
                {
                    xt::DynamicData* x = compound(op, d[i], rhs());
                    CHECK(x == &d[i], what << ": the compound assignment does not return its left side");
                    m[i] = r;
                    t.label("op:compound");
                    break;
                }
                case 2:
                {
                    xt::DynamicData* x = compound_native<T>(op, d[i], b);
                    CHECK(x == &d[i], what << ": the compound assignment does not return its left side");
                    m[i] = r;
                    t.label("op:compound-native");
                    break;
                }
                default:
                {
                    // the result in its turn as an operand
                    T r2;
                    if (native<T>(op, r, m[2], r2)) { is<T>(binary(op, binary(op, d[i], rhs()), d[2]), r2, "(" + what + ") " + opname[op] + " " + txt(m[2])); }
                    t.label("op:nested");
                }
            }
            ++done;
        }
        // unary
        switch (t.index(6))
        {
            case 0:
                if constexpr (std::is_floating_point<T>::value || std::is_signed<T>::value)
                {
                    if (std::is_floating_point<T>::value || m[i] != std::numeric_limits<T>::min() || sizeof(T) < 4) { is<T>(-d[i], T(-m[i]), "- " + txt(m[i])); }
                }
                else { CHECK(refused([&] { -d[i]; }), "unary - on an unsigned type is not refused"); }
                t.label("op:minus");
                break;
            case 1:
                if constexpr (std::is_integral<T>::value && std::is_signed<T>::value) { is<T>(~d[i], T(~m[i]), "~ " + txt(m[i])); }
                else { CHECK(refused([&] { ~d[i]; }), "~ on other than a signed integer is not refused"); }
                t.label("op:not");
                break;
            case 2: case 3:
                if constexpr (std::is_integral<T>::value)
                {
                    bool up = t.chance(1, 2);
                    if (std::is_signed<T>::value && sizeof(T) >= 4 && m[i] == (up ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min())) { break; }
                    T w = T(up ? m[i] + 1 : m[i] - 1);
                    if (t.chance(1, 2)) { is<T>(up ? ++d[i] : --d[i], w, "pre-increment or decrement of " + txt(m[i])); }
                    else { is<T>(up ? d[i]++ : d[i]--, w, "post-increment or decrement (documented to return the new value) of " + txt(m[i])); }
                    m[i] = w;
                }
                else { CHECK(refused([&] { ++d[i]; }) && refused([&] { d[i]--; }), "++ or -- on a floating type is not refused"); }
                t.label("op:increment");
                break;
            default: break;
        }
        for (int x = 0; x < 3; ++x) { is<T>(d[x], m[x], "data " + std::to_string(x) + " after " + what); }
        is<T>(st["x"], ms, "the member");
        is<T>(sq[1], mq, "the element");
    }
    if (done >= 2) { t.nontrivial(); }
}

// Operands of other types are refused and nothing changes.
static void wrong(Tape& t)
{
    Cfg cfg;
    cfg.pairs = true;
    TyP a = Gen(t, cfg).type(int(t.index(3))), b = t.chance(1, 3) ? a : Gen(t, cfg).type(int(t.index(3)));
    Val va = VGen(t).val(*a), vb = VGen(t).val(*b);
    NOTE(t, show(*a) << " " << enc(*a, va) << " with " << show(*b) << " " << enc(*b, vb));
    xt::DynamicData da = make(*a, va), db = make(*b, vb);
    auto numeric = [](const Ty& x) { K k = x.r().k; return k >= K::I8 && k <= K::F128; };
    if (numeric(*a) && a->r().k == b->r().k) { return; }
    // (the value of an enumeration can be read as an integer of its width)
    if (numeric(*a) && !is_float(a->r().k) && b->r().k == K::Enum && b->r().ebytes == prim_size(a->r().k)) { return; }
    int op = int(t.index(OpCount));
    CHECK(refused([&] { binary(op, da, db); }), opname[op] << " is not refused");
    CHECK(refused([&] { compound(op, da, db); }), opname[op] << "= is not refused");
    if (!numeric(*a))
    {
        CHECK(refused([&] { -da; }) && refused([&] { ~da; }) && refused([&] { ++da; }) && refused([&] { da++; }) && refused([&] { --da; }) && refused([&] { da--; }), "an unary operator is not refused");
        t.label("wrong:left");
    }
    K n = Gen(t).prim_kind();
    if (!numeric(*a) || n != a->r().k)
    {
        // a native right side of another type
        bool r = with_prim(n, [&](auto z) { using T = decltype(z); return refused([&] { compound_native<T>(std::is_floating_point<T>::value ? int(Add) : op, da, T(1)); }); });
        // (enumerations give their value as an integer of their width, and refuse the result if it isn't one of theirs)
        if (a->r().k != K::Enum) { CHECK(r, opname[op] << "= with a native " << kname(n) << " is not refused"); }
        else if (!r) { return; }
    }
    expect(da, *a, va, "the left side");
    expect(db, *b, vb, "the right side");
    t.label("wrong:refused");
}

static void body(Tape& t)
{
    if (t.chance(1, 8)) { wrong(t); return; }
    static const std::vector<K> ks = {K::I32, K::I8, K::U8, K::I16, K::U16, K::U32, K::I64, K::U64, K::F32, K::F64, K::F128};
    K k = t.pick(ks);
    with_prim(k, [&](auto z)
            {
                using T = decltype(z);
                if constexpr (!std::is_same<T, bool>::value && !std::is_same<T, char>::value && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value) { numeric<T>(t, k); }
            });
}

static void narrow()
{
    xt::DynamicData a(xt::primitive_type<uint8_t>()), b(xt::primitive_type<uint8_t>());
    a = uint8_t(200); b = uint8_t(100);
    is<uint8_t>(a + b, uint8_t(300), "200 + 100 in 8 bits");
    is<uint8_t>(a * b, uint8_t(20000), "200 * 100 in 8 bits");
    a += b;
    is<uint8_t>(a, uint8_t(300), "200 += 100 in 8 bits");
    a += a;
    is<uint8_t>(a, uint8_t(88), "with itself");
}

static void enumeration_as_float()
{
    TyP e = enm("E", 4, {{"A", 0}, {"B", 5}});
    xt::DynamicData d(e->x()), f(xt::primitive_type<float>());
    f = 1.0f;
    CHECK(refused([&] { f + d; }), "a floating point number plus an enumeration is not refused");
    CHECK(refused([&] { d.value<float>(1.0f); }), "writing a floating point number in an enumeration is not refused");
    d = uint32_t(5);
    CHECK(d.value<uint32_t>() == 5 && refused([&] { d.value<float>(); }), "reading an enumeration as a floating point number is not refused");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P12";
    p.rule = "case: a numeric type, three data of it, a member and an element, and up to 12 binary, compound, native-compound, nested and unary operations, each compared with C++ on native values (operations "
        "that C++ leaves undefined are not made), and all operands compared after each; or operands of types without the operator, which must be refused. Non-trivial: at least two operations computed.";
    p.body = body;
    p.quick_cases = 600000;
    p.thorough_cases = 8000000;
    p.regressions = {{"R-narrow", "results are truncated to the type", narrow},
        {"R-enum-float", "enumerations are no floating point numbers", enumeration_as_float}};
    return pbt::run_main(argc, argv, p);
}
