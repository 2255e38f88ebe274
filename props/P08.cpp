// P08: enumerations: increasing values, names and values one to one, data holds only enumerators.
#include "model.hpp"
using namespace model;

static std::string attempt(const std::function<void()>& f)
{
    try { f(); return ""; }
    catch (const std::runtime_error& e) { return e.what(); }
}

template<class T>
static void compare(const xt::DynamicType& x, const std::vector<std::pair<std::string, uint64_t>>& en, const std::string& name, const std::string& what, Tape& t)
{
    CHECK(x.kind() == xt::TypeKind::ENUMERATION_TYPE, what << ": not an enumeration");
    CHECK(x.is_enumerated_type(), what);
    CHECK(x.name() == name, what << ": name is " << x.name());
    CHECK(x.memory_size() == sizeof(T), what << ": memory size " << x.memory_size());
    auto& e = static_cast<const xt::EnumerationType<T>&>(x);
    CHECK(e.enumerators().size() == en.size(), what << ": " << e.enumerators().size() << " enumerators instead of " << en.size());
    for (auto& p : en)
    {
        CHECK(e.has_enumerator(p.first), what << ": lost " << p.first);
        CHECK(uint64_t(e.value(p.first)) == p.second, what << ": value(" << p.first << ") is " << uint64_t(e.value(p.first)) << " instead of " << p.second);
        auto it = e.enumerators().find(p.first);
        CHECK(it != e.enumerators().end() && uint64_t(it->second) == p.second, what << ": enumerators()[" << p.first << "]");
        CHECK(e.is_allowed_value(T(p.second)), what << ": value " << p.second << " of " << p.first << " isn't allowed");
        CHECK(e.enumerator(T(p.second)) == p.first, what << ": enumerator(" << p.second << ") is '" << e.enumerator(T(p.second)) << "' instead of " << p.first);
    }
    // something that isn't there
    for (int i = 0; i < 3; ++i)
    {
        T v = T(t.chance(1, 2) && !en.empty() ? en[t.index(en.size())].second + t.range(-2, 2) : t.bits());
        bool in = false;
        for (auto& p : en) { in |= T(p.second) == v; }
        CHECK(e.is_allowed_value(v) == in, what << ": is_allowed_value(" << uint64_t(v) << ")");
        if (!in) { CHECK(e.enumerator(v).empty(), what << ": enumerator(" << uint64_t(v) << ") is " << e.enumerator(v)); }
    }
    CHECK(!e.has_enumerator("nothing"), what);
    CHECK(!attempt([&] { e.value("nothing"); }).empty(), what << ": value of an unknown enumerator");
}

// An addition (right or wrong) to an enumeration that holds en and whose next value is next.
template<class T>
static void addition(Tape& t, xt::EnumerationType<T>& e, std::vector<std::pair<std::string, uint64_t>>& en, uint64_t& next, size_t& refused)
{
    const uint64_t top = std::numeric_limits<T>::max();
    std::string nm = t.chance(1, 8) && !en.empty() ? en[t.index(en.size())].first : "e" + std::to_string(t.index(40));
    bool dup = false;
    for (auto& p : en) { dup |= p.first == nm; }
    if (t.chance(1, 2))
    {
        bool ok = !dup && next <= top;
        NOTE(t, "add " << nm << (ok ? "" : " (wrong)"));
        std::string err = attempt([&] { e.add_enumerator(nm); });
        CHECK(err.empty() == ok, "add_enumerator(" << nm << ") with next value " << next << ": " << (err.empty() ? "accepted" : err));
        if (ok) { en.push_back({nm, next}); ++next; } else { ++refused; }
    }
    else
    {
        uint64_t v;
        switch (t.weighted({4, 2, 1, 1}))
        {
            case 0: v = next + t.below(5); break;
            case 1: v = next > 3 ? next - 1 - t.below(3) : t.below(4); break;
            case 2: v = top - t.below(3); break;
            default: v = t.bits();
        }
        v &= top;
        bool ok = !dup && next <= top && v >= next;
        NOTE(t, "add " << nm << " = " << v << (ok ? "" : " (wrong)"));
        std::string err = attempt([&] { e.add_enumerator(nm, T(v)); });
        CHECK(err.empty() == ok, "add_enumerator(" << nm << ", " << v << ") with next value " << next << ": " << (err.empty() ? "accepted" : err));
        if (ok) { en.push_back({nm, v}); next = v + 1; } else { ++refused; }
    }
}

template<class T>
static void run(Tape& t)
{
    const uint64_t top = std::numeric_limits<T>::max();
    std::vector<std::pair<std::string, uint64_t>> en;
    uint64_t next = 0;      // the lowest value that can be added; top + 1: none
    bool shared = t.chance(1, 2);
    std::shared_ptr<xt::EnumerationType<T>> sp = std::make_shared<xt::EnumerationType<T>>("E");
    std::unique_ptr<xt::EnumerationType<T>> up(new xt::EnumerationType<T>("E"));
    xt::EnumerationType<T>& e = shared ? *sp : *up;
    size_t refused = 0;
    if (t.chance(1, 150))
    {
        // a long enumeration
        size_t many = 15 + t.index(sizeof(T) == 1 ? 235 : 1500);
        uint64_t step = sizeof(T) == 1 ? 1 : 1 + t.index(30);
        NOTE(t, many << " enumerators, one in " << step << " values");
        for (size_t i = 0; i < many; ++i)
        {
            std::string nm = "f" + std::to_string(i);
            next = step * i;
            if (step == 1 && i % 2) { e.add_enumerator(nm); } else { e.add_enumerator(nm, T(next)); }
            en.push_back({nm, next++});
        }
    }
    size_t n = 1 + t.index(14);
    for (size_t i = 0; i < n; ++i)
    {
        addition<T>(t, e, en, next, refused);
        compare<T>(e, en, "E", "type", t);
        if (t.chance(1, 6) && en.size() < 300)
        {
            // the types built from it keep it as it is now
            auto en2 = en;
            xt::AliasType al(e, "A");
            xt::StructType s("S");
            s.add_member("e", e);
            xt::SequenceType q(al, 3);
            compare<T>(s.member("e").type(), en, "E", "member", t);
            compare<T>(al.get(), en, "E", "aliased", t);
            compare<T>(al.rget(), en, "E", "aliased", t);
            compare<T>(static_cast<const xt::AliasType&>(q.content_type()).rget(), en, "E", "content", t);
            // and the clone of one can be extended on its own
            if (!shared)
            {
                if (next <= top)
                {
                    e.add_enumerator("only" + std::to_string(i));
                    en.push_back({"only" + std::to_string(i), next++});
                    compare<T>(s.member("e").type(), en2, "E", "member of an earlier copy", t);
                }
                compare<T>(e, en, "E", "type", t);
            }
            if (t.chance(1, 3))
            {
                // a copy goes on where the original was, and the original stays
                auto en3 = en2;
                uint64_t next3 = en3.empty() ? 0 : en3.back().second + 1;
                xt::DynamicType::Ptr p, p2;
                const xt::DynamicType* c = nullptr;
                switch (t.index(4))
                {
                    case 0: c = &s.member("e").type(); break;
                    case 1: c = &al.rget(); break;
                    case 2: p = xt::DynamicType::Ptr(s.member("e").type()); p2 = p; c = p2.get(); break;
                    default: p = xt::DynamicType::Ptr(al.get()); c = p.get();
                }
                auto& copy = const_cast<xt::EnumerationType<T>&>(static_cast<const xt::EnumerationType<T>&>(*c));
                for (size_t k = 1 + t.index(4); k > 0; --k)
                {
                    NOTE(t, "(of a copy:)");
                    addition<T>(t, copy, en3, next3, refused);
                    compare<T>(copy, en3, "E", "copy", t);
                }
                compare<T>(e, en, "E", "type", t);
            }
        }
    }
    if (en.empty()) { return; }

    // ---- data
    xt::StructType st("S");
    st.add_member("a", xt::primitive_type<uint8_t>());
    st.add_member("e", e);
    st.add_member("z", xt::primitive_type<uint8_t>());
    xt::ArrayType ar(e, 3);
    xt::DynamicData d(e), s(st), a(ar);
    s["a"] = uint8_t(0x5a);
    s["z"] = uint8_t(0xa5);
    uint64_t dv = 0, sv = 0, av[3] = {0, 0, 0};
    bool fresh = true;
    size_t ops = 1 + t.index(8), wrong = 0;
    for (size_t i = 0; i < ops; ++i)
    {
        uint64_t v = t.chance(2, 3) ? en[t.index(en.size())].second : t.chance(1, 2) ? (en[t.index(en.size())].second + t.range(-2, 2)) & top : t.bits() & top;
        bool in = false;
        for (auto& p : en) { in |= p.second == v; }
        wrong += !in;
        std::string err;
        size_t at = t.index(3), ix = t.index(3);
        xt::WritableDynamicDataRef w = at == 0 ? d.ref() : at == 1 ? s["e"] : a[ix];
        uint64_t& m = at == 0 ? dv : at == 1 ? sv : av[ix];
        switch (t.index(3))
        {
            case 0: err = attempt([&] { w.value<T>(T(v)); }); break;
            case 1: err = attempt([&] { w = T(v); }); break;
            default:
            {
                xt::DynamicData x(e);
                err = attempt([&] { x = T(v); });
                if (err.empty()) { w = x.ref(); }
            }
        }
        NOTE(t, "write " << v << " into " << (at == 0 ? "data" : at == 1 ? "member" : "element") << (in ? "" : " (wrong)"));
        CHECK(err.empty() == in, "write " << v << ": " << (err.empty() ? "accepted" : err));
        if (in) { m = v; fresh = false; }
        // other widths are refused
        if (sizeof(T) != 4) { CHECK(!attempt([&] { w.value<uint32_t>(uint32_t(en[0].second)); }).empty(), "a value of 32 bits was accepted"); }
        if (sizeof(T) != 2) { CHECK(!attempt([&] { w.value<uint16_t>(uint16_t(en[0].second)); }).empty(), "a value of 16 bits was accepted"); }
        if (sizeof(T) != 1) { CHECK(!attempt([&] { w.value<uint8_t>(uint8_t(en[0].second)); }).empty(), "a value of 8 bits was accepted"); }
        CHECK(!attempt([&] { w.value<uint64_t>(en[0].second); }).empty(), "a value of 64 bits was accepted");
        CHECK(d.value<T>() == T(dv), "data holds " << uint64_t(d.value<T>()) << " instead of " << dv);
        CHECK(s["e"].template value<T>() == T(sv), "member holds " << uint64_t(s["e"].template value<T>()) << " instead of " << sv);
        for (int j = 0; j < 3; ++j) { CHECK(a[j].template value<T>() == T(av[j]), "element holds " << uint64_t(a[j].template value<T>()) << " instead of " << av[j]); }
        CHECK(s["a"].template value<uint8_t>() == 0x5a && s["z"].template value<uint8_t>() == 0xa5, "a neighbour of the member was written");
        CHECK(w.template cast<uint64_t>() == m, "cast to uint64 is " << w.template cast<uint64_t>() << " instead of " << m);
        CHECK(w.template cast<int64_t>() == int64_t(m), "cast to int64 is " << w.template cast<int64_t>() << " instead of " << m);
        CHECK(w.template cast<uint8_t>() == uint8_t(m), "cast to uint8");
        CHECK(w.template cast<double>() == double(m), "cast to double");
        T conv = w;
        CHECK(conv == T(m), "read by conversion");
        // copies, and equality between values
        xt::DynamicData c(w.cref());
        CHECK(c.value<T>() == T(m), "copy");
        CHECK((d == s["e"]) == (dv == sv), "equality of " << dv << " and " << sv);
        if (dv == sv) { CHECK(d.hash() == s["e"].hash(), "hash of equal values"); }
    }
    // conversion to an enumeration of other width with the same enumerators, when they fit
    auto to = [&](auto z)
            {
                using O = decltype(z);
                xt::EnumerationType<O> o("O");
                for (auto& p : en) { if (p.second > std::numeric_limits<O>::max()) { return; } }
                for (auto& p : en) { o.add_enumerator(p.first, O(p.second)); }
                xt::DynamicData c(d, o);
                CHECK(uint64_t(c.value<O>()) == dv, "converted to " << sizeof(O) * 8 << " bits: " << uint64_t(c.value<O>()) << " instead of " << dv);
                xt::DynamicData back(c, e);
                CHECK(uint64_t(back.value<T>()) == dv, "converted back");
                t.label("converted");
            };
    to(uint8_t()); to(uint16_t()); to(uint32_t());
    (void)fresh;
    if (en.size() >= 2 && refused + wrong > 0) { t.nontrivial(); }
    if (en.back().second == top) { t.label("last value used"); }
}

static void body(Tape& t)
{
    switch (t.index(3))
    {
        case 0: NOTE(t, "32 bits"); run<uint32_t>(t); break;
        case 1: NOTE(t, "8 bits"); run<uint8_t>(t); break;
        default: NOTE(t, "16 bits"); run<uint16_t>(t);
    }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P08";
    p.rule = "case: an enumeration of 8, 16 or 32 bits built by 1-14 additions (now and then, after up to 1500 other ones; with and without value, repeated names, values too low, up to the last one), used in an alias, structure, sequence and "
        "array; then 1-8 writes of right and wrong values into data, a member and an element, and conversions among widths. Non-trivial: two or more enumerators and something refused.";
    p.body = body;
    p.quick_cases = 250000;
    p.thorough_cases = 10000000;
    p.known.push_back({"KF-assigned-from-data", "values that aren't enumerators are accepted from data of other type of the same width", []
            {
                xt::EnumerationType<uint32_t> e("E"), o("O");
                e.add_enumerator("a", 3);
                o.add_enumerator("b", 8);
                xt::DynamicData d(e), u(xt::primitive_type<uint32_t>()), x(o);
                d = uint32_t(3);
                u = uint32_t(7);
                x = uint32_t(8);
                CHECK(!attempt([&] { d = u; }).empty(), "an enumeration takes 7, which isn't one of its enumerators, from an uint32_t data");
                CHECK(!attempt([&] { d = x; }).empty(), "an enumeration takes 8, which isn't one of its enumerators, from data of other enumeration");
                CHECK(d.value<uint32_t>() == 3, "");
            }});
    p.regressions.push_back({"R-last-value", "no enumerator can be added after the last value of the type", []
            {
                xt::EnumerationType<uint8_t> e("E");
                e.add_enumerator("a", 255);
                CHECK(!attempt([&] { e.add_enumerator("b"); }).empty(), "added after 255");
                CHECK(e.enumerators().size() == 1, "");
            }});
    p.regressions.push_back({"R-clone", "an enumeration used in other type is still an enumeration", []
            {
                xt::EnumerationType<uint32_t> e("E");
                e.add_enumerator("a", 3);
                xt::StructType s("S");
                s.add_member("e", e);
                auto* c = dynamic_cast<const xt::EnumerationType<uint32_t>*>(&s.member("e").type());
                CHECK(c != nullptr, "the clone isn't an EnumerationType");
                const_cast<xt::EnumerationType<uint32_t>*>(c)->add_enumerator("b");
                CHECK(c->value("b") == 4, "next value of the clone");
            }});
    return pbt::run_main(argc, argv, p);
}
