// P17: a type tells what it is made of, and keeps it whatever happens later to the types it was made from.
#include "model.hpp"
#include "big.hpp"
using namespace model;

// What a type is: a value, copied freely.
struct D
{
    K k = K::I32;
    std::string name;              // of the types that have a name of their own
    uint64_t bound = 0;
    unsigned ebytes = 4;
    std::vector<D> in;             // content, alias target, (key, value), (discriminator, cases...), members
    std::vector<Mem> mem;          // names, labels, default (the types are in `in`)
    std::vector<std::pair<std::string, uint64_t>> en;
    bool parent = false;
    std::string parent_name;
};

static D leaf(K k, uint64_t bound = 0) { D d; d.k = k; d.bound = bound; return d; }

static TyP build(const D& d)
{
    switch (d.k)
    {
        case K::Str: case K::WStr: case K::Str16: return str(d.k, uint32_t(d.bound), false);
        case K::Enum: return enm(d.name, d.ebytes, d.en, false);
        case K::Array: return arr(build(d.in[0]), uint32_t(d.bound), false);
        case K::Seq: return seq(build(d.in[0]), uint32_t(d.bound), false);
        case K::Map: return mp(build(d.in[0]), build(d.in[1]), uint32_t(d.bound), false);
        case K::Pair: return pr(build(d.in[0]), build(d.in[1]), false);
        case K::Alias: return alias(build(d.in[0]), d.name, false);
        case K::Struct:
        {
            std::vector<Mem> own = d.mem;
            for (size_t i = 0; i < own.size(); ++i) { own[i].ty = build(d.in[i]); }
            return strct(d.name, own, nullptr, false);
        }
        case K::Union:
        {
            std::vector<Mem> own = d.mem;
            for (size_t i = 0; i < own.size(); ++i) { own[i].ty = build(d.in[i + 1]); }
            return unio(d.name, build(d.in[0]), own, false);
        }
        default: return prim(d.k);
    }
}

static const D& resolved(const D& d) { return d.k == K::Alias ? resolved(d.in[0]) : d; }

static bool hashable(const D& d)
{
    const D& r = resolved(d);
    return r.k < K::Array && !is_float(r.k);
}

static size_t weight(const D& d)
{
    size_t n = 1;
    for (auto& x : d.in) { n += weight(x) * (d.k == K::Array ? std::max<size_t>(1, d.bound) : 1); }
    return n;
}

static void verify(const xt::DynamicType& x, const D& d, const std::string& path)
{
    auto kind = [&](xt::TypeKind k) { CHECK(x.kind() == k, path << ": another kind of type: " << x.name()); };
    auto named = [&] { CHECK(x.name() == d.name, path << ": its name is " << x.name() << ", should be " << d.name); };
    bool coll = is_string(d.k) || d.k == K::Array || d.k == K::Seq || d.k == K::Map, aggr = d.k == K::Struct || d.k == K::Union;
    CHECK(x.is_collection_type() == coll && x.is_aggregation_type() == aggr && x.is_primitive_type() == is_prim(d.k) && x.is_enumerated_type() == (d.k == K::Enum) && x.is_constructed_type() == !is_prim(d.k),
        path << ": classes of " << x.name());
    auto content = [&](const xt::CollectionType& c) -> const xt::DynamicType& { return c.content_type(); };
    if (is_prim(d.k))
    {
        with_prim(d.k, [&](auto z)
                {
                    using T = decltype(z);
                    CHECK(x.kind() == xt::primitive_type<T>().kind() && x.memory_size() == sizeof(T), path << ": is " << x.name() << ", should be " << kname(d.k));
                });
        return;
    }
    switch (d.k)
    {
        case K::Str: case K::WStr: case K::Str16:
            kind(d.k == K::Str ? xt::TypeKind::STRING_TYPE : d.k == K::WStr ? xt::TypeKind::WSTRING_TYPE : xt::TypeKind::STRING16_TYPE);
            CHECK(static_cast<const xt::MutableCollectionType&>(x).bounds() == int(d.bound), path << ": bound of a string");
            verify(content(static_cast<const xt::CollectionType&>(x)), leaf(d.k == K::Str ? K::C8 : d.k == K::WStr ? K::WC : K::C16), path + "/char");
            break;
        case K::Enum:
            kind(xt::TypeKind::ENUMERATION_TYPE);
            named();
            with_enum(d.ebytes, [&](auto z)
                    {
                        using T = decltype(z);
                        auto& e = static_cast<const xt::EnumerationType<T>&>(x);
                        CHECK(x.memory_size() == sizeof(T) && e.enumerators().size() == d.en.size(), path << ": has " << e.enumerators().size() << " enumerators of " << d.en.size());
                        for (auto& p : d.en) { CHECK(e.has_enumerator(p.first) && e.value(p.first) == T(p.second) && e.enumerator(T(p.second)) == p.first, path << ": enumerator " << p.first); }
                    });
            break;
        case K::Array:
            kind(xt::TypeKind::ARRAY_TYPE);
            CHECK(static_cast<const xt::ArrayType&>(x).dimension() == d.bound, path << ": dimension " << static_cast<const xt::ArrayType&>(x).dimension() << ", should be " << d.bound);
            verify(content(static_cast<const xt::CollectionType&>(x)), d.in[0], path + "/element");
            CHECK(x.memory_size() == d.bound * static_cast<const xt::CollectionType&>(x).content_type().memory_size(), path << ": size of an array");
            break;
        case K::Seq:
            kind(xt::TypeKind::SEQUENCE_TYPE);
            CHECK(static_cast<const xt::SequenceType&>(x).bounds() == int(d.bound), path << ": bound " << static_cast<const xt::SequenceType&>(x).bounds() << ", should be " << d.bound);
            verify(content(static_cast<const xt::CollectionType&>(x)), d.in[0], path + "/element");
            break;
        case K::Map:
        {
            kind(xt::TypeKind::MAP_TYPE);
            CHECK(static_cast<const xt::MapType&>(x).bounds() == int(d.bound), path << ": bound " << static_cast<const xt::MapType&>(x).bounds() << ", should be " << d.bound);
            const xt::DynamicType& c = content(static_cast<const xt::CollectionType&>(x));
            CHECK(c.kind() == xt::TypeKind::PAIR_TYPE, path << ": content of a map");
            verify(static_cast<const xt::PairType&>(c).first(), d.in[0], path + "/key");
            verify(static_cast<const xt::PairType&>(c).second(), d.in[1], path + "/value");
            break;
        }
        case K::Pair:
            kind(xt::TypeKind::PAIR_TYPE);
            verify(static_cast<const xt::PairType&>(x).first(), d.in[0], path + "/first");
            verify(static_cast<const xt::PairType&>(x).second(), d.in[1], path + "/second");
            break;
        case K::Alias:
        {
            kind(xt::TypeKind::ALIAS_TYPE);
            named();
            auto& a = static_cast<const xt::AliasType&>(x);
            verify(a.get(), d.in[0], path + "/alias");
            verify(a.rget(), resolved(d), path + "/resolved");
            CHECK(x.memory_size() == a.rget().memory_size(), path << ": size of an alias");
            break;
        }
        case K::Struct:
        {
            kind(xt::TypeKind::STRUCTURE_TYPE);
            named();
            auto& s = static_cast<const xt::StructType&>(x);
            CHECK(s.members().size() == d.mem.size(), path << ": has " << s.members().size() << " members of " << d.mem.size());
            for (size_t i = 0; i < d.mem.size(); ++i)
            {
                CHECK(s.member(i).name() == d.mem[i].name && s.has_member(d.mem[i].name), path << ": member " << i << " is " << s.member(i).name());
                verify(s.member(i).type(), d.in[i], path + "/" + d.mem[i].name);
            }
            CHECK(s.has_parent() == d.parent, path << ": parent");
            if (d.parent) { CHECK(s.parent().name() == d.parent_name, path << ": its parent is " << s.parent().name()); }
            break;
        }
        case K::Union:
        {
            kind(xt::TypeKind::UNION_TYPE);
            named();
            auto& u = static_cast<const xt::UnionType&>(x);
            verify(u.discriminator(), d.in[0], path + "/discriminator");
            std::vector<std::string> cases = u.get_case_members();
            CHECK(cases.size() == d.mem.size(), path << ": has " << cases.size() << " cases of " << d.mem.size());
            std::string def;
            TyP disc = build(d.in[0]);
            for (size_t i = 0; i < d.mem.size(); ++i)
            {
                const Mem& m = d.mem[i];
                CHECK(cases[i] == m.name && u.has_member(m.name), path << ": case " << i << " is " << cases[i]);
                verify(u.member(m.name).type(), d.in[i + 1], path + "/" + m.name);
                std::set<uint64_t> want, got;
                for (int64_t l : m.labels) { want.insert(mask_label(*disc, uint64_t(l))); }
                for (int64_t l : u.get_labels(m.name)) { got.insert(mask_label(*disc, uint64_t(l))); }
                CHECK(want == got, path << ": labels of " << m.name);
                CHECK(u.is_default(m.name) == m.dflt, path << ": is_default(" << m.name << ")");
                if (m.dflt) { def = m.name; }
            }
            CHECK(u.get_default() == def, path << ": its default is " << u.get_default());
            break;
        }
        default: break;
    }
}

struct Live { std::shared_ptr<xt::DynamicType> x; D d; };
struct Held { xt::DynamicType::Ptr p; D d; };
struct Data { xt::DynamicData d; TyP ty; Val v; D t; };

// an object of its own: not owned by a shared_ptr, if it is not `shared`
template<class T, class... A> static std::shared_ptr<xt::DynamicType> obj(bool shared, A&&... a)
{
    if (shared) { return std::make_shared<T>(std::forward<A>(a)...); }
    auto own = std::make_shared<std::unique_ptr<T>>(new T(std::forward<A>(a)...));
    return std::shared_ptr<xt::DynamicType>(std::shared_ptr<void>(own), own->get());
}

static std::shared_ptr<xt::DynamicType> copy_of(bool shared, const xt::DynamicType& x, const D& d)
{
    switch (d.k)
    {
        case K::Str: return obj<xt::StringType>(shared, static_cast<const xt::StringType&>(x));
        case K::WStr: return obj<xt::WStringType>(shared, static_cast<const xt::WStringType&>(x));
        case K::Str16: return obj<xt::String16Type>(shared, static_cast<const xt::String16Type&>(x));
        case K::Enum: return std::const_pointer_cast<xt::DynamicType>(xt::DynamicType::Ptr(x).free());   // enumerations have no copy constructor
        case K::Array: return obj<xt::ArrayType>(shared, static_cast<const xt::ArrayType&>(x));
        case K::Seq: return obj<xt::SequenceType>(shared, static_cast<const xt::SequenceType&>(x));
        case K::Map: return obj<xt::MapType>(shared, static_cast<const xt::MapType&>(x));
        case K::Pair: return obj<xt::PairType>(shared, static_cast<const xt::PairType&>(x));
        case K::Alias: return obj<xt::AliasType>(shared, static_cast<const xt::AliasType&>(x));
        case K::Struct: return obj<xt::StructType>(shared, static_cast<const xt::StructType&>(x));
        default: return obj<xt::UnionType>(shared, static_cast<const xt::UnionType&>(x));
    }
}

static void body(Tape& t)
{
    if (t.chance(1, 1500)) { big::types(t); return; }
    std::vector<Live> pool;
    std::vector<Held> held;
    std::vector<Data> data;
    int names = 0;
    size_t changes = 0, composed = 0;
    size_t ops = 3 + t.index(14);
    static const std::vector<K> prims = {K::I32, K::Bool, K::U8, K::I8, K::I16, K::U16, K::U32, K::I64, K::U64, K::C8, K::C16, K::WC, K::F32, K::F64, K::F128};
    auto fresh = [&](const char* p) { return p + std::to_string(names++); };
    for (size_t op = 0; op < ops; ++op)
    {
        bool shared = t.chance(1, 4);
        // a part: something of the pool, or a primitive
        auto part = [&](D& d) -> const xt::DynamicType&
        {
            if (pool.empty() || t.chance(1, 4)) { K k = prims[t.index(prims.size())]; d = leaf(k); return with_prim(k, [](auto z) -> const xt::DynamicType& { return xt::primitive_type<decltype(z)>(); }); }
            Live& l = pool[t.index(pool.size())];
            if (weight(l.d) > 40) { d = leaf(K::I32); return xt::primitive_type<int32_t>(); }
            d = l.d;
            return *l.x;
        };
        size_t what = pool.size() >= 6 ? 3 + t.index(5) : t.weighted({3, 6, 1, 4, 2, 2, 2, 1});
        switch (what)
        {
            case 0:
            {
                Live l;
                switch (t.index(4))
                {
                    case 0:
                        l.d = leaf(t.chance(1, 3) ? t.chance(1, 2) ? K::WStr : K::Str16 : K::Str, t.chance(1, 2) ? t.below(t.chance(1, 10) ? uint64_t(INT32_MAX) : 20) : 0);
                        if (l.d.k == K::Str) { l.x = obj<xt::StringType>(shared, int(l.d.bound)); }
                        else if (l.d.k == K::WStr) { l.x = obj<xt::WStringType>(shared, int(l.d.bound)); }
                        else { l.x = obj<xt::String16Type>(shared, int(l.d.bound)); }
                        break;
                    case 1:
                    {
                        static const unsigned bytes[] = {4, 1, 2};
                        l.d.k = K::Enum; l.d.name = fresh("E"); l.d.ebytes = bytes[t.index(3)];
                        l.d.en = {{l.d.name + "_0", t.below(3)}};
                        l.x = with_enum(l.d.ebytes, [&](auto z)
                                {
                                    using T = decltype(z);
                                    auto p = obj<xt::EnumerationType<T>>(shared, l.d.name);
                                    static_cast<xt::EnumerationType<T>&>(*p).add_enumerator(l.d.en[0].first, T(l.d.en[0].second));
                                    return p;
                                });
                        break;
                    }
                    case 2: l.d.k = K::Struct; l.d.name = fresh("S"); l.x = obj<xt::StructType>(shared, l.d.name); break;
                    default:
                    {
                        static const std::vector<K> ds = {K::I32, K::U8, K::I16, K::U64, K::C8, K::WC};
                        l.d.k = K::Union; l.d.name = fresh("U");
                        l.d.in = {leaf(ds[t.index(ds.size())])};
                        l.x = with_prim(l.d.in[0].k, [&](auto z) { return obj<xt::UnionType>(shared, l.d.name, xt::primitive_type<decltype(z)>()); });
                    }
                }
                NOTE(t, "new " << show(*build(l.d)));
                pool.push_back(l);
                break;
            }
            case 1:
            {
                Live l;
                D a, b;
                const xt::DynamicType& p = part(a);
                switch (t.index(8))
                {
                    case 0: l.d = leaf(K::Array, 1 + t.below(3)); l.d.in = {a}; l.x = obj<xt::ArrayType>(shared, p, uint32_t(l.d.bound)); break;
                    case 1:
                    {
                        uint32_t m = uint32_t(1 + t.below(3)), n = uint32_t(1 + t.below(3));
                        D inner = leaf(K::Array, n);
                        inner.in = {a};
                        l.d = leaf(K::Array, m);
                        l.d.in = {inner};
                        l.x = obj<xt::ArrayType>(shared, p, std::vector<uint32_t>{m, n});
                        break;
                    }
                    case 2: l.d = leaf(K::Seq, t.chance(1, 2) ? t.below(9) : 0); l.d.in = {a}; l.x = obj<xt::SequenceType>(shared, p, uint32_t(l.d.bound)); break;
                    case 3: case 4:
                    {
                        bool map = t.chance(1, 2);
                        const xt::DynamicType& q = part(b);
                        if (map && !hashable(a)) { map = false; }
                        l.d = leaf(map ? K::Map : K::Pair, map && t.chance(1, 2) ? t.below(9) : 0);
                        l.d.in = {a, b};
                        if (map) { l.x = obj<xt::MapType>(shared, p, q, uint32_t(l.d.bound)); } else { l.x = obj<xt::PairType>(shared, p, q); }
                        break;
                    }
                    case 5:
                        l.d.k = K::Alias; l.d.name = fresh("A"); l.d.in = {a};
                        l.x = obj<xt::AliasType>(shared, p, l.d.name);
                        break;
                    case 6:
                        if (a.k == K::Struct)
                        {
                            l.d = a; l.d.name = fresh("C"); l.d.parent = true; l.d.parent_name = a.name;
                            l.x = obj<xt::StructType>(shared, l.d.name, static_cast<const xt::StructType*>(&p));
                            break;
                        }
                        // fall through
                    default:
                        l.d.k = K::Struct; l.d.name = fresh("S"); l.d.mem = {Mem{"a", nullptr, {}, false}}; l.d.in = {a};
                        l.x = obj<xt::StructType>(shared, l.d.name);
                        static_cast<xt::StructType&>(*l.x).add_member("a", p);
                        break;
                }
                NOTE(t, "composed " << show(*build(l.d)));
                ++composed;
                pool.push_back(l);
                break;
            }
            case 2:
            {
                if (pool.empty()) { break; }
                Live& s = pool[t.index(pool.size())];
                NOTE(t, "copy of " << show(*build(s.d)));
                Live l;
                l.d = s.d;
                l.x = copy_of(shared, *s.x, s.d);
                pool.push_back(l);
                t.label("op:copy");
                break;
            }
            case 3: case 4:
            {
                // change a type
                if (pool.empty()) { break; }
                Live& l = pool[t.index(pool.size())];
                bool of_data = false;
                for (auto& x : data) { if (&x.d.type() == l.x.get()) { of_data = true; } }
                if (of_data) { break; }             // data shares the types owned by a shared_ptr
                D a;
                bool named = l.d.k == K::Enum || l.d.k == K::Struct || l.d.k == K::Union || l.d.k == K::Alias;
                if (named && t.chance(1, 3))
                {
                    std::string n = fresh("R");
                    NOTE(t, l.d.name << " is now " << n);
                    l.x->name(n);
                    l.d.name = n;
                    ++changes;
                }
                else if (l.d.k == K::Struct)
                {
                    const xt::DynamicType& p = part(a);
                    std::string n = fresh("m");
                    NOTE(t, l.d.name << " has a new member " << n << ": " << show(*build(a)));
                    static_cast<xt::StructType&>(*l.x).add_member(n, p);
                    l.d.mem.push_back(Mem{n, nullptr, {}, false});
                    l.d.in.push_back(a);
                    ++changes;
                }
                else if (l.d.k == K::Union)
                {
                    const xt::DynamicType& p = part(a);
                    std::string n = fresh("c");
                    int64_t label = int64_t(l.d.mem.size()) * 3 + int64_t(t.below(3));
                    bool dflt = t.chance(1, 4);
                    for (auto& m : l.d.mem) { if (m.dflt) { dflt = false; } }
                    if (label > 100) { break; }
                    NOTE(t, l.d.name << " has a new case " << n << " (" << label << (dflt ? ", default" : "") << "): " << show(*build(a)));
                    static_cast<xt::UnionType&>(*l.x).add_case_member<int64_t>({label}, n, p, dflt);
                    l.d.mem.push_back(Mem{n, nullptr, {label}, dflt});
                    l.d.in.push_back(a);
                    ++changes;
                }
                else if (l.d.k == K::Enum)
                {
                    std::string n = fresh("e");
                    uint64_t v = l.d.en.back().second + 1 + t.below(3);
                    NOTE(t, l.d.name << " has a new enumerator " << n << " = " << v);
                    with_enum(l.d.ebytes, [&](auto z) { using T = decltype(z); static_cast<xt::EnumerationType<T>&>(*l.x).add_enumerator(n, T(v)); });
                    l.d.en.push_back({n, v});
                    ++changes;
                }
                break;
            }
            case 5:
            {
                // pointers
                if (held.size() >= 4 || held.empty() || t.chance(1, 3))
                {
                    if (pool.empty()) { break; }
                    Live& l = pool[t.index(pool.size())];
                    NOTE(t, "pointer to " << show(*build(l.d)));
                    if (held.size() >= 4) { size_t i = t.index(held.size()); held[i].p = xt::DynamicType::Ptr(*l.x); held[i].d = l.d; }
                    else { held.push_back(Held{xt::DynamicType::Ptr(*l.x), l.d}); }
                    CHECK(held.back().p.get() != nullptr, "an empty pointer");
                }
                else
                {
                    size_t i = t.index(held.size()), j = t.index(held.size());
                    NOTE(t, "pointer " << i << " = pointer " << j);
                    switch (t.index(4))
                    {
                        case 0: held[i].p = held[j].p; held[i].d = held[j].d; CHECK((held[i].p == held[j].p) == (i == j || held[i].p.get() == held[j].p.get()), "pointers"); break;
                        case 1: { Held h = held[j]; held[i] = h; break; }
                        case 2: { Held h{held[j].p, held[j].d}; held[i] = std::move(h); break; }
                        default:
                        {
                            // freed, but still alive
                            xt::DynamicType::Ptr p(held[j].p);
                            std::shared_ptr<const xt::DynamicType> f = p.free();
                            CHECK(p.get() == nullptr && f, "free() returns nothing");
                            verify(*f, held[j].d, "freed");
                            break;
                        }
                    }
                    // change the type that a pointer holds
                    D& d = held[i].d;
                    if ((d.k == K::Enum || d.k == K::Struct || d.k == K::Union || d.k == K::Alias) && t.chance(1, 2))
                    {
                        std::string n = fresh("P");
                        NOTE(t, "pointed " << d.name << " is now " << n);
                        held[i].p->name(n);
                        d.name = n;
                        ++changes;
                    }
                }
                t.label("op:pointer");
                break;
            }
            case 6:
            {
                if (pool.empty()) { break; }
                size_t i = t.index(pool.size());
                NOTE(t, "destroyed " << show(*build(pool[i].d)));
                pool.erase(pool.begin() + i);
                ++changes;
                t.label("op:destroy");
                break;
            }
            default:
            {
                if (pool.empty() || data.size() >= 2) { break; }
                Live& l = pool[t.index(pool.size())];
                if (weight(l.d) > 60) { break; }
                NOTE(t, "data of " << show(*build(l.d)));
                TyP ty = build(l.d);
                Val v = VGen(t).val(*ty);
                xt::DynamicData d(*l.x);
                write(d.ref(), *ty, v);
                data.push_back(Data{d, ty, v, resolved(l.d)});       // (data resolves aliases)
                t.label("op:data");
            }
        }
        for (size_t i = 0; i < pool.size(); ++i) { verify(*pool[i].x, pool[i].d, "type " + std::to_string(i)); }
        for (size_t i = 0; i < held.size(); ++i) { verify(*held[i].p, held[i].d, "pointer " + std::to_string(i)); }
        for (size_t i = 0; i < data.size(); ++i)
        {
            verify(data[i].d.type(), data[i].t, "type of data " + std::to_string(i));
            expect(data[i].d, *data[i].ty, data[i].v, "data " + std::to_string(i));
        }
    }
    if (composed && changes) { t.nontrivial(); }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P17";
    p.rule = "case: a random history of making types from others of a pool, copying them, holding them by pointers, renaming and extending them, destroying them, and creating data; after each step everything that a type "
        "tells about itself and its parts must be that of its description, and the data must be as written. Non-trivial: a type was made from another and some type was changed or destroyed.";
    p.body = body;
    p.quick_cases = 300000;
    p.thorough_cases = 10000000;
    return pbt::run_main(argc, argv, p);
}
