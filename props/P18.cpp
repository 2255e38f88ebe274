// P18: an operation on data whose requirements aren't met is refused with an exception, and changes nothing.
#include "model.hpp"
using namespace model;
using RRef = xt::ReadableDynamicDataRef;
using WRef = xt::WritableDynamicDataRef;

template<class F> static bool refused(F&& f)
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}

// Something of a type that isn't compatible with `t` as it is.
static TyP other_type(Tape& t, const Ty& ty)
{
    static const std::vector<TyP> some = {prim(K::I32), prim(K::Bool), prim(K::F64), prim(K::U16), prim(K::I64), str(K::Str), str(K::WStr), str(K::Str16), seq(prim(K::U8)), arr(prim(K::U8), 3),
        mp(prim(K::U8), prim(K::U8)), strct("OtherA", {Mem{"x", prim(K::I32), {}, false}, Mem{"y", str(K::Str), {}, false}}), unio("OtherU", prim(K::I64), {Mem{"x", prim(K::I32), {5}, false}}),
        pr(prim(K::F64), prim(K::I8)), seq(str(K::Str), 3), str(K::Str, 77)};
    for (size_t i = 0, at = t.index(some.size()); i < some.size(); ++i, ++at)
    {
        const TyP& o = some[at % some.size()];
        if (o->x().is_compatible(ty.x()) != xt::TypeConsistency::EQUALS && ty.x().is_compatible(o->x()) != xt::TypeConsistency::EQUALS) { return o; }
    }
    return nullptr;
}

template<class T> static std::string tname() { return typeid(T).name(); }

// Whether values of T may be read or written as the leaf t.
template<class T> static bool takes(const Ty& t)
{
    const Ty& r = t.r();
    if (is_string(r.k)) { return with_str(r.k, [](auto z) { return std::is_same<decltype(z), T>::value; }); }
    if (r.k == K::Enum) { return std::is_integral<T>::value && sizeof(T) == r.ebytes; }
    if (is_prim(r.k)) { return with_prim(r.k, [](auto z) { return std::is_same<decltype(z), T>::value; }); }
    return false;
}

template<class F> static void with_any(Tape& t, F&& f)
{
    size_t i = t.index(18);
    if (i < 15) { with_prim(K(i), f); } else { with_str(i == 15 ? K::Str : i == 16 ? K::WStr : K::Str16, f); }
}

struct Walk { WRef w; const Ty* ty; Val* v; std::string path; };

// A random node; the path goes through writable accesses that change nothing.
static void with_node(Tape& t, WRef w, const Ty& ty, Val& v, const std::string& path, const std::function<void(WRef, const Ty&, Val&, const std::string&)>& f)
{
    const Ty& r = ty.r();
    if (v.v.empty() || t.chance(1, 4)) { f(w, ty, v, path); return; }
    size_t i = t.index(v.v.size());
    switch (r.k)
    {
        case K::Array: case K::Seq: with_node(t, w[i], *r.c, v.v[i], join(path, std::to_string(i)), f); break;
        case K::Struct: with_node(t, w[r.mem[i].name], *r.mem[i].ty, v.v[i], join(path, r.mem[i].name), f); break;
        case K::Pair: with_node(t, w[i], i ? *r.c : *r.key, v.v[i], join(path, i ? "second" : "first"), f); break;
        case K::Map:
        {
            xt::DynamicData k = make(*r.key, v.v[i].v[0]);
            with_node(t, w.at(k), *r.c, v.v[i].v[1], join(path, "[" + enc(*r.key, v.v[i].v[0]) + "]"), f);
            break;
        }
        case K::Union: with_node(t, w[r.mem[v.sel].name], *r.mem[v.sel].ty, v.v[0], join(path, r.mem[v.sel].name), f); break;
        default: f(w, ty, v, path);
    }
}

// One operation that must be refused; returns what it was, or nothing if none was found.
static std::string wrong(Tape& t, WRef w, const Ty& ty, const Val& v, bool& no)
{
    const Ty& x = ty.r();
    RRef r = w.cref();
    std::string what;
    bool listing = x.k == K::Array || x.k == K::Seq || is_string(x.k);
    switch (t.index(16))
    {
        case 0:
            with_any(t, [&](auto z)
                    {
                        using T = decltype(z);
                        if (takes<T>(x)) { return; }
                        what = "value<" + tname<T>() + ">()";
                        no = t.chance(1, 2) ? refused([&] { (void)r.template value<T>(); }) : refused([&] { T q = r; (void)q; });
                    });
            break;
        case 1:
            with_any(t, [&](auto z)
                    {
                        using T = decltype(z);
                        if (takes<T>(x)) { return; }
                        what = "write of a " + tname<T>();
                        no = t.chance(1, 2) ? refused([&] { w.template value<T>(z); }) : refused([&] { w = z; });
                    });
            break;
        case 2:
        {
            TyP o = other_type(t, ty);
            if (!o) { break; }
            what = "assignment of a " + show(*o);
            xt::DynamicData d = make(*o, VGen(t).val(*o));
            no = refused([&] { w = d.ref(); });
            break;
        }
        case 3:
        {
            what = "wrong member";
            if (x.k == K::Struct || x.k == K::Union) { no = refused([&] { r["no such member"]; }) && refused([&] { w["no such member"]; }) && refused([&] { w.get_member("no such member"); }); }
            else { no = refused([&] { r["first"]; }) && refused([&] { w["m0"]; }) && refused([&] { w[std::string("second")]; }); }
            break;
        }
        case 4:
        {
            uint64_t n = listing ? (is_string(x.k) ? v.s.size() : v.v.size()) : x.k == K::Struct ? x.mem.size() : x.k == K::Pair ? 2 : 0;
            static const uint64_t beyond[] = {0, 1, 2, 100, UINT32_MAX, uint64_t(1) << 40, UINT64_MAX / 2};
            uint64_t i = n + beyond[t.index(7)];
            what = "index " + std::to_string(i);
            no = refused([&] { r[i]; }) && refused([&] { w[i]; }) && refused([&] { w[-1]; });
            break;
        }
        case 5:
            if (x.k == K::Seq && !x.bound) { break; }
            if (x.k == K::Seq)
            {
                if (v.v.size() < x.bound) { break; }
                what = "push in a full sequence";
                xt::DynamicData d(x.c->x());
                no = refused([&] { w.push(d); });
                const Ty& c = x.c->r();
                if (no && is_prim(c.k)) { no = with_prim(c.k, [&](auto z) { return refused([&] { w.push(z); }); }); }
                if (no && is_string(c.k)) { no = with_str(c.k, [&](auto z) { return refused([&] { w.push(z); }); }); }
                break;
            }
            what = "push";
            {
                xt::DynamicData d(xt::primitive_type<uint8_t>());
                no = refused([&] { w.push(d); }) && refused([&] { w.push(uint8_t(3)); }) && refused([&] { w.push(std::string("x")); });
            }
            break;
        case 6:
            if (x.k != K::Seq) { break; }
            if (t.chance(1, 2))
            {
                TyP o = other_type(t, *x.c);
                if (!o) { break; }
                what = "push of a " + show(*o);
                xt::DynamicData d = make(*o, VGen(t).val(*o));
                no = refused([&] { w.push(d); });
            }
            else
            {
                with_any(t, [&](auto z)
                        {
                            using T = decltype(z);
                            if (takes<T>(*x.c)) { return; }
                            what = "push of a " + tname<T>();
                            no = refused([&] { w.push(z); });
                        });
            }
            break;
        case 7:
            if (x.k == K::Seq && !x.bound) { break; }
            what = "resize";
            if (x.k == K::Seq) { no = refused([&] { w.resize(x.bound + 1); }) && refused([&] { w.resize(size_t(x.bound) + 1000); }); }
            else { no = refused([&] { w.resize(0); }) && refused([&] { w.resize(3); }); }
            break;
        case 8:
            if (x.k == K::Union)
            {
                // a case that isn't selected cannot be read
                if (x.mem.size() < 2) { break; }
                size_t i = t.index(x.mem.size());
                if (int(i) == v.sel) { break; }
                what = "read of case " + x.mem[i].name;
                no = refused([&] { r[x.mem[i].name]; }) && refused([&] { w.get_member(x.mem[i].name); });
                break;
            }
            what = "discriminator";
            no = refused([&] { r.d(); }) && refused([&] { w.d(int64_t(1)); }) && refused([&] { r.current_case(); }) && refused([&] { w.d(r); });
            break;
        case 9:
        {
            xt::DynamicData k(xt::primitive_type<uint8_t>());
            if (x.k == K::Map) { break; }
            what = "access by key";
            no = refused([&] { r.at(k); }) && refused([&] { w.at(k); }) && refused([&] { w[k]; }) && refused([&] { w.has_key(k); }) && refused([&] { w.insert(k); });
            break;
        }
        case 10:
        {
            if (x.k != K::Map) { break; }
            TyP o = other_type(t, *x.key);
            if (!o) { break; }
            what = "key of type " + show(*o);
            xt::DynamicData k = make(*o, VGen(t).val(*o));
            no = refused([&] { r.at(k); }) && refused([&] { w.at(k); }) && refused([&] { w[k]; }) && refused([&] { w.has_key(k); });
            break;
        }
        case 11:
        {
            if (x.k != K::Map) { break; }
            Val kv = VGen(t).val(*x.key);
            bool full = x.bound && v.v.size() >= x.bound;
            for (auto& e : v.v) { if (enc(*x.key, e.v[0]) == enc(*x.key, kv)) { return what; } }
            what = "absent key " + enc(*x.key, kv);
            xt::DynamicData k = make(*x.key, kv);
            CHECK(!w.has_key(k), "a key that is absent is found");
            no = refused([&] { r.at(k); }) && refused([&] { w.at(k); });
            if (no && full)
            {
                what += " in a full map";
                no = refused([&] { w[k]; });
                t.label("wrong:full-map");
            }
            break;
        }
        case 12:
        {
            if (x.k != K::Map) { break; }
            TyP pair = pr(x.key, x.c);
            TyP o = other_type(t, *pair);
            if (!o) { break; }
            what = "insertion of a " + show(*o);
            xt::DynamicData d = make(*o, VGen(t).val(*o));
            no = refused([&] { w.insert(d); });
            break;
        }
        case 13:
            with_any(t, [&](auto z)
                    {
                        using T = decltype(z);
                        if (is_string(x.k)) { if (std::is_same<T, char>::value || std::is_same<T, wchar_t>::value || std::is_same<T, char16_t>::value) { return; } }
                        if ((x.k == K::Array || x.k == K::Seq) && takes<T>(*x.c) && x.c->r().k != K::Enum) { return; }
                        if constexpr (!std::is_same<T, bool>::value)
                        {
                            what = "vector of " + tname<T>();
                            no = refused([&] { r.template as_vector<T>(); });
                        }
                    });
            break;
        case 14:
            what = "iteration";
            if (x.k == K::Struct || x.k == K::Union) { no = refused([&] { r.begin(); }) && refused([&] { w.end(); }) && refused([&] { r.bounds(); }); }
            else if (listing || x.k == K::Map) { no = refused([&] { r.items(); }) && refused([&] { w.items(); }) && refused([&] { w.citems(); }); }
            else if (x.k == K::Pair) { no = refused([&] { r.begin(); }) && refused([&] { r.items(); }) && refused([&] { r.bounds(); }); }
            else { no = refused([&] { r.begin(); }) && refused([&] { w.items(); }) && refused([&] { r.size(); }) && refused([&] { r.bounds(); }); }
            break;
        default:
            if (x.k == K::Enum)
            {
                uint64_t n = t.chance(1, 2) ? t.below(60) : t.bits();
                with_enum(x.ebytes, [&](auto z)
                        {
                            using T = decltype(z);
                            for (auto& e : x.en) { if (T(e.second) == T(n)) { return; } }
                            what = "value " + std::to_string(T(n)) + " of an enumeration";
                            no = t.chance(1, 2) ? refused([&] { w.template value<T>(T(n)); }) : refused([&] { w = T(n); });
                        });
            }
            else if (x.k == K::Union && v.sel >= 0)
            {
                // labels of another case
                size_t i = t.index(x.mem.size());
                if (int(i) == v.sel || x.mem[i].labels.empty() || x.c->r().k == K::Bool) { break; }
                int64_t l = x.mem[i].labels[t.index(x.mem[i].labels.size())];
                what = "label " + std::to_string(l) + " of another case";
                no = refused([&] { w.d(l); });
            }
            break;
    }
    return what;
}

static void body(Tape& t)
{
    Cfg cfg;
    cfg.pairs = true;
    cfg.depth = int(1 + t.index(3));
    TyP ty = Gen(t, cfg).root(cfg.depth);
    NOTE(t, "type " << show(*ty));
    VCfg vc;
    vc.unselected = true;
    Val v = VGen(t, vc).val(*ty);
    NOTE(t, "value " << enc(*ty, v));
    xt::DynamicData d = make(*ty, v);
    size_t ops = 1 + t.index(8), done = 0, inner = 0;
    for (size_t op = 0; op < ops; ++op)
    {
        if (t.chance(1, 5))
        {
            std::string s = Mutator(t).step(d.ref(), *ty, v, "");
            NOTE(t, "valid: " << s);
            expect(d, *ty, v, "after a valid operation");
            continue;
        }
        with_node(t, d.ref(), *ty, v, "", [&](WRef w, const Ty& nt, Val& nv, const std::string& path)
                {
                    bool no = true;
                    std::string what = wrong(t, w, nt, nv, no);
                    if (what.empty()) { return; }
                    NOTE(t, "wrong: " << path << " (" << kname(nt.r().k) << "): " << what);
                    CHECK(no, path << ": not refused: " << what << " (" << show(nt) << ")");
                    ++done;
                    if (!path.empty()) { ++inner; }
                });
        expect(d, *ty, v, "after a refused operation");
    }
    if (done >= 2 && inner) { t.nontrivial(); }
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P18";
    p.rule = "case: a random type and value and a history of operations that must be refused (wrong value, member, index, key, case, discriminator, element, size or kind of access, in a random node), between some valid "
        "ones; each must throw an exception and the data must keep its value. Non-trivial: two refusals, one of them in an inner node.";
    p.body = body;
    p.quick_cases = 200000;
    p.thorough_cases = 4000000;
    p.leak_check = true;
    return pbt::run_main(argc, argv, p);
}
