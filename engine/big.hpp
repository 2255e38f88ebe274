// Data of hundreds of kilobytes: one big array or sequence among small members. Its model is sparse: what was written, by its
// path, and default values elsewhere.
#ifndef VERIF_BIG_HPP
#define VERIF_BIG_HPP
#include "model.hpp"
#include <functional>
#include <map>

namespace big {
using namespace model;

typedef std::vector<size_t> Path;

struct Big
{
    Tape& t;
    TyP ty;
    std::map<Path, std::pair<TyP, Val>> written;

    explicit Big(Tape& tape) : t(tape)
    {
        Cfg cfg;
        cfg.pairs = false;
        cfg.depth = 1;
        Gen g(t, cfg);
        static const uint32_t edges[] = {256, 32768, 65536, 65536, 131072};
        uint32_t n = t.chance(1, 3) ? uint32_t(300 + t.below(100000)) : edges[t.index(5)] - 4 + uint32_t(t.below(16));
        TyP leaf = prim(g.prim_kind());
        switch (t.weighted({4, 2, 1, 1, 2}))
        {
            case 0: ty = arr(leaf, n); break;
            case 1: { uint32_t k = uint32_t(1 + t.below(300)); ty = arr(arr(leaf, n / k + 1), k); break; }
            case 2: { uint32_t k = uint32_t(1 + t.below(3)); ty = arr(arr(leaf, k), n / k + 1); break; }
            case 3: ty = arr(strct("E", {Mem{"a", leaf, {}, false}, Mem{"b", prim(g.prim_kind()), {}, false}}), n / 3 + 1); break;
            default: ty = seq(leaf, t.chance(1, 2) ? n : 0); items_ = n;
        }
        size_t levels = 1 + t.index(3);
        for (size_t l = 0; l < levels; ++l)
        {
            std::vector<Mem> own;
            size_t before = t.index(3), after = 1 + t.index(3);
            for (size_t i = 0; i < before + 1 + after; ++i)
            {
                Mem m;
                m.name = "m" + std::to_string(i);
                m.ty = i == before ? ty : g.type(1);
                own.push_back(m);
            }
            at_.insert(at_.begin(), before);
            ty = strct("S" + std::to_string(l), own);
        }
        NOTE(t, "big data of " << show(*ty));
        t.label("big data");
    }

    template<class R, class F>
    static void at(R&& r, const Ty& y, const Path& p, size_t k, F&& f)
    {
        if (k == p.size()) { f(r, y); return; }
        const Ty& c = y.k == K::Struct ? *y.mem[p[k]].ty : *y.c;
        at(r[p[k]], c, p, k + 1, f);
    }

    // a place of the tree that the model knows as a whole
    Path pick(TyP& unit)
    {
        Path p;
        TyP y = ty;
        size_t main = 0;
        for (;;)
        {
            if (y->k == K::Struct && main < at_.size())
            {
                size_t i = t.chance(1, 2) ? at_[main] : t.index(y->mem.size());
                p.push_back(i);
                y = y->mem[i].ty;
                if (i != at_[main]) { break; }
                ++main;
            }
            else if (y->k == K::Array || y->k == K::Seq)
            {
                size_t n = y->k == K::Seq ? items_ : y->bound;
                static const size_t edges[] = {0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072};
                size_t i = t.chance(1, 2) ? t.index(n) : t.chance(1, 3) ? n - 1 : edges[t.index(15)];
                p.push_back(i < n ? i : n - 1);
                y = y->c;
            }
            else if (y->k == K::Struct) { size_t i = t.index(y->mem.size()); p.push_back(i); y = y->mem[i].ty; }
            else { break; }
        }
        unit = y;
        return p;
    }

    Path block() const { return Path(at_.begin(), at_.end()); }

    void open(xt::DynamicData& d)
    {
        if (!items_) { return; }
        at(d.ref(), *ty, block(), 0, [&](xt::WritableDynamicDataRef w, const Ty&) { w.resize(items_); });
    }

    std::string change(xt::DynamicData& d)
    {
        TyP u;
        Path p = pick(u);
        Val v = VGen(t).val(*u);
        at(d.ref(), *ty, p, 0, [&](xt::WritableDynamicDataRef w, const Ty& y)
        {
            if (is_leaf(y.r().k) && t.chance(1, 2)) { write_leaf(w, y.r(), v); }
            else { xt::DynamicData s = make(*u, v); w = s.ref(); }
        });
        written[p] = {u, v};
        std::string what;
        for (size_t i : p) { what += "/" + std::to_string(i); }
        what += " = " + enc(*u, v);
        NOTE(t, what);
        return what;
    }

    void check(const xt::DynamicData& d, const std::string& what)
    {
        for (auto& w : written)
        {
            at(d.cref(), *ty, w.first, 0, [&](const xt::ReadableDynamicDataRef& r, const Ty&) { expect(r, *w.second.first, w.second.second, what + ": a place that was written"); });
        }
        for (int i = 0; i < 12; ++i)
        {
            TyP u;
            Path p = pick(u);
            if (written.count(p)) { continue; }
            at(d.cref(), *ty, p, 0, [&](const xt::ReadableDynamicDataRef& r, const Ty&) { expect(r, *u, dflt(*u), what + ": a place that was never written"); });
        }
        size_t n = items_;
        at(d.cref(), *ty, block(), 0, [&](const xt::ReadableDynamicDataRef& r, const Ty& y)
        {
            if (!n) { n = y.bound; }
            CHECK(r.size() == n, what << ": " << r.size() << " elements of " << n);
            CHECK(r.type().kind() == y.x().kind(), what << ": the kind of the elements' owner changed");
            bool no = false;
            try { r[n]; } catch (const std::runtime_error&) { no = true; }
            CHECK(no, what << ": the element " << n << " of " << n << " is not refused");
        });
    }

    // elements of the big array or sequence
    size_t items() const
    {
        if (items_) { return items_; }
        const Ty* y = ty.get();
        for (size_t i : at_) { y = y->mem[i].ty.get(); }
        return y->bound;
    }
    const Ty& owner() const
    {
        const Ty* y = ty.get();
        for (size_t i : at_) { y = y->mem[i].ty.get(); }
        return *y;
    }

private:
    size_t items_ = 0;
    std::vector<size_t> at_;
};

// data of one type: writes are seen, and nothing else changes
inline void values(Tape& t)
{
    Big b(t);
    xt::DynamicData d(b.ty->x());
    b.open(d);
    b.check(d, "new data");
    for (size_t n = 3 + t.index(8); n > 0; --n)
    {
        std::string what = b.change(d);
        b.check(d, "after " + what);
    }
    t.nontrivial();
}

// copies of it
inline void copies(Tape& t)
{
    Big b(t);
    xt::DynamicData d(b.ty->x());
    b.open(d);
    for (size_t n = 1 + t.index(6); n > 0; --n) { b.change(d); }
    xt::DynamicData e(d), f(b.ty->x());
    b.check(e, "a copy");
    if (t.chance(1, 2)) { f = d; } else { f = d.ref(); }
    b.check(f, "data that was assigned");
    auto was = b.written;
    b.change(e);
    b.check(e, "a copy that changed");
    b.written = was;
    b.check(d, "data whose copy changed");
    xt::DynamicData m(std::move(f));
    b.check(m, "data that was moved");
    t.nontrivial();
}

// equality, one place apart
inline void equality(Tape& t)
{
    Big b(t);
    xt::DynamicData d(b.ty->x()), e(b.ty->x());
    b.open(d);
    b.open(e);
    CHECK(d == e && !(d != e) && d.hash() == e.hash(), "new data of one type isn't equal");
    for (size_t n = 1 + t.index(4); n > 0; --n) { b.change(d); }
    e = d;
    CHECK(d == e && !(d != e) && d.hash() == e.hash(), "data that was assigned isn't equal");
    for (size_t n = 1 + t.index(3); n > 0; --n)
    {
        auto was = b.written;
        b.change(d);
        bool same_values = true;
        for (auto& w : b.written)
        {
            auto o = was.find(w.first);
            if (!same(*w.second.first, w.second.second, o == was.end() ? dflt(*w.second.first) : o->second.second)) { same_values = false; }
        }
        bool nan = false;
        for (auto& w : b.written) { if (enc(*w.second.first, w.second.second).find("nan") != std::string::npos) { nan = true; } }
        if (!nan) { CHECK((d == e) == same_values && (d != e) == !same_values, "data one place apart: == gives " << (d == e) << ", should be " << same_values); }
        e = d;
    }
    t.nontrivial();
}

// the type itself: sizes, places of the members, and what differs in one dimension only
inline void types(Tape& t)
{
    Big b(t);
    std::function<void(const xt::DynamicType&, const Ty&)> look = [&](const xt::DynamicType& x, const Ty& y)
    {
        CHECK(x.kind() == y.x().kind() && x.name() == y.x().name(), "the type is " << x.name() << ", should be " << show(y));
        switch (y.k)
        {
            case K::Array:
            {
                auto& a = static_cast<const xt::ArrayType&>(x);
                CHECK(a.dimension() == y.bound, "the dimension of " << show(y) << " is " << a.dimension());
                CHECK(a.memory_size() == y.bound * a.content_type().memory_size(), "the memory of " << show(y) << " is " << a.memory_size() << " bytes");
                look(a.content_type(), *y.c);
                break;
            }
            case K::Seq:
                CHECK(static_cast<const xt::SequenceType&>(x).bounds() == y.bound, "the bound of " << show(y) << " is " << static_cast<const xt::SequenceType&>(x).bounds());
                look(static_cast<const xt::SequenceType&>(x).content_type(), *y.c);
                break;
            case K::Struct:
            {
                auto& s = static_cast<const xt::StructType&>(x);
                CHECK(s.members().size() == y.mem.size(), "members");
                size_t end = 0;
                for (size_t i = 0; i < y.mem.size(); ++i)
                {
                    const xt::Member& m = s.member(i);
                    CHECK(m.name() == y.mem[i].name && &s.member(m.name()) == &m, "member " << i << " is " << m.name());
                    CHECK(m.offset() >= end, "the member " << m.name() << " at " << m.offset() << " begins before the end of the one before it, " << end << ", in " << show(y));
                    end = m.offset() + m.type().memory_size();
                    if (y.mem[i].ty->k < K::Union) { look(m.type(), *y.mem[i].ty); }
                }
                CHECK(end <= x.memory_size(), "the last member ends at " << end << " in a structure of " << x.memory_size() << " bytes");
                break;
            }
            default: break;
        }
    };
    look(b.ty->x(), *b.ty);
    std::unique_ptr<xt::StructType> copy(new xt::StructType(static_cast<const xt::StructType&>(b.ty->x())));
    look(*copy, *b.ty);
    CHECK(copy->is_compatible(b.ty->x()) == xt::TypeConsistency::EQUALS && b.ty->x().is_compatible(*copy) == xt::TypeConsistency::EQUALS, "a copy of the type isn't equal to it");
    // the same block with other number of elements
    const Ty& o = b.owner();
    uint32_t n = uint32_t(o.bound);
    static const int64_t apart[] = {1, -1, 256, -256, 32768, 65536, -65536, 131072, 16777216};
    int64_t m = int64_t(n) + apart[t.index(9)];
    if (o.k == K::Array && m > 0 && m < 300000)
    {
        xt::ArrayType x(o.c->x(), uint32_t(m));
        auto c = x.is_compatible(o.x());
        CHECK(c != xt::TypeConsistency::EQUALS && c != xt::TypeConsistency::NONE, "arrays of " << n << " and of " << m << " elements: " << int(c));
        CHECK(x.name() != o.x().name(), "arrays of " << n << " and of " << m << " elements have one name");
    }
    else if (o.k == K::Seq && m > 0)
    {
        xt::SequenceType x(o.c->x(), uint32_t(m));
        auto c = x.is_compatible(o.x());
        CHECK(c != xt::TypeConsistency::EQUALS && c != xt::TypeConsistency::NONE, "sequences bounded to " << n << " and to " << m << ": " << int(c));
        CHECK(x.name() != o.x().name(), "sequences bounded to " << n << " and to " << m << " have one name");
    }
    t.nontrivial();
}

// visits and iterators meet each element once, in order
inline void visits(Tape& t)
{
    Big b(t);
    xt::DynamicData d(b.ty->x());
    b.open(d);
    for (size_t n = 1 + t.index(6); n > 0; --n) { b.change(d); }
    const Ty& o = b.owner();
    Big::at(d.cref(), *b.ty, b.block(), 0, [&](const xt::ReadableDynamicDataRef& r, const Ty&)
    {
        size_t n = 0;
        for (auto&& e : r)
        {
            if (n < b.items() && (n < 2 || n % 4099 == 0 || n + 2 > b.items() || (n & 0xff) == 0)) { CHECK(e == r[n], "the element " << n << " of " << show(o) << " isn't the one of its iterator"); }
            ++n;
        }
        CHECK(n == b.items(), "the iterators meet " << n << " elements of " << b.items() << " in " << show(o));
        // (below an element there may be more nodes)
        size_t own = 0, depth = 0;
        bool first = true, ordered = true;
        r.for_each([&](const xt::ReadableDynamicDataRef::ReadableNode& node)
        {
            if (first) { first = false; depth = node.deep(); CHECK(!node.has_parent(), "the first node has a parent"); return; }
            if (node.deep() != depth + 1) { return; }
            if (node.from_index() != own) { ordered = false; }
            ++own;
        });
        CHECK(own == b.items(), "a visit meets " << own << " elements of " << b.items() << " in " << show(o));
        CHECK(ordered, "a visit meets the elements of " << show(o) << " in other order, or with other indexes");
    });
    b.check(d, "after visiting it");
    t.nontrivial();
}

}
#endif
