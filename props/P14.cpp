// P14: for_each() on data and on types visits every node of the tree once, parents first, in order.
#include "walk.hpp"
#include "big.hpp"
using namespace model;

static void visit(const N& n, const std::vector<N>& all, const xt::ReadableDynamicDataRef::ReadableNode& node)
{
    CHECK(node.type().kind() == n.kind, n.path << ": visited as a " << node.type().name());
    CHECK(node.deep() == n.deep, n.path << ": visited at depth " << node.deep() << ", should be " << n.deep);
    CHECK((uint64_t(node.from_index()) & n.mask) == (uint64_t(n.index) & n.mask), n.path << ": from_index() is " << node.from_index() << ", should be " << n.index);
    if (n.member == "") { CHECK(node.from_member() == nullptr, n.path << ": from_member() is " << node.from_member()->name()); }
    else if (n.member != "?") { CHECK(node.from_member() && node.from_member()->name() == n.member, n.path << ": from_member() is not " << n.member); }
    CHECK(node.has_parent() == (n.parent >= 0), n.path << ": has_parent() is " << node.has_parent());
    xt::ReadableDynamicDataRef d = node.data();
    CHECK(d.instance_id() == n.id, n.path << ": visited with other data");
    CHECK(d.type().kind() == n.kind, n.path << ": the data is a " << d.type().name());
    if (n.parent >= 0)
    {
        const N& p = all[n.parent];
        xt::ReadableDynamicDataRef pd = node.parent().data();
        CHECK(pd.instance_id() == p.id && node.parent().deep() == p.deep && node.parent().type().kind() == p.kind, n.path << ": the parent is not " << p.path);
    }
    else
    {
        bool thrown = false;
        try { node.parent(); } catch (const std::runtime_error&) { thrown = true; }
        CHECK(thrown, "parent() of the root is not refused");
    }
    if (n.ty && is_leaf(n.ty->k)) { CHECK(same(*n.ty, read_leaf(d, *n.ty), *n.val), n.path << ": visited with value " << enc(*n.ty, read_leaf(d, *n.ty)) << ", should be " << enc(*n.ty, *n.val)); }
}

static void data(Tape& t, TyP ty)
{
    VCfg vc;
    vc.unselected = t.chance(1, 20);
    Val v = VGen(t, vc).val(*ty);
    NOTE(t, "value " << enc(*ty, v));
    xt::DynamicData d = make(*ty, v);
    const xt::DynamicData& cd = d;
    using RNode = xt::ReadableDynamicDataRef::ReadableNode;
    using WNode = xt::WritableDynamicDataRef::WritableNode;
    if (unselected(*ty, v))
    {
        bool thrown = false;
        try { cd.cref().for_each([](const RNode&) {}); } catch (const std::runtime_error&) { thrown = true; }
        CHECK(thrown, "a traversal of a union that has nothing selected is not refused");
        t.label("data:nothing-selected");
        return;
    }
    std::vector<N> all;
    walk(all, d.cref(), *ty, v, 0, 0, "", -1, "");
    size_t seen = 0;
    bool r = cd.cref().for_each([&](const RNode& node)
            {
                CHECK(seen < all.size(), "visits a node more than the data has");
                visit(all[seen], all, node);
                ++seen;
            });
    CHECK(r, "for_each returns false");
    CHECK(seen == all.size(), "visits " << seen << " nodes of " << all.size() << ": " << all[seen].path << " is missing");
    // stopped by the visitor
    size_t stop = t.index(all.size());
    bool value = t.chance(1, 2);
    seen = 0;
    r = cd.cref().for_each([&](const RNode&) { if (seen++ == stop) { throw value; } });
    CHECK(r == value && seen == stop + 1, "stopped with " << value << " at node " << stop << ": returns " << r << " after " << seen << " visits");
    struct Other {};
    bool thrown = false;
    seen = 0;
    try { d.cref().for_each([&](const RNode&) { if (seen++ == stop) { throw Other(); } }); } catch (const Other&) { thrown = true; }
    CHECK(thrown && seen == stop + 1, "another exception does not leave the traversal");
    // a subtree
    size_t sub = t.index(all.size());
    size_t end = sub + 1;
    while (end < all.size() && all[end].deep > all[sub].deep) { ++end; }
    size_t at = 0;
    cd.cref().for_each([&](const RNode& node)
            {
                if (at++ != sub) { return; }
                size_t k = sub;
                node.data().for_each([&](const RNode& n)
                        {
                            CHECK(k < end, "the traversal of " << all[sub].path << " visits too much");
                            CHECK(n.data().instance_id() == all[k].id && n.type().kind() == all[k].kind && n.deep() == all[k].deep - all[sub].deep, "the traversal of " << all[sub].path << " is wrong at " << all[k].path);
                            ++k;
                        });
                CHECK(k == end, "the traversal of " << all[sub].path << " visits " << (k - sub) << " nodes of " << (end - sub));
            });
    // writing some leaves
    if (t.chance(1, 2))
    {
        seen = 0;
        size_t skip = 1 + t.index(4), written = 0;
        // (not the keys of maps)
        std::vector<char> key(all.size(), 0);
        for (size_t i = 0; i < all.size(); ++i)
        {
            if (all[i].parent < 0) { continue; }
            size_t p = size_t(all[i].parent);
            key[i] = key[p] || (!all[p].ty && all[i].index == 0);
        }
        d.for_each([&](WNode& node)
                {
                    const N& n = all[seen];
                    if (n.ty && is_leaf(n.ty->k) && !key[seen] && seen % skip == 0)
                    {
                        Val x = VGen(t, vc).leaf(*n.ty);
                        write_leaf(node.data(), *n.ty, x);
                        *n.val = x;
                        ++written;
                    }
                    ++seen;
                });
        CHECK(seen == all.size(), "the writable traversal visits " << seen << " nodes of " << all.size());
        expect(d, *ty, v, "after writing in a traversal");
        if (written) { t.label("data:written"); }
    }
    if (all.size() > 2) { t.nontrivial(); }
    t.label("data:visited");
}

// ---- types

static void walk_type(std::vector<N>& out, const Ty& ty, size_t deep, int64_t index, const std::string& member, int parent, const std::string& path)
{
    const Ty& t = ty.r();
    out.push_back(N{path, &ty, kind_of(ty), deep, index, member, 0, parent, nullptr});
    int me = int(out.size()) - 1;
    switch (t.k)
    {
        case K::Array: case K::Seq: walk_type(out, *t.c, deep + 1, 0, "", me, join(path, "content")); break;
        case K::Map:
            out.push_back(N{join(path, "pair"), nullptr, xt::TypeKind::PAIR_TYPE, deep + 1, 0, "", 0, me, nullptr});
            walk_type(out, *t.key, deep + 2, 0, "?", me + 1, join(path, "key"));
            walk_type(out, *t.c, deep + 2, 1, "?", me + 1, join(path, "value"));
            break;
        case K::Pair:
            walk_type(out, *t.key, deep + 1, 0, "?", me, join(path, "first"));
            walk_type(out, *t.c, deep + 1, 1, "?", me, join(path, "second"));
            break;
        case K::Struct:
            for (size_t i = 0; i < t.mem.size(); ++i) { walk_type(out, *t.mem[i].ty, deep + 1, int64_t(i), t.mem[i].name, me, join(path, t.mem[i].name)); }
            break;
        case K::Union:
            walk_type(out, *t.c, deep + 1, 0, "discriminator", me, join(path, "discriminator"));
            for (size_t i = 0; i < t.mem.size(); ++i) { walk_type(out, *t.mem[i].ty, deep + 1, int64_t(i) + 1, t.mem[i].name, me, join(path, t.mem[i].name)); }
            break;
        default: break;
    }
}

static void type(Tape& t, TyP ty)
{
    std::vector<N> all;
    walk_type(all, *ty, 0, 0, "", -1, "");
    using Node = xt::DynamicType::TypeNode;
    size_t seen = 0;
    bool r = ty->x().for_each([&](const Node& node)
            {
                CHECK(seen < all.size(), "visits a type more than there are");
                const N& n = all[seen];
                CHECK(node.type().kind() == n.kind, n.path << ": visited as a " << node.type().name());
                if (n.ty) { CHECK(node.type().name() == n.ty->x().name(), n.path << ": visited as " << node.type().name() << ", should be " << n.ty->x().name()); }
                CHECK(node.deep() == n.deep && node.from_index() == size_t(n.index), n.path << ": visited at depth " << node.deep() << " from index " << node.from_index());
                if (n.member == "") { CHECK(node.from_member() == nullptr, n.path << ": from_member() is not null"); }
                else if (n.member != "?") { CHECK(node.from_member() && node.from_member()->name() == n.member, n.path << ": from_member() is not " << n.member); }
                CHECK(node.has_parent() == (n.parent >= 0), n.path << ": has_parent() is " << node.has_parent());
                if (n.parent >= 0) { CHECK(node.parent().type().kind() == all[n.parent].kind && node.parent().deep() == all[n.parent].deep, n.path << ": the parent is not " << all[n.parent].path); }
                ++seen;
            });
    CHECK(r, "for_each returns false");
    CHECK(seen == all.size(), "visits " << seen << " types of " << all.size() << ": " << all[seen].path << " is missing");
    size_t stop = t.index(all.size());
    bool value = t.chance(1, 2);
    seen = 0;
    r = ty->x().for_each([&](const Node&) { if (seen++ == stop) { throw value; } });
    CHECK(r == value && seen == stop + 1, "stopped with " << value << " at type " << stop << ": returns " << r << " after " << seen << " visits");
    if (all.size() > 2) { t.nontrivial(); }
    t.label("type:visited");
}

static void body(Tape& t)
{
    if (t.chance(1, 6000)) { big::visits(t); return; }
    Cfg cfg;
    cfg.pairs = true;
    cfg.depth = int(t.chance(1, 10) ? 0 : 1 + t.index(4));
    TyP ty = Gen(t, cfg).root(cfg.depth);
    NOTE(t, "type " << show(*ty));
    label_kinds(t, *ty);
    if (t.chance(1, 4)) { type(t, ty); }
    else { data(t, ty); }
}

// ---- regressions
static void alias_root()
{
    TyP a = alias(alias(strct("S", {Mem{"x", alias(seq(alias(prim(K::I32), "C")), "B"), {}, false}}), "A"), "Z");
    xt::DynamicData d(a->x());
    d["x"].push(int32_t(1));
    d["x"].push(int32_t(2));
    size_t n = 0;
    d.for_each([&](const xt::ReadableDynamicDataRef::ReadableNode& node) { ++n; CHECK(node.type().kind() != xt::TypeKind::ALIAS_TYPE, "an alias is visited in data"); });
    CHECK(n == 4, n << " nodes");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P14";
    p.rule = "case: a random type and value; the nodes visited by for_each() (kind, data, depth, index, member, parent, value) against the tree of the model, a traversal stopped at a random node by a bool and by "
        "another exception, the traversal of a random subtree, and a writable traversal that changes leaves; or the nodes of the type. Non-trivial: more than two nodes.";
    p.body = body;
    p.quick_cases = 450000;
    p.thorough_cases = 12000000;
    p.regressions = {{"R-alias", "aliases are no node of the data", alias_root}};
    return pbt::run_main(argc, argv, p);
}
