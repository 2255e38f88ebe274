// P02: copies are deep and independent, moves keep the value, self-assignment is harmless.
#include "model.hpp"
#include "big.hpp"
using namespace model;

struct Slot
{
    std::unique_ptr<xt::DynamicData> d;
    Val v;
    bool known = true;      // false after being moved from
};

// A node reached twice through the same random path in two slots of one type
struct Node { xt::WritableDynamicDataRef w; const Ty* ty; Val* v; std::string path; };

static bool walk(Tape& t, xt::WritableDynamicDataRef w, const Ty& ty, Val& v, int depth, std::string path, std::vector<Node>& out)
{
    // all nodes that exist, except the members that union cases hide
    out.push_back(Node{w, &ty, &v, path});
    if (depth <= 0 || out.size() > 60) { return true; }
    const Ty& r = ty.r();
    switch (r.k)
    {
        case K::Array: case K::Seq:
            for (size_t i = 0; i < v.v.size() && i < 4; ++i) { walk(t, w[i], *r.c, v.v[i], depth - 1, join(path, std::to_string(i)), out); }
            break;
        case K::Struct:
            for (size_t i = 0; i < v.v.size(); ++i) { walk(t, w[i], *r.mem[i].ty, v.v[i], depth - 1, join(path, r.mem[i].name), out); }
            break;
        case K::Pair:
            walk(t, w[0], *r.key, v.v[0], depth - 1, join(path, "first"), out);
            walk(t, w[1], *r.c, v.v[1], depth - 1, join(path, "second"), out);
            break;
        case K::Map:
            for (size_t i = 0; i < v.v.size() && i < 4; ++i)
            {
                xt::DynamicData k = make(*r.key, v.v[i].v[0]);
                walk(t, w.at(k), *r.c, v.v[i].v[1], depth - 1, join(path, "[" + enc(*r.key, v.v[i].v[0]) + "]"), out);
            }
            break;
        case K::Union:
            if (v.sel >= 0) { walk(t, w[r.mem[v.sel].name], *r.mem[v.sel].ty, v.v[0], depth - 1, join(path, r.mem[v.sel].name), out); }
            break;
        default: break;
    }
    return true;
}

static void body(Tape& t)
{
    if (t.chance(1, 2000)) { big::copies(t); return; }
    Cfg cfg;
    cfg.pairs = true;
    cfg.depth = 1 + int(t.index(4));
    TyP ty = Gen(t, cfg).root(cfg.depth);
    NOTE(t, "type " << show(*ty));
    label_kinds(t, *ty);
    VCfg vc;
    vc.unselected = true;
    Mutator m(t, vc);
    std::vector<Slot> s(3);
    for (size_t i = 0; i < s.size(); ++i)
    {
        s[i].v = m.gen(*ty);
        s[i].d.reset(new xt::DynamicData(make(*ty, s[i].v)));
        NOTE(t, "slot " << i << " = " << enc(*ty, s[i].v));
    }
    size_t steps = 2 + t.index(8), copies = 0, writes = 0;
    for (size_t n = 0; n < steps; ++n)
    {
        size_t i = t.index(s.size()), j = t.index(s.size());
        std::string what;
        size_t op = t.weighted({3, 2, 2, 2, 2, 2, 1, 2, 2, 1, 2});
        if (!s[i].known)
        {
            // what was moved from can be given a value again, or destroyed
            if (t.chance(1, 2)) { s[i].d.reset(new xt::DynamicData(ty->x())); s[i].v = dflt(*ty); what = "replaced the moved-from slot"; }
            else
            {
                Val v = m.gen(*ty);
                xt::DynamicData src = make(*ty, v);
                *s[i].d = src;
                s[i].v = v;
                what = "assigned the moved-from slot";
            }
            s[i].known = true;
            op = 99;
        }
        else if (!s[j].known) { j = i; }
        switch (op)
        {
            case 0:
                what = m.step(s[i].d->ref(), *ty, s[i].v, "slot" + std::to_string(i));
                ++writes;
                break;
            case 1:
                s[i].d.reset(new xt::DynamicData(*s[j].d)); s[i].v = s[j].v;      // i == j: copied, then the original dies
                what = "copy construct"; ++copies; t.label("op:copy-construct");
                break;
            case 2:
                *s[i].d = *s[j].d; s[i].v = s[j].v;
                what = "copy assign"; ++copies; t.label(i == j ? "op:self-assign" : "op:copy-assign");
                break;
            case 3:
            {
                std::unique_ptr<xt::DynamicData> nd(new xt::DynamicData(std::move(*s[j].d)));
                what = "move construct"; ++copies; t.label("op:move-construct");
                s[j].known = false;
                s[i].d = std::move(nd);
                s[i].v = s[j].v;
                s[i].known = true;
                break;
            }
            case 4:
                s[i].d.reset(new xt::DynamicData(s[j].d->cref())); s[i].v = s[j].v;
                what = "construct from a readable reference"; ++copies; t.label("op:ref-construct");
                break;
            case 5:
                *s[i].d = s[j].d->cref(); s[i].v = s[j].v;
                what = "assign from a readable reference"; ++copies; t.label("op:ref-assign");
                break;
            case 6:
                s[i].d->ref() = s[j].d->ref(); s[i].v = s[j].v;
                what = "assign through a writable reference"; ++copies; t.label("op:wref-assign");
                break;
            case 7:
            {
                std::vector<Node> a, b;
                walk(t, s[i].d->ref(), *ty, s[i].v, 4, "", a);
                walk(t, s[j].d->ref(), *ty, s[j].v, 4, "", b);
                Node x = a[t.index(a.size())];
                std::vector<size_t> same_type;
                for (size_t k = 0; k < b.size(); ++k) { if (b[k].ty == x.ty) { same_type.push_back(k); } }
                if (same_type.empty()) { break; }
                Node y = b[t.pick(same_type)];
                Val nv = *y.v;
                x.w = y.w;
                *x.v = nv;
                what = "assign node " + x.path + " from " + y.path; ++copies; t.label("op:node-assign");
                break;
            }
            case 8:
            {
                std::vector<Node> b;
                walk(t, s[j].d->ref(), *ty, s[j].v, 4, "", b);
                Node y = t.pick(b);
                what = "extract a node"; ++copies; t.label("op:extract");
                // the extracted copy of a node has the value of the node, and writing it leaves the source alone
                xt::DynamicData e(y.w.cref());
                Val ev = *y.v;
                expect(e, *y.ty, ev, "extracted node " + y.path);
                m.step(e.ref(), *y.ty, ev, "extracted");
                expect(e, *y.ty, ev, "extracted node after a write");
                break;
            }
            case 9:
            {
                std::vector<xt::DynamicData> vec;
                size_t k = 1 + t.index(5);
                for (size_t q = 0; q < k; ++q) { vec.push_back(*s[j].d); }
                for (auto& e : vec) { expect(e, *ty, s[j].v, "element of a std::vector"); }
                Val v = s[j].v;
                m.step(vec[k - 1].ref(), *ty, v, "vector element");
                expect(vec[k - 1], *ty, v, "written element of a std::vector");
                if (k > 1) { expect(vec[0], *ty, s[j].v, "other element of a std::vector"); }
                what = "std::vector of copies"; ++copies; t.label("op:vector");
                break;
            }
            case 10:
                std::swap(*s[i].d, *s[j].d);
                if (i != j) { std::swap(s[i].v, s[j].v); }
                what = "swap"; ++copies; t.label("op:swap");
                break;
            default: break;
        }
        NOTE(t, what << " (" << i << "," << j << ")");
        for (size_t k = 0; k < s.size(); ++k)
        {
            if (s[k].known) { expect(*s[k].d, *ty, s[k].v, "slot " + std::to_string(k) + " after " + what); }
        }
    }
    if (copies > 0 && writes > 0 && count_nodes(*ty, s[0].v) > 1) { t.nontrivial(); }
}

// ---- regressions
static void ref_constructed()
{
    TyP q = seq(str(K::Str));
    Val v;
    Val e; e.s.assign(50, 'a');
    v.v = {e, e};
    xt::DynamicData d = make(*q, v);
    {
        xt::DynamicData c(d.ref());
        c[0] = std::string("other");
        c.push(std::string(80, 'z'));
    }
    expect(d, *q, v, "source of data constructed from its reference");
    xt::DynamicData f(d[0]);
    f = std::string("g");
    expect(d, *q, v, "source of data constructed from an element reference");
}
static void move_keeps()
{
    TyP s = strct("S", {Mem{"a", str(K::Str), {}, false}, Mem{"b", seq(str(K::Str)), {}, false}, Mem{"c", mp(prim(K::I32), str(K::Str)), {}, false}});
    pbt::Tape t(7);
    Val v = VGen(t).val(*s);
    v.v[0].s.assign(70, 'm');
    xt::DynamicData d = make(*s, v);
    xt::DynamicData e(std::move(d));
    expect(e, *s, v, "moved-to data");
    d = e;
    expect(d, *s, v, "moved-from data that was assigned");
}
static void shorter_array()
{
    TyP c = str(K::Str), a3 = arr(c, 3), a5 = arr(c, 5);
    Val v;
    for (int i = 0; i < 3; ++i) { Val e; e.s.assign(40, uint32_t('a' + i)); v.v.push_back(e); }
    xt::DynamicData d = make(*a3, v);
    xt::DynamicData e(d, a5->x());
    v.v.push_back(Val()); v.v.push_back(Val());
    expect(e, *a5, v, "array copied from a shorter one");
    xt::DynamicData f(e);
    expect(f, *a5, v, "copy of that");
}
static void temporary_ref()
{
    // a reference made from a temporary must not stop the temporary from releasing what it owns
    TyP c = str(K::Str);
    Val e; e.s.assign(40, 'b');
    xt::DynamicData d = make(*c, e);
    auto f = [&]() { return xt::DynamicData(d); };
    std::string s = xt::ReadableDynamicDataRef(f()).type().name();
    expect(d, *c, e, "source");
}

// copying a map of maps takes the time of its elements, at any depth
static void deep_maps()
{
    TyP y = prim(K::I32);
    Val v;
    v.u = 7;
    for (int i = 0; i < 60; ++i)
    {
        y = mp(prim(K::U16), y, i % 2 ? 2 : 0);
        Val p, k, m;
        k.u = uint64_t(i);
        p.v = {k, v};
        m.v = {p};
        v = m;
    }
    xt::DynamicData d = make(*y, v), e(d), f(y->x());
    f = e;
    expect(f, *y, v, "copy of a map of 60 levels");
}

int main(int argc, char** argv)
{
    pbt::Property p;
    p.id = "P02";
    p.rule = "case: a random type, three data of it, 2-9 operations among: write a node, copy/move construct, copy/move/reference assignment, self-assignment, "
        "assignment between nodes (also of one data), extraction of a node, storage in std::vector, std::swap; all data are compared with their models after each. "
        "Non-trivial: at least one copying operation and one write, on a type that is not a leaf.";
    p.body = body;
    p.quick_cases = 130000;
    p.thorough_cases = 6000000;
    p.regressions = {{"R-deep-maps", "copying nested maps takes the time of their elements", deep_maps},
        
        {"R-ref-construct", "data constructed from a reference is a copy", ref_constructed},
        {"R-move", "moving keeps the value and leaves the source usable", move_keeps},
        {"R-shorter-array", "the rest of an array copied from a shorter one is usable", shorter_array},
        {"R-temporary-ref", "a reference to a temporary", temporary_ref},
    };
    return pbt::run_main(argc, argv, p);
}
