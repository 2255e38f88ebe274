// P26: no text harms the parser, nor what is parsed after it.
#include "idl_write.hpp"
#include <xtypes/idl/idl.hpp>

using namespace idlwrite;

namespace {

bool accepted(idl::Context& c, const std::string& text)
{
    try { idl::parse(text, c); }
    catch (const std::exception&) { return false; }
    return c.success;
}

// Everything of a module can be reached
void visit(idl::Module& m, Tape& t)
{
    std::map<std::string, xt::DynamicType::Ptr> all;
    m.fill_all_types(all, true);
    for (auto& a : all)
    {
        definition(*a.second);
        CHECK(a.second->is_compatible(*a.second) == xt::TypeConsistency::EQUALS, "the type " << a.first << " isn't compatible with itself");
        size_t nodes = 0;
        a.second->for_each([&](const xt::DynamicType::TypeNode&) { ++nodes; });
        CHECK(nodes > 0, "the type " << a.first << " has no nodes");
    }
    try { idl::generator::module(m); }
    catch (const std::exception&) {}
    t.label(all.empty() ? "nothing" : "types");
}

// The log has the events of its level, and of the more severe ones, in order
void check_log(const idl::Context& c, idl::log::LogLevel level)
{
    using L = idl::log::LogLevel;
    CHECK(c.log_level() == level, "the level of the log is other");
    for (auto& e : c.log()) { CHECK(e.level <= level, "the log has a less severe event: " << e.to_string()); }
    for (L l : {L::xERROR, L::xWARNING, L::xINFO, L::xDEBUG})
    {
        for (bool strict : {false, true})
        {
            std::vector<idl::log::LogEntry> want;
            for (auto& e : c.log()) { if (e.level == l || (!strict && e.level < l)) { want.push_back(e); } }
            auto got = c.log(l, strict);
            bool same = got.size() == want.size();
            for (size_t i = 0; same && i < got.size(); ++i) { same = got[i].message == want[i].message && got[i].level == want[i].level && got[i].category == want[i].category; }
            CHECK(same, "the events of level " << int(l) << (strict ? " only" : "") << " are " << got.size() << ", should be " << want.size());
        }
    }
}
std::map<std::string, std::string> all_of(idl::Module& m)
{
    std::map<std::string, xt::DynamicType::Ptr> all;
    m.fill_all_types(all, true);
    std::map<std::string, std::string> r;
    for (auto& a : all) { r[a.first] = definition(*a.second); }
    return r;
}

const std::vector<std::string>& vocabulary()
{
    static const std::vector<std::string> v = {
        "struct", "union", "switch", "case", "default", "enum", "typedef", "const", "module", "sequence", "map", "string", "wstring", "long", "unsigned", "short", "double", "float", "char", "wchar", "octet",
        "boolean", "any", "Object", "ValueBase", "fixed", "bitset", "bitfield", "bitmask", "native", "interface", "valuetype", "void", "@annotation", "@key", "@", "{", "}", "(", ")", "[", "]", "<", ">", "<<", ">>", ";", ":",
        "::", ",", "=", "+", "-", "*", "/", "%", "~", "|", "^", "&", "0", "1", "-1", "08", "0x", "0xFFFFFFFFFFFFFFFFFF", "99999999999999999999999", "4294967295", "4294967296", "1e400", "1e", "1.", ".5", ".", "1d", "2.5f",
        "'", "''", "'ab'", "'\\x'", "'\\400'", "L'", "L''", "L'\\u'", "\"", "\"\"", "\"\\\"", "L\"", "\"\\xZZ\"", "TRUE", "FALSE", "_", "__", "S", "T", "A", "A::", "::A", "::A::B", "A::B::C", "_S", "a", "b", "/*", "*/", "//",
        "\n#", "\n#include", "\n# 1 \"x\" 1\n", "\n#pragma\n", "\\", "\\\n", "\xC3", "\xFF", "\xEF\xBB\xBF"};
    return v;
}

// A text that may be wrong in any way
std::string mutate(Tape& t, Writer& w)
{
    std::vector<std::string> k = w.tokens;
    auto at = [&](size_t extra) { return k.size() + extra ? t.index(k.size() + extra) : 0; };
    for (size_t n = t.index(5); n > 0; --n)
    {
        size_t i = at(1);
        switch (t.index(7))
        {
            case 0: if (i < k.size()) { k.erase(k.begin() + i); } break;
            case 1: k.insert(k.begin() + i, t.pick(vocabulary())); break;
            case 2: if (i < k.size()) { k[i] = t.pick(vocabulary()); } break;
            case 3: if (i < k.size()) { k.insert(k.begin() + at(0), std::string(k[i])); } break;
            case 4: if (i < k.size()) { std::swap(k[i], k[at(0)]); } break;
            case 5: if (i < k.size()) { k[i] = k[at(0)]; } break;
            default:
            {
                // a piece of the text, again
                size_t j = std::min(k.size(), i + t.index(12));
                std::vector<std::string> piece(k.begin() + i, k.begin() + j);
                k.insert(k.begin() + at(1), piece.begin(), piece.end());
            }
        }
    }
    if (t.chance(1, 8))
    {
        // something nested
        size_t d = t.range(1, 25);
        std::string s;
        switch (t.index(5))
        {
            case 0: for (size_t i = 0; i < d; ++i) { s += "sequence<"; } s = "typedef " + s + "long" + std::string(d, '>') + " Nested_;"; break;
            case 1: s = "const long Nested_ = " + std::string(d, '(') + "1" + std::string(d - t.index(2), ')') + ";"; break;
            case 2: for (size_t i = 0; i < d; ++i) { s += "module N { "; } s += "struct X { long a; }; "; for (size_t i = 0; i < d; ++i) { s += "};"; } break;
            case 3: s = "typedef long Nested_"; for (size_t i = 0; i < d; ++i) { s += "[2]"; } s += ";"; break;
            default: s = "const long Nested_ = 1"; for (size_t i = 0; i < d; ++i) { s += "+-~*/ "[t.index(6)]; s += "1"; } s += ";";
        }
        k.insert(k.begin() + at(1), s);
    }
    w.tokens = k;
    std::string s;
    try { s = w.text(); } catch (const std::exception&) {}
    if (t.chance(1, 3))
    {
        for (size_t n = t.range(1, 4); n > 0 && !s.empty(); --n)
        {
            size_t i = t.index(s.size());
            switch (t.index(5))
            {
                case 0: s[i] = char(t.bits()); break;
                case 1: s.erase(i, t.range(1, 6)); break;
                case 2: s.insert(i, 1, t.chance(1, 2) ? char(t.range(32, 126)) : char(t.bits())); break;
                case 3: s.insert(i, t.pick(vocabulary())); break;
                default: if (t.chance(1, 3)) { s.resize(i); }
            }
        }
    }
    return s;
}

void write(Writer& w, Tape& t)
{
    w.cfg.comments = t.chance(1, 3);
    w.cfg.keywords = t.chance(1, 4);
    w.cfg.wide16 = t.chance(1, 4);
    w.definitions(w.root, t.range(1, 4));
    w.finish();
}

void body(Tape& t)
{
    idl::Context c;
    c.preprocess = false;
    c.wchar_type = idl::Context::WCHAR_T;
    if (t.chance(1, 8)) { c.allow_keyword_identifiers = true; }
    if (t.chance(1, 8)) { c.ignore_redefinition = true; }
    if (t.chance(1, 8)) { c.ignore_case = true; }
    idl::log::LogLevel level = idl::log::LogLevel(t.weighted({1, 3, 1, 1}));
    if (level != idl::log::LogLevel::xWARNING) { c.log_level(level); }
    size_t wrong = 0;
    for (size_t n = t.range(1, 3); n > 0; --n)
    {
        Writer w(t);
        write(w, t);
        std::string text = mutate(t, w);
        NOTE(t, "text:\n" << text << "\n----");
        bool ok = accepted(c, text);
        if (ok) { visit(c.module(), t); }
        else { ++wrong; CHECK(!c.success, "the text is refused, and the context tells that it was parsed"); }
        check_log(c, level);
        if (t.chance(1, 4))
        {
            // what is logged doesn't change what is parsed
            idl::Context again;
            again.preprocess = false;
            again.allow_keyword_identifiers = c.allow_keyword_identifiers; again.ignore_redefinition = c.ignore_redefinition; again.ignore_case = c.ignore_case;
            again.log_level(idl::log::LogLevel(t.index(4)));
            CHECK(accepted(again, text) == ok, "the same text is " << (ok ? "refused" : "accepted") << " the second time");
            if (ok) { CHECK(all_of(again.module()) == all_of(c.module()), "the same text declares something else the second time"); }
            t.label("again");
        }
    }
    // what comes next isn't changed by that
    c.allow_keyword_identifiers = c.ignore_redefinition = c.ignore_case = false;
    Writer w(t);
    write(w, t);
    w.cfg.wide16 = false;
    std::string text = w.text();
    NOTE(t, "then:\n" << text << "\n----");
    bool other = t.chance(1, 2);
    idl::Context d;
    d.preprocess = false;
    idl::Context& x = other ? d : c;
    try { idl::parse(text, x); }
    catch (const std::exception& e) { FAIL("a valid text is refused after other texts: " << e.what()); }
    CHECK(x.success, "a valid text is refused after other texts");
    compare(x.module(), w.want);
    t.label(wrong ? "refused" : "accepted");
    if (wrong && w.want.size() > 1) { t.nontrivial(); }
}

// ---- regressions
void cleaned()
{
    idl::Context c;
    c.preprocess = false;
    idl::parse("struct S { long a; };", c);
    idl::parse("struct S { short b; };", c);
    compare(c.module(), {{"::S", "struct { int16 b; }"}});
}
void success_of_the_last()
{
    idl::Context c;
    c.preprocess = false;
    idl::parse("struct S { long a; };", c);
    CHECK(!accepted(c, "struct S { T a; };"), "a wrong text is accepted");
    CHECK(!c.success, "the context tells that the text was parsed");
}
void empty_scope()
{
    idl::Context c;
    c.preprocess = false;
    CHECK(!accepted(c, "module A { module A { struct V { long a; }; }; struct S { ::A::::A::V m; }; };"), "a name with an empty scope is accepted");
}
void accumulated()
{
    idl::Context c;
    c.preprocess = false;
    c.clear = false;
    idl::parse("struct S { long a; };", c);
    idl::parse("typedef S T;", c);
    compare(c.module(), {{"::S", "struct { int32 a; }"}, {"::T", "typedef ::S"}});
}

}

int main(int argc, char** argv)
{
    try { std::locale::global(std::locale("C.UTF-8")); }
    catch (const std::runtime_error&) { std::fprintf(stderr, "no UTF-8 locale\n"); return 2; }
    pbt::Property p;
    p.id = "P26";
    p.rule = "case: 1-3 random IDL texts with random mutations (tokens and bytes removed, inserted, replaced, exchanged, repeated; wrong literals, deep nesting) parsed one after another in a context with random options, "
        "and then a valid text, in the same context or in other one, which must declare exactly what it says. Non-trivial: some text was refused, and the last one declares two things.";
    p.body = body;
    p.quick_cases = 30000;
    p.thorough_cases = 1000000;
    p.regressions = {
        {"R-cleaned", "a second parse in the same context", cleaned},
        {"R-success", "a wrong text parsed after a valid one", success_of_the_last},
        {"R-empty-scope", "a name with an empty scope", empty_scope},
        {"R-accumulated", "a second parse in the same context, which keeps the results", accumulated},
    };
    p.assumptions = {"cpp-peglib, which the parser uses and is not installed here, is replaced by a stand-in written for this check.",
        "Whether a mutated text is accepted is not judged; an overflow in a constant expression is not an error."};
    return pbt::run_main(argc, argv, p);
}
