// P24: what is parsed from an IDL text is what the text declares.
#include "idl_write.hpp"
#include <xtypes/idl/idl.hpp>

using namespace idlwrite;

namespace {

void configure(idl::Context& c, const Config& cfg)
{
    c.preprocess = false;
    c.char_translation = cfg.chars == 0 ? idl::Context::CHAR : cfg.chars == 1 ? idl::Context::UINT8 : idl::Context::INT8;
    c.wchar_type = cfg.wide16 ? idl::Context::CHAR16_T : idl::Context::WCHAR_T;
    c.allow_keyword_identifiers = cfg.raw;
    c.ignore_case = cfg.ignore_case;
    c.ignore_redefinition = cfg.redefine;
}

void parse_and_compare(const std::string& text, const Config& cfg, const std::map<std::string, std::string>& want, bool again, const std::string& before, const std::vector<size_t>& cuts, Tape& t)
{
    idl::Context c;
    configure(c, cfg);
    if (!before.empty())
    {
        // something was parsed before with the context: it is forgotten
        try { idl::parse(before, c); }
        catch (const std::exception& e) { FAIL("a valid text is refused: " << e.what()); }
        CHECK(c.success, "a valid text is refused");
        t.label("context used again");
    }
    size_t from = 0;
    c.clear = cuts.empty();
    for (size_t to : cuts)
    {
        // the text is parsed part by part, and nothing is forgotten
        try { idl::parse(text.substr(from, to - from), c); }
        catch (const std::exception& e) { FAIL("a valid text is refused: " << e.what()); }
        CHECK(c.success, "a valid text is refused");
        from = to;
        t.label("by parts");
    }
    try { idl::parse(text.substr(from), c); }
    catch (const std::exception& e) { FAIL("a valid text is refused: " << e.what()); }
    CHECK(c.success, "a valid text is refused");
    compare(c.module(), want);
    if (again)
    {
        std::string text2;
        try { text2 = idl::generator::module(c.module()); }
        catch (const std::exception& e) { FAIL("the IDL of the module cannot be generated: " << e.what()); }
        NOTE(t, "generated:\n" << text2 << "\n----");
        idl::Context d;
        configure(d, cfg);
        try { idl::parse(text2, d); }
        catch (const std::exception& e) { FAIL("the text generated from the module is refused: " << e.what()); }
        CHECK(d.success, "the text generated from the module is refused");
        compare(d.module(), want);
        t.label("generated again");
    }
}

void body(Tape& t)
{
    Writer w(t);
    w.cfg.chars = int(t.weighted({6, 1, 1}));
    w.cfg.wide16 = t.chance(1, 3);
    w.cfg.keywords = t.chance(1, 2);
    w.cfg.comments = t.chance(3, 4);
    w.cfg.raw = t.chance(1, 10);
    w.cfg.ignore_case = t.chance(1, 10);
    bool invalid = t.chance(1, 6);
    w.cfg.redefine = !invalid && t.chance(1, 10);
    if (invalid) { w.bad_at = t.range(1, 6); }
    w.definitions(w.root, t.range(1, 8));
    w.finish();
    if (invalid && w.wrong.empty()) { w.bad(w.root); }
    std::string text = w.text();
    NOTE(t, "text:\n" << text << "\n----");
    if (invalid)
    {
        idl::Context c;
        configure(c, w.cfg);
        bool refused = false;
        try { idl::parse(text, c); refused = !c.success; }
        catch (const std::exception& e) { refused = true; }
        CHECK(refused, "a text with a wrong definition is accepted: " << w.wrong);
        t.label("refused");
    }
    else
    {
        std::string before;
        std::vector<size_t> cuts;
        switch (t.weighted({6, 1, 1}))
        {
            case 0: break;
            case 1:
            {
                Writer b(t);
                b.cfg = w.cfg;
                b.definitions(b.root, t.range(1, 3));
                b.finish();
                before = b.text();
                NOTE(t, "parsed before:\n" << before << "\n----");
                break;
            }
            default:
                for (size_t i = 1; i < w.tops.size(); ++i) { if (t.chance(1, 2)) { cuts.push_back(w.offsets[w.tops[i]]); NOTE(t, "cut at " << cuts.back()); } }
        }
        parse_and_compare(text, w.cfg, w.want, !w.cfg.keywords && w.cfg.chars == 0 && !w.kinds.count("re-opened") && !w.hides(), before, cuts, t);
    }
    for (auto& k : w.kinds) { t.label(k.first.c_str()); }
    if (w.refs >= 2 && w.want.size() >= 3) { t.nontrivial(); }
}

// ---- regressions
using Want = std::map<std::string, std::string>;
void declares(const char* text, const Want& want)
{
    idl::Context c;
    c.preprocess = false;
    try { idl::parse(text, c); }
    catch (const std::exception& e) { FAIL("a valid text is refused: " << e.what()); }
    CHECK(c.success, "a valid text is refused");
    compare(c.module(), want);
}
void refused(const char* text)
{
    idl::Context c;
    c.preprocess = false;
    bool no = false;
    try { idl::parse(text, c); no = !c.success; }
    catch (const std::exception&) { no = true; }
    CHECK(no, "a text that isn't valid is accepted: " << text);
}
pbt::Named shows(const char* name, const char* text, const Want& want)
{
    return {name, text, [=]() { declares(text, want); }};
}

}

int main(int argc, char** argv)
{
    try { std::locale::global(std::locale("C.UTF-8")); }
    catch (const std::runtime_error&) { std::fprintf(stderr, "no UTF-8 locale\n"); return 2; }
    pbt::Property p;
    p.id = "P24";
    p.rule = "case: a random IDL text (modules, also re-opened; structures, unions, enumerations, typedefs, constants, forward declarations, annotations, comments, line markers) that is written together with what it "
        "declares; it must be accepted, and the module must have exactly that. Non-trivial: three declarations and two references to other declarations.";
    p.body = body;
    p.quick_cases = 60000;
    p.thorough_cases = 1500000;
    p.regressions = {
        shows("R-escapes", R"(const string A = "a\"b\n" "\x41"; const char B = '\''; const wchar C = L'\u00e9';)",
            {{"::A", "const string = \"a\"b\nA\""}, {"::B", "const char = '''"}, {"::C", "const wchar = '\xc3\xa9'"}}),
        shows("R-constants", R"(enum E { X, Y }; const E A = Y; const E B = A; const int8 C = -128; const long double D = 2.5; const wstring W = L"a";)",
            {{"::E", "enum { X, Y, }"}, {"::A", "const ::E = 1"}, {"::B", "const ::E = 1"}, {"::C", "const int8 = -128"}, {"::D", "const long double = 0xap-2"}, {"::W", "const wstring = \"a\""}}),
        shows("R-declarators", "typedef long A, B[2], C[3][1];",
            {{"::A", "typedef int32"}, {"::B", "typedef int32[2]"}, {"::C", "typedef int32[3][1]"}}),
        shows("R-sizes", "const short N = 3; struct S { sequence<long, 0x10> a; string<010> b; map<long, long, N> c; long d[N][0xA]; };",
            {{"::N", "const int16 = 3"}, {"::S", "struct { sequence<int32,16> a; string<8> b; map<int32,int32,3> c; int32[3][10] d; }"}}),
        shows("R-forward-union", "union U; module M { struct S { long a; }; }; union U switch (long) { case 1: long a; };",
            {{"::U", "union switch (int32) { case 1: int32 a; }"}, {"::M", "module"}, {"::M::S", "struct { int32 a; }"}}),
        shows("R-redeclared", "struct S { long a; }; module M { struct S { short b; }; typedef S T; enum E { S2, X }; module N { typedef long X; const long S = 1; }; };",
            {{"::S", "struct { int32 a; }"}, {"::M", "module"}, {"::M::S", "struct { int16 b; }"}, {"::M::T", "typedef ::M::S"}, {"::M::E", "enum { S2, X, }"},
             {"::M::N", "module"}, {"::M::N::X", "typedef int32"}, {"::M::N::S", "const int32 = 1"}}),
        shows("R-labels", "const long N = 4; union U switch (long) { case N + 1: case -2: long a; case 7: default: short b; };",
            {{"::N", "const int32 = 4"}, {"::U", "union switch (int32) { case -2: case 5: int32 a; case 7: default: int16 b; }"}}),
        shows("R-one-case", "union U switch (boolean) { case TRUE: long a; };", {{"::U", "union switch (boolean) { case 1: int32 a; }"}}),
        shows("R-keywords", "struct structure { long longest; long int32x; }; const long constant = 1; const boolean TRUE_ = TRUE; const boolean B = TRUE_; struct/**/X{long/**/a;}; typedef structure any_; typedef structure mapping;",
            {{"::structure", "struct { int32 longest; int32 int32x; }"}, {"::constant", "const int32 = 1"}, {"::TRUE_", "const boolean = TRUE"}, {"::B", "const boolean = TRUE"}, {"::X", "struct { int32 a; }"}, {"::any_", "typedef ::structure"}, {"::mapping", "typedef ::structure"}}),
        {"R-unsupported", "a type that xtypes does not have is refused", []() { refused("struct S { any a; };"); refused("struct S { Object a; };"); }},
        shows("R-comments", "//\n\t/* x */ \r\n\t// y\n/**/struct/* a { */\t//z\n S//b\n{long/**/a;/* c */\t\r\n//d\n}/***/;\t// end\n", {{"::S", "struct { int32 a; }"}}),
        shows("R-annotations", "@a @b(1) struct S { @key @id(3) @range(min=1, max=2) long a; };", {{"::S", "struct { int32 a; }"}}),
        shows("R-escaped-names", "enum _E { _X, Y }; const long _C = 2; struct _S { _E a; long b[_C]; }; const E D = _X;",
            {{"::E", "enum { X, Y, }"}, {"::C", "const int32 = 2"}, {"::S", "struct { ::E a; int32[2] b; }"}, {"::D", "const ::E = 0"}}),
        shows("R-line-markers", "struct S {\n# 3 \"f.idl\" 2\nlong a;\n};", {{"::S", "struct { int32 a; }"}}),
        shows("R-octets", "const octet A = 0x1F; const octet B = 255;", {{"::A", "const uint8 = 31"}, {"::B", "const uint8 = 255"}}),
        {"R-declared-twice", "an identifier declared as two things in a module is refused", []() {
            refused("struct S { long a; }; typedef long S;"); refused("const long S = 1; struct S { long a; };"); refused("enum E { S }; union S switch (long) { case 1: long a; };"); }},
        shows("R-member-names", "typedef long T; struct S { T T; long S2; }; module M { const long N = 1; struct P { long N; }; };",
            {{"::T", "typedef int32"}, {"::S", "struct { ::T T; int32 S2; }"}, {"::M", "module"}, {"::M::N", "const int32 = 1"}, {"::M::P", "struct { int32 N; }"}}),
        shows("R-hidden-enumerator", "enum E { X, Y }; module M { const double X = 1.5; const E A = Y; union U switch (E) { case Y: long a; }; const E B = ::X; };",
            {{"::E", "enum { X, Y, }"}, {"::M", "module"}, {"::M::X", "const double = 0x1.8p+0"}, {"::M::A", "const ::E = 1"}, {"::M::U", "union switch (::E) { case 1: int32 a; }"}, {"::M::B", "const ::E = 0"}}),
    };
    p.assumptions = {"cpp-peglib, which the parser uses and is not installed here, is replaced by a stand-in written for this check."};
    return pbt::run_main(argc, argv, p);
}
