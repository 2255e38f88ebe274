// P19: converting text between UTF-8 and wide characters keeps every character, whatever the length; wrong text is refused.
#include "pbt.hpp"
#include <xtypes/xtypes.hpp>
#include <xtypes/StringConversion.hpp>
using namespace eprosima;
using pbt::Tape;

using Chars = std::vector<uint32_t>;

static std::string hex(const std::string& s)
{
    std::ostringstream os;
    for (unsigned char c : s) { os << std::hex << int(c) << " "; }
    return os.str();
}
static std::string show(const Chars& c)
{
    std::ostringstream os;
    size_t i = 0;
    while (i < c.size())
    {
        size_t j = i;
        while (j < c.size() && c[j] == c[i]) { ++j; }
        os << std::hex << c[i];
        if (j - i > 1) { os << "*" << std::dec << j - i; }
        os << " ";
        i = j;
    }
    return os.str();
}

static std::string utf8(const Chars& cs)
{
    std::string s;
    for (uint32_t c : cs)
    {
        if (c < 0x80) { s += char(c); }
        else if (c < 0x800) { s += char(0xC0 | (c >> 6)); s += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += char(0xE0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
        else { s += char(0xF0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
    }
    return s;
}
static std::u16string utf16(const Chars& cs)
{
    std::u16string s;
    for (uint32_t c : cs)
    {
        if (c < 0x10000) { s += char16_t(c); }
        else { s += char16_t(0xD800 + ((c - 0x10000) >> 10)); s += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); }
    }
    return s;
}
static std::wstring wide(const Chars& cs)
{
    std::wstring s;
    for (uint32_t c : cs) { s += wchar_t(c); }
    return s;
}

template<class O, class I> static bool refused(const std::basic_string<I>& in, std::basic_string<O>& out)
{
    try { out = code_conversion_tool<O>(in); }
    catch (const std::range_error&) { return true; }
    return false;
}

static uint32_t character(Tape& t, int range)
{
    static const uint32_t odd[] = {0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0xFFFF, 0xD7FF, 0xE000, 0x10000, 0x10FFFF, 0x1F600, 0xFEFF, 0, 0xE9, 0x20AC};
    switch (range)
    {
        case 0: return uint32_t(' ' + t.below(95));
        case 1: return uint32_t(0x80 + t.below(0x780));
        case 2: { uint32_t c = uint32_t(0x800 + t.below(0xF800)); return c >= 0xD800 && c < 0xE000 ? c - 0x4000 : c; }
        case 3: return uint32_t(0x10000 + t.below(0x100000));
        default: return odd[t.index(15)];
    }
}

static void body(Tape& t)
{
    // runs of characters of one width, so that the blocks of a conversion end everywhere
    Chars c;
    size_t parts = t.index(6);
    size_t total = 0;
    bool nul = false, astral = false, several = false;
    for (size_t i = 0; i < parts; ++i)
    {
        int range = int(t.weighted({4, 3, 3, 3, 2}));
        size_t n = 1 + (t.chance(1, 2) ? t.index(5) : t.index(140));
        bool same = t.chance(1, 2);
        if (t.chance(1, 1500)) { n += t.index(70000); same = true; }
        uint32_t x = character(t, range);
        for (size_t k = 0; k < n; ++k)
        {
            uint32_t y = same ? x : character(t, range);
            c.push_back(y);
            nul = nul || y == 0;
            astral = astral || y >= 0x10000;
            several = several || y >= 0x80;
        }
        total += n;
    }
    NOTE(t, "characters " << show(c));
    bool wides = t.chance(1, 3);
    std::string u8 = utf8(c), back8;
    if (wides)
    {
        std::wstring w = wide(c), backw;
        CHECK(!refused(u8, backw), "well-formed text is refused to wchar_t");
        CHECK(backw == w, "to wchar_t: " << backw.size() << " characters of " << w.size());
        CHECK(!refused(w, back8), "well-formed text is refused from wchar_t");
        CHECK(back8 == u8, "from wchar_t: " << hex(back8) << "should be " << hex(u8));
        t.label("wchar_t");
    }
    else
    {
        std::u16string w = utf16(c), back;
        CHECK(!refused(u8, back), "well-formed text is refused to char16_t");
        CHECK(back == w, "to char16_t: " << back.size() << " units of " << w.size());
        CHECK(!refused(w, back8), "well-formed text is refused from char16_t");
        CHECK(back8 == u8, "from char16_t: " << hex(back8) << "should be " << hex(u8));
        // a part of a string
        size_t a = t.index(c.size() + 1), b = a + t.index(c.size() - a + 1);
        Chars sub(c.begin() + a, c.begin() + b);
        std::u16string pre = utf16(Chars(c.begin(), c.begin() + a)), mid = utf16(sub);
        std::u16string_view view = std::u16string_view(w).substr(pre.size(), mid.size());
        CHECK(code_conversion_tool<char>(view) == utf8(sub), "a view of a part");
        t.label("char16_t");
    }
    if (!(wides && nul) && t.chance(1, 2))        // (the C library takes some wrong sequences before a zero)
    {
        // wrong text
        size_t at = t.chance(1, 4) ? c.size() : t.index(c.size() + 1);
        std::string a = utf8(Chars(c.begin(), c.begin() + at)), b = utf8(Chars(c.begin() + at, c.end()));
        static const std::vector<std::string> wrong = {"\x80", "\xBF", "\xFF", "\xFE", "\xF8", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xC3(", "\xE2(\xA1", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80"};
        static const std::vector<std::u16string> wrong16 = {std::u16string(1, char16_t(0xD800)), std::u16string(1, char16_t(0xDBFF)), std::u16string(1, char16_t(0xDC00)), std::u16string(1, char16_t(0xDFFF))};
        if (t.chance(1, 2))
        {
            // (the C library takes values out of Unicode as wide characters, and some more sequences if something follows)
            static const size_t wrong_wide[] = {0, 1, 2, 3, 8, 9, 5, 6, 7};
            size_t k = wides ? wrong_wide[t.index(at == c.size() ? 9 : 6)] : t.index(wrong.size());
            std::string bad = a + wrong[k] + b;
            NOTE(t, "wrong UTF-8 number " << k << " at " << at);
            std::u16string o;
            std::wstring ow;
            if (wides) { CHECK(refused(bad, ow), "wrong UTF-8 is not refused to wchar_t: " << hex(bad)); }
            else { CHECK(refused(bad, o), "wrong UTF-8 is not refused to char16_t: " << hex(bad)); }
        }
        else if (!wides)
        {
            size_t k = t.index(wrong16.size());
            NOTE(t, "lone surrogate " << k << " at " << at);
            std::u16string bad = utf16(Chars(c.begin(), c.begin() + at)) + wrong16[k] + utf16(Chars(c.begin() + at, c.end()));
            std::string o;
            CHECK(refused(bad, o), "a lone surrogate is not refused: " << hex(o));
        }
        t.label("wrong");
    }
    if (nul) { t.label("with-zero"); }
    if (astral) { t.label("four-bytes"); }
    if (total > 64) { t.label("several-blocks"); }
    if (several && total > 16) { t.nontrivial(); }
}

// ---- regressions
static void boundary()
{
    for (size_t pre = 0; pre < 140; ++pre)
    {
        for (uint32_t x : {0xE9u, 0x20ACu, 0x1F600u})
        {
            Chars c(pre, 'a');
            c.push_back(x); c.push_back('b'); c.push_back(x);
            std::string u8 = utf8(c), b;
            std::u16string u = utf16(c), w;
            CHECK(!refused(u8, w) && w == u, "to char16_t after " << pre);
            CHECK(!refused(u, b) && b == u8, "from char16_t after " << pre);
        }
    }
}
static void incomplete()
{
    std::u16string w;
    for (size_t pre : {0, 10, 63, 64, 65}) { CHECK(refused(std::string(pre, 'a') + "\xE2\x82", w), "incomplete character after " << pre); }
    std::wstring v;
    for (size_t pre : {0, 10, 63, 64, 65}) { CHECK(refused(std::string(pre, 'a') + "\xE2\x82", v), "incomplete wide character after " << pre); }
}

int main(int argc, char** argv)
{
    try { std::locale::global(std::locale("C.UTF-8")); }
    catch (const std::runtime_error&) { std::fprintf(stderr, "no UTF-8 locale\n"); return 2; }
    std::setlocale(LC_ALL, "C.UTF-8");
    pbt::Property p;
    p.id = "P19";
    p.rule = "case: a text of up to five runs of up to 140 characters (now and then up to 70000) of one, two, three and four bytes, converted to char16_t or wchar_t and back and compared with encoders written from the standards; then a wrong "
        "sequence inserted somewhere, which must be refused. Non-trivial: more than 16 characters, some out of ASCII.";
    p.body = body;
    p.quick_cases = 400000;
    p.thorough_cases = 6000000;
    p.assumptions = {"The conversions with wchar_t are made in the locale C.UTF-8."};
    p.regressions = {
        {"R-boundary", "characters across the end of the conversion buffer", boundary},
        {"R-incomplete", "text that ends with an incomplete character is refused", incomplete},
    };
    return pbt::run_main(argc, argv, p);
}
