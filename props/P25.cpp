// P25: the value of an IDL constant expression is the one of its arithmetic.
#include "idl_write.hpp"
#include <xtypes/idl/idl.hpp>

using namespace idlwrite;

namespace {

enum Prec { OR, XOR, AND, SHIFT, ADD, MULT, UNARY, PRIMARY };
using Tokens = std::vector<std::string>;

struct It { const char* idl; const char* canon; int bits; bool sig; };
const std::vector<It> ints = {
    {"int8", "int8", 8, true}, {"uint8", "uint8", 8, false}, {"octet", "uint8", 8, false}, {"short", "int16", 16, true}, {"unsigned short", "uint16", 16, false}, {"uint16", "uint16", 16, false},
    {"long", "int32", 32, true}, {"unsigned long", "uint32", 32, false}, {"int32", "int32", 32, true}, {"long long", "int64", 64, true}, {"unsigned long long", "uint64", 64, false}, {"uint64", "uint64", 64, false}};

template<class V> struct Expr { Tokens tokens; V value; Prec prec; };
using IE = Expr<__int128>;

struct Known { std::string name; __int128 value; };     // an integer constant, as it is named from anywhere

struct Gen
{
    Tape& t; Writer& w;
    std::vector<Known> consts;
    std::vector<std::string> others;       // constants that aren't numbers
    int ops = 0;
    std::string poison;                    // what has to be wrong, if something has to

    static void append(Tokens& to, const Tokens& x) { to.insert(to.end(), x.begin(), x.end()); }
    template<class V> Tokens operand(const Expr<V>& e, Prec at_least)
    {
        if (e.prec >= at_least && !t.chance(1, 10)) { return e.tokens; }
        Tokens k{"("}; append(k, e.tokens); k.push_back(")");
        return k;
    }
    static bool fits(__int128 v, const It& y)
    {
        __int128 hi = y.sig ? (__int128(1) << (y.bits - 1)) - 1 : (__int128(1) << y.bits) - 1;
        return v <= hi && v >= (y.sig ? -hi - 1 : 0);
    }
    IE leaf(const It& y)
    {
        if (!consts.empty() && t.chance(1, 3))
        {
            const Known& c = t.pick(consts);
            if (fits(c.value, y)) { return {{c.name}, c.value, PRIMARY}; }
        }
        uint64_t max = y.sig ? (uint64_t(1) << (y.bits - 1)) - 1 : y.bits == 64 ? ~uint64_t(0) : (uint64_t(1) << y.bits) - 1;
        uint64_t v = t.chance(2, 3) ? uint64_t(t.range(0, 20)) : t.chance(1, 4) ? max - t.index(2) : t.bits() & max >> t.index(y.bits - 1);
        if (y.sig && t.chance(1, 5)) { return {{"-", w.integer(v + 1)}, -__int128(v) - 1, UNARY}; }
        return {{w.integer(v)}, v, PRIMARY};
    }
    IE expr(const It& y, int depth)
    {
        if (depth == 0 || t.chance(1, 6)) { return leaf(y); }
        if (t.chance(1, 6))
        {
            IE a = expr(y, depth - 1);
            IE r{{}, 0, UNARY};
            static const char* const un[] = {"-", "+", "~"};
            for (size_t i = t.index(3);; i = (i + 1) % 3)
            {
                // an unsigned integer has no opposite, and the complement of less than 32 bits is not defined
                if (!y.sig && (i == 0 || (i == 2 && y.bits < 32))) { continue; }
                r.value = i == 0 ? -a.value : i == 1 ? a.value : y.sig ? -a.value - 1 : ((__int128(1) << y.bits) - 1) - a.value;
                if (!fits(r.value, y)) { continue; }
                r.tokens = {un[i]}; append(r.tokens, operand(a, PRIMARY));
                ++ops;
                return r;
            }
        }
        IE a = expr(y, depth - 1), b = expr(y, depth - 1);
        static const std::vector<std::pair<const char*, Prec>> bin = {{"|", OR}, {"^", XOR}, {"&", AND}, {"<<", SHIFT}, {">>", SHIFT}, {"+", ADD}, {"-", ADD}, {"*", MULT}, {"/", MULT}, {"%", MULT}};
        size_t i = t.index(bin.size());
        // a small operand, where a big one would be of no use
        if ((i == 3 || i == 4) && (b.value < 0 || b.value >= y.bits)) { int n = int(t.index(size_t(y.bits))); b = {{w.integer(uint64_t(n))}, n, PRIMARY}; }
        if ((i == 3 || i == 4) && a.value < 0) { i = 5; }
        for (;; i = t.index(2))
        {
            __int128 v;
            if ((i == 8 || i == 9) && b.value == 0) { continue; }
            switch (i)
            {
                case 0: v = a.value | b.value; break;
                case 1: v = a.value ^ b.value; break;
                case 2: v = a.value & b.value; break;
                case 3: v = a.value << int(b.value); break;
                case 4: v = a.value >> int(b.value); break;
                case 5: v = a.value + b.value; break;
                case 6: v = a.value - b.value; break;
                case 7: if (__builtin_mul_overflow(a.value, b.value, &v)) { continue; } break;
                case 8: v = a.value / b.value; break;
                default:
                    // the lowest integer has no remainder for -1
                    if (y.sig && b.value == -1 && !fits(-a.value, y)) { continue; }
                    v = a.value % b.value;
            }
            if (!fits(v, y)) { continue; }
            IE r{operand(a, bin[i].second), v, bin[i].second};
            r.tokens.push_back(bin[i].first);
            append(r.tokens, operand(b, Prec(bin[i].second + 1)));
            ++ops;
            return r;
        }
    }
    // An expression with something that has no value in some place of it
    IE wrong(const It& y, int depth)
    {
        if (depth > 0 && t.chance(2, 3))
        {
            IE a = wrong(y, depth - 1);
            IE b = expr(y, depth - 1);
            if (t.chance(1, 2)) { std::swap(a, b); }
            static const std::vector<std::pair<const char*, Prec>> bin = {{"|", OR}, {"^", XOR}, {"&", AND}};
            auto& o = t.pick(bin);
            IE r{operand(a, o.second), 0, o.second};
            r.tokens.push_back(o.first);
            append(r.tokens, operand(b, Prec(o.second + 1)));
            return r;
        }
        IE a = expr(y, 1);
        IE r{{}, 0, MULT};
        switch (t.index(others.empty() ? 4 : 5))
        {
            case 0:
                poison = "a division by zero";
                r.tokens = operand(a, MULT); r.tokens.push_back(t.chance(1, 2) ? "/" : "%");
                append(r.tokens, t.chance(1, 2) ? Tokens{"0"} : Tokens{"(", "3", "-", "3", ")"});
                return r;
            case 1:
                poison = "a shift of all the bits or more";
                r.prec = SHIFT;
                r.tokens = operand(a, SHIFT); r.tokens.push_back(t.chance(1, 2) ? "<<" : ">>");
                r.tokens.push_back(w.integer(uint64_t(y.bits + t.index(3))));
                return r;
            case 2: poison = "an unknown constant"; return {{"Unknown_"}, 0, PRIMARY};
            case 3: poison = "an operator without operand"; r.tokens = {"(", "3", "+", ")"}; r.prec = PRIMARY; return r;
            default: poison = "a constant that isn't a number"; return {{t.pick(others)}, 0, PRIMARY};
        }
    }
    template<class T> Expr<T> fexpr(int depth, std::vector<std::pair<std::string, T>>& known)
    {
        if (depth == 0 || t.chance(1, 6))
        {
            if (!known.empty() && t.chance(1, 3)) { auto& k = t.pick(known); return {{k.first}, k.second, PRIMARY}; }
            static const std::vector<const char*> forms = {"%.1f", "%.6f", "%e", "%.3E"};
            char x[400]; std::snprintf(x, sizeof x, t.pick(forms), t.chance(2, 3) ? double(t.range(0, 800)) / 8 : double(t.bits() >> 20) / double((t.bits() >> 40) | 1));
            T v = sizeof(T) == 4 ? T(strtof(x, nullptr)) : sizeof(T) == 8 ? T(strtod(x, nullptr)) : T(strtold(x, nullptr));
            return {{x}, v, PRIMARY};
        }
        if (t.chance(1, 6))
        {
            Expr<T> a = fexpr<T>(depth - 1, known);
            bool neg = t.chance(2, 3);
            Expr<T> r{{neg ? "-" : "+"}, neg ? T(-a.value) : a.value, UNARY};
            append(r.tokens, operand(a, PRIMARY));
            ++ops;
            return r;
        }
        Expr<T> a = fexpr<T>(depth - 1, known), b = fexpr<T>(depth - 1, known);
        static const std::vector<std::pair<const char*, Prec>> bin = {{"+", ADD}, {"-", ADD}, {"*", MULT}, {"/", MULT}};
        for (size_t i = t.index(4);; i = t.index(2))
        {
            if (i == 3 && b.value == 0) { continue; }
            T v = i == 0 ? T(a.value + b.value) : i == 1 ? T(a.value - b.value) : i == 2 ? T(a.value * b.value) : T(a.value / b.value);
            Expr<T> r{operand(a, bin[i].second), v, bin[i].second};
            r.tokens.push_back(bin[i].first);
            append(r.tokens, operand(b, Prec(bin[i].second + 1)));
            ++ops;
            return r;
        }
    }
};

template<class T> std::string floating_text(const char* canon, T v)
{
    char b[80]; std::snprintf(b, sizeof b, "%.40Lg", (long double)(v));
    return idlread::Reader::canon_float(canon, b);
}

// Parses a text; whether it is accepted
bool accepted(idl::Context& c, const std::string& text, std::string& why)
{
    c.preprocess = false;
    try { idl::parse(text, c); }
    catch (const std::exception& e) { why = e.what(); return false; }
    return c.success;
}

void body(Tape& t)
{
    Writer w(t);
    w.cfg.comments = t.chance(1, 2);
    Gen g{t, w};
    std::map<std::string, std::string>& want = w.want;
    std::vector<std::pair<std::string, float>> kf;
    std::vector<std::pair<std::string, double>> kd;
    std::vector<std::pair<std::string, long double>> kl;
    bool bad = t.chance(1, 6);
    bool inner = false;
    if (t.chance(1, 4))
    {
        for (const char* d : {"const string TEXT = \"7\"", "const boolean YES = TRUE"}) { w.put(w.words(d)); w.put(";"); }
        g.others = {"TEXT", "::TEXT"};
        want["::TEXT"] = "const string = \"7\""; want["::YES"] = "const boolean = TRUE";
    }
    size_t n = t.range(1, 6);
    for (size_t i = 0; i < n; ++i)
    {
        if (!inner && t.chance(1, 4)) { inner = true; w.put("module"); w.put("M"); w.put("{"); want["::M"] = "module"; }
        std::string name = "C" + std::to_string(i), full = (inner ? "::M::" : "::") + name;
        std::string named = !inner ? t.chance(1, 3) ? full : name : t.pick(std::vector<std::string>{name, "M::" + name, full});
        bool last = i + 1 == n;
        size_t what = last && bad ? t.index(2) : t.weighted({6, 1, 1, 1, 1});
        const It& y = t.pick(ints);
        std::string value;
        if (what == 1)
        {
            // a label
            w.put("union"); w.put(name); w.put("switch"); w.put("("); w.put(w.words(y.idl)); w.put(")"); w.put("{"); w.put("case");
            IE e = last && bad ? g.wrong(y, 3) : g.expr(y, int(t.range(1, 4)));
            // the highest ones are reserved, and labels are signed
            __int128 hi = (__int128(1) << (y.bits - 1)) - 3;
            if (e.value > hi || e.value < -hi) { e = {{"1"}, 1, PRIMARY}; }
            w.put(e.tokens); w.put(":"); w.put("long"); w.put("a"); w.put(";"); w.put("}"); w.put(";");
            want[full] = std::string("union switch (") + y.canon + ") { case " + canon_int(e.value) + ": int32 a; }";
            t.label("label");
            continue;
        }
        w.put("const");
        if (what == 0)
        {
            w.put(w.words(y.idl)); w.put(name); w.put("=");
            IE e = last && bad ? g.wrong(y, 4) : g.expr(y, int(t.range(1, 5)));
            w.put(e.tokens);
            value = std::string("const ") + y.canon + " = " + canon_int(e.value);
            g.consts.push_back({named, e.value});
            t.label(y.canon);
        }
        else if (what == 2)
        {
            w.put("float"); w.put(name); w.put("=");
            auto e = g.fexpr<float>(int(t.range(1, 4)), kf);
            if (!(std::isfinite(e.value))) { e = {{"1.5"}, 1.5f, PRIMARY}; }
            w.put(e.tokens); kf.emplace_back(named, e.value);
            value = "const float = " + floating_text("float", e.value);
            t.label("float");
        }
        else if (what == 3)
        {
            w.put("double"); w.put(name); w.put("=");
            auto e = g.fexpr<double>(int(t.range(1, 4)), kd);
            if (!(std::isfinite(e.value))) { e = {{"1.5"}, 1.5, PRIMARY}; }
            w.put(e.tokens); kd.emplace_back(named, e.value);
            value = "const double = " + floating_text("double", e.value);
            t.label("double");
        }
        else
        {
            w.put("long"); w.put("double"); w.put(name); w.put("=");
            auto e = g.fexpr<long double>(int(t.range(1, 4)), kl);
            if (!(std::isfinite(e.value))) { e = {{"1.5"}, 1.5L, PRIMARY}; }
            w.put(e.tokens); kl.emplace_back(named, e.value);
            value = "const long double = " + floating_text("long double", e.value);
            t.label("long double");
        }
        w.put(";");
        want[full] = value;
    }
    if (inner) { w.put("}"); w.put(";"); }
    std::string text = w.text();
    NOTE(t, "text:\n" << text << "\n----");
    idl::Context c;
    std::string why;
    bool ok = accepted(c, text, why);
    if (!g.poison.empty())
    {
        CHECK(!ok, "an expression with " << g.poison << " is accepted");
        t.label("refused");
    }
    else
    {
        CHECK(ok, "a valid text is refused: " << why);
        compare(c.module(), want);
    }
    if (g.ops >= 3) { t.nontrivial(); }
}

// ---- regressions
pbt::Named value(const char* name, const char* text, const char* want)
{
    return {name, text, [=]() {
        idl::Context c;
        std::string why;
        CHECK(accepted(c, text, why), "a valid text is refused: " << why);
        std::string d = definition(c.module().constant("A"));
        CHECK(d == want, "it is \"" << d << "\", should be \"" << want << "\"");
    }};
}
pbt::Named no(const char* name, const char* text)
{
    return {name, text, [=]() {
        idl::Context c;
        std::string why;
        CHECK(!accepted(c, text, why), "it is accepted");
    }};
}

}

int main(int argc, char** argv)
{
    try { std::locale::global(std::locale("C.UTF-8")); }
    catch (const std::runtime_error&) { std::fprintf(stderr, "no UTF-8 locale\n"); return 2; }
    pbt::Property p;
    p.id = "P25";
    p.rule = "case: 1-6 constants of random numeric types, or labels of unions, in the root or in a module, each one with a random expression of up to 5 levels (all the operators, parentheses only where needed or also more, literals in "
        "all the bases, constants of other types); its value is that of the tree it was written from, or it is refused when something in it has no value. Non-trivial: three operators.";
    p.body = body;
    p.quick_cases = 60000;
    p.thorough_cases = 1500000;
    p.regressions = {
        value("R-left", "const long A = 10 - 4 - 3 + 12 / 6 * 2 - (1 - 2);", "const int32 = 8"),
        value("R-nested", "const long A = ((((((((((((((((((((1 + 1))))))))))))))))))));", "const int32 = 2"),
        value("R-complement", "const long A = ~5;", "const int32 = -6"),
        value("R-lowest", "const long long A = -9223372036854775808;", "const int64 = -9223372036854775808"),
        no("R-zero", "const long A = 1 / (2 - 2);"),
        no("R-overflow", "const long A = -2147483648 / -1;"),
        no("R-shift", "const long A = 1 << 32;"),
    };
    p.assumptions = {"cpp-peglib, which the parser uses and is not installed here, is replaced by a stand-in written for this check.",
        "Only expressions whose intermediate results are representable in the type of the constant are judged; shifts of negative numbers are not."};
    return pbt::run_main(argc, argv, p);
}
