// A reader of IDL written from the OMG specification (the part that xtypes can express), independent of the library.
// It turns a text into the declarations that it makes: absolute name -> canonical definition.
#pragma once
#include "pbt.hpp"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <cmath>

namespace idlread {

struct Error { std::string what; };

// canonical form of a value
inline std::string canon_int(__int128 v)
{
    bool n = v < 0; if (n) { v = -v; }
    std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v);
    return n ? "-" + s : s;
}

struct Tok { enum K { End, Id, Int, Float, Chr, WChr, Str, WStr, Punct } k; std::string s; size_t line; };

inline std::string utf8(uint32_t c)
{
    std::string s;
    if (c < 0x80) { s += char(c); }
    else if (c < 0x800) { s += char(0xC0 | (c >> 6)); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
    return s;
}

class Lexer
{
public:
    explicit Lexer(const std::string& t) : t_(t) {}
    std::vector<Tok> all()
    {
        std::vector<Tok> v;
        do { v.push_back(next()); } while (v.back().k != Tok::End);
        return v;
    }
private:
    const std::string& t_; size_t p_ = 0, line_ = 1;
    [[noreturn]] void fail(const std::string& w) { throw Error{w + " in line " + std::to_string(line_)}; }
    Tok tok(Tok::K k, const std::string& s) { return Tok{k, s, line_}; }
    Tok next()
    {
        while (p_ < t_.size())
        {
            if (t_[p_] == '\n') { ++line_; ++p_; }
            else if (isspace((unsigned char)t_[p_])) { ++p_; }
            else if (t_.compare(p_, 2, "//") == 0) { while (p_ < t_.size() && t_[p_] != '\n') { ++p_; } }
            else if (t_.compare(p_, 2, "/*") == 0)
            {
                size_t e = t_.find("*/", p_ + 2);
                if (e == std::string::npos) { fail("open comment"); }
                for (; p_ < e + 2; ++p_) { if (t_[p_] == '\n') { ++line_; } }
            }
            else { break; }
        }
        if (p_ >= t_.size()) { return tok(Tok::End, ""); }
        unsigned char c = t_[p_];
        if (c == 'L' && p_ + 1 < t_.size() && (t_[p_ + 1] == '"' || t_[p_ + 1] == '\'')) { ++p_; return quoted(true); }
        if (c == '"' || c == '\'') { return quoted(false); }
        if (isalpha(c) || c == '_')
        {
            size_t b = p_;
            while (p_ < t_.size() && (isalnum((unsigned char)t_[p_]) || t_[p_] == '_')) { ++p_; }
            return tok(Tok::Id, t_.substr(b, p_ - b));
        }
        if (isdigit(c) || (c == '.' && p_ + 1 < t_.size() && isdigit((unsigned char)t_[p_ + 1]))) { return number(); }
        if (t_.compare(p_, 2, "::") == 0) { p_ += 2; return tok(Tok::Punct, "::"); }
        ++p_;
        return tok(Tok::Punct, std::string(1, char(c)));
    }
    Tok number()
    {
        size_t b = p_;
        bool f = false;
        if (t_[p_] == '0' && p_ + 1 < t_.size() && (t_[p_ + 1] == 'x' || t_[p_ + 1] == 'X')) { p_ += 2; while (p_ < t_.size() && isxdigit((unsigned char)t_[p_])) { ++p_; } }
        else
        {
            while (p_ < t_.size() && isdigit((unsigned char)t_[p_])) { ++p_; }
            if (p_ < t_.size() && t_[p_] == '.') { f = true; ++p_; while (p_ < t_.size() && isdigit((unsigned char)t_[p_])) { ++p_; } }
            if (p_ < t_.size() && (t_[p_] == 'e' || t_[p_] == 'E'))
            {
                f = true; ++p_;
                if (p_ < t_.size() && (t_[p_] == '+' || t_[p_] == '-')) { ++p_; }
                if (p_ >= t_.size() || !isdigit((unsigned char)t_[p_])) { fail("wrong exponent"); }
                while (p_ < t_.size() && isdigit((unsigned char)t_[p_])) { ++p_; }
            }
        }
        if (p_ < t_.size() && (isalpha((unsigned char)t_[p_]) || t_[p_] == '_')) { fail("wrong number"); }
        return tok(f ? Tok::Float : Tok::Int, t_.substr(b, p_ - b));
    }
    Tok quoted(bool wide)
    {
        char q = t_[p_++];
        std::string s;
        while (true)
        {
            if (p_ >= t_.size() || t_[p_] == '\n') { fail("open literal"); }
            char c = t_[p_++];
            if (c == q) { break; }
            if (c != '\\') { s += c; continue; }
            if (p_ >= t_.size()) { fail("open literal"); }
            c = t_[p_++];
            auto digits = [&](int base, int max) {
                uint32_t v = 0; int n = 0;
                while (n < max && p_ < t_.size() && isxdigit((unsigned char)t_[p_]))
                {
                    int d = isdigit((unsigned char)t_[p_]) ? t_[p_] - '0' : (t_[p_] | 32) - 'a' + 10;
                    if (d >= base) { break; }
                    v = v * base + d; ++n; ++p_;
                }
                if (!n) { fail("wrong escape"); }
                return v;
            };
            switch (c)
            {
                case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'v': s += '\v'; break; case 'b': s += '\b'; break;
                case 'r': s += '\r'; break; case 'f': s += '\f'; break; case 'a': s += '\a'; break;
                case '\\': case '?': case '\'': case '"': s += c; break;
                case 'x': { uint32_t v = digits(16, wide ? 2 : 2); if (wide) { s += utf8(v); } else { s += char(v); } break; }
                case 'u': s += utf8(digits(16, 4)); break;
                default:
                    if (c < '0' || c > '7') { fail("wrong escape"); }
                    --p_;
                    { uint32_t v = digits(8, 3); if (wide) { s += utf8(v); } else { s += char(v); } }
            }
        }
        return tok(q == '"' ? (wide ? Tok::WStr : Tok::Str) : (wide ? Tok::WChr : Tok::Chr), s);
    }
};

enum class What { Module, Struct, Union, Enum, Typedef, Const, Enumerator };

struct Scope
{
    std::string name;
    Scope* outer = nullptr;
    std::map<std::string, What> syms;
    std::map<std::string, std::unique_ptr<Scope>> inner;
    std::string full(const std::string& n) const { return (outer ? outer->full(name) : std::string("")) + "::" + n; }
};

struct Result
{
    std::map<std::string, std::string> decls;      // absolute name -> definition
    std::map<std::string, std::vector<std::string>> enums;
    std::map<std::string, std::string> alias_of;   // absolute name of a typedef -> canonical type
    std::vector<std::string> order;
};

inline bool keyword(const std::string& s)
{
    static const std::set<std::string> k = {"module", "struct", "union", "switch", "case", "default", "enum", "typedef", "const", "sequence", "map", "string", "wstring", "boolean", "char", "wchar",
        "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "short", "long", "unsigned", "float", "double", "octet", "any", "TRUE", "FALSE", "fixed", "native", "bitset", "bitfield", "bitmask"};
    return k.count(s);
}

class Reader
{
public:
    // strict: a name is found as the specification says. Otherwise what comes after the first component may also be
    // found in an outer scope.
    explicit Reader(const std::string& text, bool strict = false) : v_(Lexer(text).all()), strict_(strict) {}
    Result read()
    {
        Scope root;
        s_ = &root;
        while (peek().k != Tok::End) { definition(); }
        return r_;
    }
private:
    std::vector<Tok> v_; size_t i_ = 0;
    bool strict_;
    Scope* s_ = nullptr;
    Result r_;

    const Tok& peek(size_t n = 0) const { return v_[std::min(i_ + n, v_.size() - 1)]; }
    [[noreturn]] void fail(const std::string& w) { throw Error{w + " at '" + peek().s + "' in line " + std::to_string(peek().line)}; }
    bool is(const std::string& s) const { return (peek().k == Tok::Id || peek().k == Tok::Punct) && peek().s == s; }
    bool accept(const std::string& s) { if (is(s)) { ++i_; return true; } return false; }
    void expect(const std::string& s) { if (!accept(s)) { fail("expected '" + s + "'"); } }
    std::string ident()
    {
        if (peek().k != Tok::Id || keyword(peek().s)) { fail("expected a name"); }
        return v_[i_++].s;
    }
    std::string declare(const std::string& n, What w)
    {
        if (s_->syms.count(n)) { fail("'" + n + "' is already declared"); }
        s_->syms[n] = w;
        return s_->full(n);
    }
    void define(const std::string& full, const std::string& d) { r_.decls[full] = d; r_.order.push_back(full); }

    void definition()
    {
        if (accept("module"))
        {
            std::string n = ident();
            auto it = s_->syms.find(n);
            if (it != s_->syms.end() && it->second != What::Module) { fail("'" + n + "' is already declared"); }
            s_->syms[n] = What::Module;
            auto& in = s_->inner[n];
            if (!in) { in.reset(new Scope); in->name = n; in->outer = s_; }
            r_.decls[s_->full(n)] = "module";
            expect("{");
            Scope* o = s_; s_ = in.get();
            while (!is("}")) { if (peek().k == Tok::End) { fail("open module"); } definition(); }
            s_ = o;
            expect("}"); expect(";");
        }
        else if (accept("struct"))
        {
            std::string n = ident(), d = "struct";
            if (accept(":")) { What w; d += " : " + scoped(w); if (w != What::Struct) { fail("the parent isn't a structure"); } }
            d += " {";
            expect("{");
            std::set<std::string> names;
            while (!accept("}"))
            {
                std::string t = type();
                do { d += " " + declarator(t, names) + ";"; } while (accept(","));
                expect(";");
            }
            expect(";");
            define(declare(n, What::Struct), d + " }");
        }
        else if (accept("union"))
        {
            std::string n = ident(), d = "union switch (";
            expect("switch"); expect("(");
            std::string disc = type();
            expect(")"); expect("{");
            d += disc + ") {";
            std::set<std::string> names, used;
            bool def = false;
            while (!accept("}"))
            {
                std::set<std::string> labels;
                while (true)
                {
                    if (accept("case")) { std::string l = value(disc); expect(":"); if (!used.insert(l).second) { fail("repeated label " + l); } labels.insert("case " + l + ":"); }
                    else if (accept("default")) { expect(":"); if (def) { fail("repeated default"); } def = true; labels.insert("default:"); }
                    else { break; }
                }
                if (labels.empty()) { fail("case without labels"); }
                for (auto& l : labels) { d += " " + l; }
                std::string t = type();
                d += " " + declarator(t, names) + ";";
                expect(";");
            }
            expect(";");
            define(declare(n, What::Union), d + " }");
        }
        else if (accept("enum"))
        {
            std::string n = ident(), d = "enum {", full = declare(n, What::Enum);
            expect("{");
            std::vector<std::string> e;
            do
            {
                std::string x = ident();
                if (std::find(e.begin(), e.end(), x) != e.end()) { fail("repeated enumerator"); }
                e.push_back(x); d += " " + x + ",";
            } while (accept(","));
            expect("}"); expect(";");
            r_.enums[full] = e;
            define(full, d + " }");
        }
        else if (accept("typedef"))
        {
            std::string t = type();
            do
            {
                std::string n = ident(), dims = dimensions();
                std::string full = declare(n, What::Typedef);
                r_.alias_of[full] = t + dims;
                define(full, "typedef " + t + dims);
            } while (accept(","));
            expect(";");
        }
        else if (accept("const"))
        {
            std::string t = type(), n = ident();
            expect("=");
            std::string x = value(t);
            expect(";");
            define(declare(n, What::Const), "const " + t + " = " + x);
        }
        else { fail("expected a declaration"); }
    }
    std::string dimensions()
    {
        std::string s;
        while (accept("[")) { s += "[" + positive() + "]"; expect("]"); }
        return s;
    }
    std::string declarator(const std::string& t, std::set<std::string>& names)
    {
        std::string n = ident();
        if (!names.insert(n).second) { fail("repeated member"); }
        return t + dimensions() + " " + n;
    }
    std::string positive()
    {
        if (peek().k != Tok::Int) { fail("expected a number"); }
        return canon_int(integer());
    }
    __int128 integer()
    {
        std::string s = v_[i_++].s;
        int base = s.size() > 1 && s[0] == '0' ? (s[1] == 'x' || s[1] == 'X' ? 16 : 8) : 10;
        __int128 v = 0;
        for (size_t i = base == 16 ? 2 : 0; i < s.size(); ++i)
        {
            int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10;
            if (d >= base) { --i_; fail("wrong digit"); }
            v = v * base + d;
        }
        return v;
    }
    std::string type()
    {
        static const std::set<std::string> simple = {"boolean", "char", "wchar", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double"};
        if (peek().k == Tok::Id && simple.count(peek().s)) { return v_[i_++].s; }
        if (accept("octet")) { return "uint8"; }
        if (accept("short")) { return "int16"; }
        if (accept("long")) { if (accept("double")) { return "long double"; } return accept("long") ? "int64" : "int32"; }
        if (accept("unsigned")) { if (accept("short")) { return "uint16"; } expect("long"); return accept("long") ? "uint64" : "uint32"; }
        if (is("string") || is("wstring"))
        {
            std::string s = v_[i_++].s;
            if (accept("<")) { s += "<" + positive() + ">"; expect(">"); }
            return s;
        }
        if (accept("sequence")) { expect("<"); std::string s = "sequence<" + type(); if (accept(",")) { s += "," + positive(); } expect(">"); return s + ">"; }
        if (accept("map"))
        {
            expect("<"); std::string s = "map<" + type(); expect(","); s += "," + type();
            if (accept(",")) { s += "," + positive(); }
            expect(">");
            return s + ">";
        }
        What w;
        std::string n = scoped(w);
        if (w != What::Struct && w != What::Union && w != What::Enum && w != What::Typedef) { fail("'" + n + "' isn't a type"); }
        return n;
    }
    std::string scoped(What& w)
    {
        bool abs = accept("::");
        std::vector<std::string> p{ident()};
        while (accept("::")) { p.push_back(ident()); }
        std::string n;
        if (abs) { Scope* r = s_; while (r->outer) { r = r->outer; } if (down(r, p, n, w)) { return n; } }
        else
        {
            for (Scope* s = s_; s; s = s->outer)
            {
                if (!s->syms.count(p[0])) { continue; }
                if (down(s, p, n, w)) { return n; }
                if (strict_) { break; }
            }
        }
        std::string t; for (auto& x : p) { t += (t.empty() && !abs ? "" : "::") + x; }
        fail("'" + t + "' isn't declared");
    }
    bool down(Scope* s, const std::vector<std::string>& p, std::string& n, What& w)
    {
        for (size_t i = 0; i + 1 < p.size(); ++i)
        {
            auto it = s->inner.find(p[i]);
            if (it == s->inner.end()) { return false; }
            s = it->second.get();
        }
        auto it = s->syms.find(p.back());
        if (it == s->syms.end()) { return false; }
        w = it->second; n = s->full(p.back());
        return true;
    }
    std::string value(std::string t)
    {
        while (r_.alias_of.count(t)) { t = r_.alias_of[t]; }
        const Tok& k = peek();
        auto e = r_.enums.find(t);
        if (e != r_.enums.end())
        {
            std::string n = ident();
            while (accept("::")) { n = ident(); }
            auto it = std::find(e->second.begin(), e->second.end(), n);
            if (it == e->second.end()) { fail("'" + n + "' isn't an enumerator"); }
            return n;
        }
        if (t == "boolean") { if (accept("TRUE")) { return "TRUE"; } if (accept("FALSE")) { return "FALSE"; } fail("expected a boolean"); }
        if (t == "char" || t == "wchar")
        {
            if (k.k != (t == "char" ? Tok::Chr : Tok::WChr)) { fail("expected a character"); }
            return "'" + v_[i_++].s + "'";
        }
        if (t.compare(0, 6, "string") == 0 || t.compare(0, 7, "wstring") == 0)
        {
            Tok::K want = t[0] == 'w' ? Tok::WStr : Tok::Str;
            if (k.k != want) { fail("expected a text"); }
            std::string s;
            while (peek().k == want) { s += v_[i_++].s; }
            return "\"" + s + "\"";
        }
        bool neg = accept("-");
        if (!neg) { accept("+"); }
        if (t == "float" || t == "double" || t == "long double")
        {
            if (peek().k != Tok::Float) { fail("expected a floating point number"); }
            return canon_float(t, (neg ? "-" : "") + v_[i_++].s);
        }
        if (peek().k != Tok::Int) { fail("expected a number"); }
        __int128 v = integer();
        if (neg) { v = -v; }
        static const std::map<std::string, std::pair<int, bool>> w = {{"int8", {8, true}}, {"int16", {16, true}}, {"int32", {32, true}}, {"int64", {64, true}}, {"uint8", {8, false}}, {"uint16", {16, false}}, {"uint32", {32, false}}, {"uint64", {64, false}}};
        auto it = w.find(t);
        if (it == w.end()) { fail("no value of type " + t); }
        __int128 lo = it->second.second ? -(__int128(1) << (it->second.first - 1)) : 0, hi = (__int128(1) << (it->second.first - (it->second.second ? 1 : 0))) - 1;
        if (v < lo || v > hi) { fail("the number " + canon_int(v) + " isn't of type " + t); }
        return canon_int(v);
    }
public:
    static std::string canon_float(const std::string& t, const std::string& text)
    {
        char b[80];
        if (t == "float") { std::snprintf(b, sizeof b, "%a", double(std::strtof(text.c_str(), nullptr))); }
        else if (t == "double") { std::snprintf(b, sizeof b, "%a", std::strtod(text.c_str(), nullptr)); }
        else { std::snprintf(b, sizeof b, "%La", std::strtold(text.c_str(), nullptr)); }
        return b;
    }
};

} // namespace idlread
