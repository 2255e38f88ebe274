// A stand-in for the part of cpp-peglib that the parser of IDL uses (the library is not installed here and there is no
// network). It follows what cpp-peglib does: a grammar in text, rules and references marked with ~ make no node, a rule that
// has a token boundary or no references makes a leaf, and optimize_ast() replaces each node of one child by the child, which
// keeps the name of the replaced one as its original name.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <any>
#include <cassert>
#include <iostream>
#include <sstream>

namespace peg {

inline constexpr unsigned int str2tag_core(const char* s, size_t l, unsigned int h)
{
    return l == 0 ? h : str2tag_core(s + 1, l - 1, (h * 33) ^ static_cast<unsigned char>(*s));
}
inline constexpr unsigned int str2tag(std::string_view s) { return str2tag_core(s.data(), s.size(), 0); }

namespace udl {
inline constexpr unsigned int operator "" _(const char* s, size_t l) { return str2tag_core(s, l, 0); }
} // namespace udl

struct EmptyType {};

template<typename Annotation>
struct AstBase : public Annotation
{
    std::string path;
    size_t line = 1;
    size_t column = 1;
    std::string name;
    std::string original_name;
    unsigned int tag = 0;
    unsigned int original_tag = 0;
    bool is_token = false;
    std::string_view token;
    std::vector<std::shared_ptr<AstBase<Annotation>>> nodes;
};

// ---- The grammar
struct Node
{
    enum Kind { SEQ, CHOICE, REPEAT, AND, NOT, TOKEN, IGNORE, LITERAL, CLASS, ANY, REF } kind;
    std::vector<std::shared_ptr<Node>> sub;
    std::string text;
    std::vector<std::pair<uint32_t, uint32_t>> ranges;
    bool negated = false;
    size_t min = 0, max = 0;
    size_t rule = size_t(-1);
};
using NodeP = std::shared_ptr<Node>;

struct Grammar;

struct Definition
{
    struct Result { bool ret; size_t len; };

    std::string name;
    NodeP body;
    bool ignored = false;
    bool token = false;
    const Grammar* grammar = nullptr;
    size_t index = 0;

    inline Result parse(const char* s) const;
};

struct Grammar
{
    using Tree = AstBase<EmptyType>;
    std::vector<Definition> rules;
    std::map<std::string, size_t> index;
    std::string error;

    // ---- reading
    const char* p = nullptr;
    const char* end = nullptr;

    void blanks()
    {
        for (;;)
        {
            while (p < end && (*p == ' ' || *p == '\t' || *p == '\r' || *p == '\n')) { ++p; }
            if (p < end && *p == '#') { while (p < end && *p != '\n') { ++p; } }
            else { return; }
        }
    }
    static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
    static bool alnum(char c) { return alpha(c) || (c >= '0' && c <= '9'); }
    std::string word()
    {
        const char* b = p;
        while (p < end && alnum(*p)) { ++p; }
        return std::string(b, p);
    }
    // The start of a rule: an identifier before an arrow
    bool at_rule()
    {
        const char* b = p;
        if (p < end && *p == '~') { ++p; blanks(); }
        bool yes = false;
        if (p < end && alpha(*p)) { word(); blanks(); yes = end - p >= 2 && p[0] == '<' && p[1] == '-'; }
        p = b;
        return yes;
    }
    uint32_t character()
    {
        if (*p != '\\') { uint32_t c; size_t l = decode(p, end, c); if (l == 0) { throw std::runtime_error("grammar: character"); } p += l; return c; }
        ++p;
        char c = *p++;
        switch (c)
        {
            case 'n': return '\n';
            case 'r': return '\r';
            case 't': return '\t';
            case 'f': return '\f';
            case 'v': return '\v';
            default: return static_cast<unsigned char>(c);
        }
    }
    static void put(std::string& s, uint32_t c)
    {
        if (c < 0x80) { s += char(c); }
        else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
        else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    }
    static size_t decode(const char* s, const char* e, uint32_t& c)
    {
        if (s >= e) { return 0; }
        unsigned char b = static_cast<unsigned char>(*s);
        size_t l = b < 0x80 ? 1 : (b & 0xe0) == 0xc0 ? 2 : (b & 0xf0) == 0xe0 ? 3 : (b & 0xf8) == 0xf0 ? 4 : 0;
        if (l == 0 || size_t(e - s) < l) { return 0; }
        c = l == 1 ? b : b & (0x7f >> l);
        for (size_t i = 1; i < l; ++i)
        {
            unsigned char x = static_cast<unsigned char>(s[i]);
            if ((x & 0xc0) != 0x80) { return 0; }
            c = c << 6 | (x & 63);
        }
        return l;
    }
    NodeP make(Node::Kind k) { NodeP n = std::make_shared<Node>(); n->kind = k; return n; }
    NodeP choice()
    {
        NodeP n = make(Node::CHOICE);
        n->sub.push_back(sequence());
        blanks();
        while (p < end && *p == '/') { ++p; n->sub.push_back(sequence()); blanks(); }
        return n->sub.size() == 1 ? n->sub[0] : n;
    }
    NodeP sequence()
    {
        NodeP n = make(Node::SEQ);
        for (;;)
        {
            blanks();
            if (p >= end || *p == '/' || *p == ')' || *p == '>' || at_rule()) { break; }
            n->sub.push_back(prefix());
        }
        return n->sub.size() == 1 ? n->sub[0] : n;
    }
    NodeP prefix()
    {
        if (*p == '!' || *p == '&' || *p == '~')
        {
            NodeP n = make(*p == '!' ? Node::NOT : *p == '&' ? Node::AND : Node::IGNORE);
            ++p;
            blanks();
            n->sub.push_back(suffix());
            return n;
        }
        return suffix();
    }
    NodeP suffix()
    {
        NodeP n = primary();
        blanks();
        if (p < end && (*p == '?' || *p == '*' || *p == '+'))
        {
            NodeP r = make(Node::REPEAT);
            r->min = *p == '+' ? 1 : 0;
            r->max = *p == '?' ? 1 : size_t(-1);
            r->sub.push_back(n);
            ++p;
            return r;
        }
        return n;
    }
    NodeP primary()
    {
        if (*p == '(' || *p == '<')
        {
            char open = *p++;
            NodeP in = choice();
            blanks();
            if (p >= end || *p != (open == '(' ? ')' : '>')) { throw std::runtime_error("grammar: unclosed group"); }
            ++p;
            if (open == '(') { return in; }
            NodeP n = make(Node::TOKEN);
            n->sub.push_back(in);
            return n;
        }
        if (*p == '"' || *p == '\'')
        {
            char q = *p++;
            NodeP n = make(Node::LITERAL);
            while (p < end && *p != q) { put(n->text, character()); }
            ++p;
            return n;
        }
        if (*p == '[')
        {
            ++p;
            NodeP n = make(Node::CLASS);
            if (*p == '^') { n->negated = true; ++p; }
            while (p < end && *p != ']')
            {
                uint32_t a = character(), b = a;
                if (p + 1 < end && *p == '-' && p[1] != ']') { ++p; b = character(); }
                n->ranges.push_back({a, b});
            }
            ++p;
            return n;
        }
        if (*p == '.') { ++p; return make(Node::ANY); }
        if (alpha(*p)) { NodeP n = make(Node::REF); n->text = word(); return n; }
        throw std::runtime_error(std::string("grammar: unexpected ") + *p);
    }
    static void look(const Node& n, bool& boundary, bool& refers)
    {
        if (n.kind == Node::TOKEN) { boundary = true; }
        if (n.kind == Node::REF) { refers = true; }
        for (auto& s : n.sub) { look(*s, boundary, refers); }
    }
    void link(Node& n)
    {
        if (n.kind == Node::REF)
        {
            auto it = index.find(n.text);
            if (it == index.end()) { throw std::runtime_error("grammar: no rule " + n.text); }
            n.rule = it->second;
        }
        for (auto& s : n.sub) { link(*s); }
    }
    explicit Grammar(const char* text)
        : p(text), end(text + std::strlen(text))
    {
        blanks();
        while (p < end)
        {
            Definition d;
            if (*p == '~') { d.ignored = true; ++p; blanks(); }
            d.name = word();
            blanks();
            if (d.name.empty() || end - p < 2 || p[0] != '<' || p[1] != '-') { throw std::runtime_error("grammar: expected a rule after " + (rules.empty() ? "" : rules.back().name)); }
            p += 2;
            d.body = choice();
            d.index = rules.size();
            if (!index.emplace(d.name, d.index).second) { throw std::runtime_error("grammar: repeated rule " + d.name); }
            rules.push_back(std::move(d));
            blanks();
        }
        for (auto& r : rules)
        {
            r.grammar = this;
            link(*r.body);
            bool boundary = false, refers = false;
            look(*r.body, boundary, refers);
            r.token = boundary || !refers;
        }
    }
    Grammar(const Grammar&) = delete;

    // ---- parsing
    struct Values
    {
        std::vector<std::shared_ptr<Tree>> nodes;
        std::vector<std::string_view> tokens;
    };
    struct Run
    {
        const Grammar& g;
        const char* s;
        const char* e;
        bool trees;
        std::vector<const char*> lines;
        const char* far;
        size_t deep = 0;

        Run(const Grammar& g, const char* s, size_t n, bool trees)
            : g(g), s(s), e(s + n), trees(trees), far(s)
        {
            lines.push_back(s);
            if (trees) { for (const char* c = s; c < e; ++c) { if (*c == '\n') { lines.push_back(c + 1); } } }
        }
        static constexpr size_t FAIL = size_t(-1);

        std::pair<size_t, size_t> place(const char* at) const
        {
            auto it = std::upper_bound(lines.begin(), lines.end(), at) - 1;
            return {size_t(it - lines.begin()) + 1, size_t(at - *it) + 1};
        }
        size_t rule(const Definition& d, const char* at, Values& v)
        {
            Values in;
            if (++deep > 3000) { throw std::runtime_error("peg: too deep"); }
            size_t l = parse(*d.body, at, in);
            --deep;
            if (l == FAIL || d.ignored || !trees) { return l; }
            auto t = std::make_shared<Tree>();
            auto where = place(at);
            t->line = where.first;
            t->column = where.second;
            t->name = t->original_name = d.name;
            t->tag = t->original_tag = str2tag(d.name);
            t->is_token = d.token;
            if (d.token) { t->token = in.tokens.empty() ? std::string_view(at, l) : in.tokens[0]; }
            else { t->nodes = std::move(in.nodes); }
            v.nodes.push_back(t);
            return l;
        }
        size_t parse(const Node& n, const char* at, Values& v)
        {
            switch (n.kind)
            {
                case Node::SEQ:
                {
                    size_t nodes = v.nodes.size(), tokens = v.tokens.size(), l = 0;
                    for (auto& x : n.sub)
                    {
                        size_t k = parse(*x, at + l, v);
                        if (k == FAIL) { v.nodes.resize(nodes); v.tokens.resize(tokens); return FAIL; }
                        l += k;
                    }
                    return l;
                }
                case Node::CHOICE:
                    for (auto& x : n.sub)
                    {
                        size_t k = parse(*x, at, v);
                        if (k != FAIL) { return k; }
                    }
                    return FAIL;
                case Node::REPEAT:
                {
                    size_t l = 0, times = 0;
                    while (times < n.max)
                    {
                        size_t k = parse(*n.sub[0], at + l, v);
                        if (k == FAIL) { break; }
                        l += k;
                        ++times;
                        if (k == 0) { break; }
                    }
                    return times < n.min ? FAIL : l;
                }
                case Node::AND: { Values in; return parse(*n.sub[0], at, in) == FAIL ? FAIL : 0; }
                case Node::NOT: { Values in; return parse(*n.sub[0], at, in) == FAIL ? 0 : FAIL; }
                case Node::IGNORE: { Values in; return parse(*n.sub[0], at, in); }
                case Node::TOKEN:
                {
                    size_t tokens = v.tokens.size();
                    size_t l = parse(*n.sub[0], at, v);
                    if (l != FAIL) { v.tokens.insert(v.tokens.begin() + tokens, std::string_view(at, l)); v.tokens.resize(tokens + 1); }
                    return l;
                }
                case Node::LITERAL:
                    if (size_t(e - at) < n.text.size() || std::memcmp(at, n.text.data(), n.text.size()) != 0) { return fail(at); }
                    return n.text.size();
                case Node::CLASS:
                {
                    uint32_t c;
                    size_t l = decode(at, e, c);
                    if (l == 0) { return fail(at); }
                    bool in = false;
                    for (auto& r : n.ranges) { in = in || (r.first <= c && c <= r.second); }
                    return in != n.negated ? l : fail(at);
                }
                case Node::ANY: { uint32_t c; size_t l = decode(at, e, c); return l == 0 ? fail(at) : l; }
                case Node::REF: return rule(g.rules[n.rule], at, v);
            }
            return FAIL;
        }
        size_t fail(const char* at)
        {
            if (at > far) { far = at; }
            return FAIL;
        }
    };
};

inline Definition::Result Definition::parse(const char* s) const
{
    size_t n = std::strlen(s);
    Grammar::Run r(*grammar, s, n, false);
    Grammar::Values v;
    size_t l = r.rule(*this, s, v);
    return Result{l == n, l == Grammar::Run::FAIL ? 0 : l};
}

class parser
{
public:

    parser() {}

    explicit parser(const char* text) { load_grammar(text); }

    bool load_grammar(const char* text)
    {
        grammar_ = std::make_shared<Grammar>(text);
        by_name_.clear();
        for (auto& r : grammar_->rules) { by_name_.emplace(r.name, r); }
        return true;
    }

    template<typename T = EmptyType>
    parser& enable_ast() { return *this; }

    template<typename F>
    void set_logger(F log)
    {
        if constexpr (std::is_invocable<F, size_t, size_t, const std::string&>::value) { log_ = log; }
        else { log_ = [log](size_t l, size_t c, const std::string& m) { log(l, c, m, ""); }; }
    }

    template<typename T>
    bool parse(const char* s, std::shared_ptr<AstBase<T>>& ast) const
    {
        size_t n = std::strlen(s);
        Grammar::Run r(*grammar_, s, n, true);
        Grammar::Values v;
        size_t l = r.rule(grammar_->rules[0], s, v);
        if (l != n)
        {
            auto where = r.place(r.far);
            if (log_) { log_(where.first, where.second, "syntax error"); }
            return false;
        }
        ast = v.nodes.at(0);
        return true;
    }

    template<typename T>
    std::shared_ptr<T> optimize_ast(std::shared_ptr<T> ast, bool = true) const
    {
        if (ast->nodes.size() == 1)
        {
            auto copy = std::make_shared<T>(*optimize_ast(ast->nodes[0]));
            copy->original_name = ast->name;
            copy->original_tag = str2tag(ast->name);
            return copy;
        }
        auto copy = std::make_shared<T>(*ast);
        for (auto& n : copy->nodes) { n = optimize_ast(n); }
        return copy;
    }

    const std::map<std::string, Definition>& get_grammar() const { return by_name_; }

private:

    std::shared_ptr<Grammar> grammar_;
    std::map<std::string, Definition> by_name_;
    std::function<void(size_t, size_t, const std::string&)> log_;
};

} // namespace peg
