// P30: the log and the errors of the parser tell what is wrong, and where.
#include "idl_write.hpp"
#include <xtypes/idl/idl.hpp>

using namespace idlwrite;
using idl::log::LogLevel;

namespace {

void configure(idl::Context& c, const Config& cfg)
{
    c.preprocess = false;
    c.char_translation = cfg.chars == 0 ? idl::Context::CHAR : cfg.chars == 1 ? idl::Context::UINT8 : idl::Context::INT8;
    c.wchar_type = cfg.wide16 ? idl::Context::CHAR16_T : idl::Context::WCHAR_T;
    c.allow_keyword_identifiers = cfg.raw;
    c.ignore_case = cfg.ignore_case;
    c.ignore_redefinition = cfg.redefine;
}

struct Got
{
    bool success = false, threw = false, located = false;
    std::string what, message;             // of the exception
    size_t line = 0, column = 0;
    std::string types, printed;
    int result = -1;                       // what parse() returns, if it returns
    std::vector<idl::log::LogEntry> log;
};

// The text that something writes in the standard output
struct Output
{
    std::ostringstream os;
    std::streambuf* old;
    Output() : old(std::cout.rdbuf(os.rdbuf())) {}
    ~Output() { std::cout.rdbuf(old); }
};

std::string types_of(idl::Context& c)
{
    std::string r;
    for (auto& x : c.get_all_scoped_types()) { r += x.first + " = " + definition(*x.second) + "\n"; }
    return r;
}

// `way`: which of the functions that parse a text is called
Got parse(const std::string& text, const Config& cfg, LogLevel level, bool print, idl::Context& c, int way = 0)
{
    Got g;
    configure(c, cfg);
    c.log_level(level);
    c.print_log(print);
    CHECK(c.log_level() == level, "log_level() isn't the level that was set");
    {
        Output out;
        try
        {
            if (way == 0) { CHECK(&idl::parse(text, c) == &c, "parse() doesn't return the context that it was given"); }
            else if (way == 1) { g.result = idl::Parser::instance()->parse(text, c); }
            else { g.result = idl::Parser::instance()->parse_string(text, c); }
        }
        catch (const idl::Parser::exception& e)
        {
            g.threw = g.located = true; g.what = e.what(); g.message = e.message(); g.line = e.ast().line; g.column = e.ast().column;
        }
        catch (const std::exception& e) { g.threw = true; g.what = e.what(); }
        g.printed = out.os.str();
    }
    g.success = c.success;
    g.types = types_of(c);
    CHECK(g.result == -1 || g.result == int(g.success), "the result of parsing is " << g.result << ", and the context tells " << g.success);
    g.log = c.log();
    return g;
}

std::string show(const idl::log::LogEntry& e)
{
    return e.path + ":" + std::to_string(e.line) + ":" + std::to_string(e.column) + " " + std::to_string(int(e.level)) + " " + e.category + " " + e.message;
}
std::vector<std::string> show(const std::vector<idl::log::LogEntry>& v)
{
    std::vector<std::string> r;
    for (auto& e : v) { r.push_back(show(e)); }
    return r;
}
std::vector<idl::log::LogEntry> select(const std::vector<idl::log::LogEntry>& v, LogLevel level, bool strict)
{
    std::vector<idl::log::LogEntry> r;
    for (auto& e : v) { if (e.level == level || (!strict && int(e.level) < int(level))) { r.push_back(e); } }
    return r;
}
std::string line_of(const idl::log::LogEntry& e)
{
    static const char* names[] = {"ERROR", "WARNING", "INFO", "DEBUG"};
    return std::string("[") + names[int(e.level)] + "] " + e.category + ": " + e.message;
}

void judge(const std::string& text, const Writer& w, bool invalid, Tape& t)
{
    static const LogLevel levels[] = {LogLevel::xERROR, LogLevel::xWARNING, LogLevel::xINFO, LogLevel::xDEBUG};
    const Config& cfg = w.cfg;
    idl::Context all;
    Got g = parse(text, cfg, LogLevel::xDEBUG, false, all);
    CHECK(g.printed.empty(), "something was printed, but print_log() is false: " << g.printed);
    CHECK(!g.log.empty(), "the log is empty");
    for (auto& e : g.log)
    {
        CHECK(e.to_string() == line_of(e), "the text of an entry is \"" << e.to_string() << "\", should be \"" << line_of(e) << "\"");
        CHECK(!e.category.empty(), "an entry without category: " << show(e));
    }

    // what is selected
    for (LogLevel level : levels)
    {
        CHECK(show(all.log(level)) == show(select(g.log, level, false)), "log(" << int(level) << ") isn't the entries of that level and of the more severe ones");
        CHECK(show(all.log(level, true)) == show(select(g.log, level, true)), "log(" << int(level) << ", true) isn't the entries of that level");
    }

    // the level of the log
    LogLevel level = levels[t.index(4)];
    bool print = t.chance(1, 2);
    idl::Context some;
    Got h = parse(text, cfg, level, print, some, int(t.index(3)));
    CHECK(h.success == g.success && h.threw == g.threw && h.what == g.what && h.types == g.types, "what is parsed depends on the level of the log");
    CHECK(show(h.log) == show(select(g.log, level, false)), "with the level " << int(level) << " the log has " << h.log.size() << " entries, should have " << select(g.log, level, false).size());
    std::string lines;
    if (print) { for (auto& e : h.log) { lines += line_of(e) + "\n"; } }
    CHECK(h.printed == lines, "what is printed is:\n" << h.printed << "should be:\n" << lines);

    // the level that nobody sets is that of the warnings
    if (t.chance(1, 4))
    {
        idl::Context c;
        CHECK(c.log_level() == LogLevel::xWARNING, "the level of the log isn't WARNING by default");
        configure(c, cfg);
        Output out;
        try { idl::parse(text, c); } catch (const std::exception&) {}
        CHECK(show(c.log()) == show(select(g.log, LogLevel::xWARNING, false)), "by default the log isn't that of the warnings");
        CHECK(out.os.str().empty(), "the log is printed by default");
    }

    // without a context: one by default is given
    if (t.chance(1, 4) && cfg.chars == 0 && !cfg.wide16 && !cfg.raw && !cfg.ignore_case && !cfg.redefine)
    {
        bool threw = false;
        try
        {
            idl::Context c = idl::Parser::instance()->parse(text);
            CHECK(c.success == g.success && types_of(c) == g.types, "what is parsed without a context differs");
        }
        catch (const pbt::Failure&) { throw; }
        catch (const std::exception& e) { threw = true; CHECK(e.what() == g.what, "parsing without a context fails otherwise: " << e.what()); }
        CHECK(threw == g.threw, "parsing without a context should fail, and doesn't");
    }

    std::vector<idl::log::LogEntry> bad = select(g.log, LogLevel::xWARNING, false);
    if (!invalid)
    {
        CHECK(g.success && !g.threw, "a valid text is refused: " << g.what);
        size_t next = 0;
        for (auto& e : bad)
        {
            CHECK(e.level == LogLevel::xWARNING, "a valid text leaves an error in the log: " << show(e));
            while (next < w.odds.size() && w.lines[w.odds[next].first] < e.line) { ++next; }
            bool odd = false;
            for (auto& o : w.odds) { odd = odd || w.lines[o.first] == e.line; }
            CHECK(odd, "something right leaves a warning in the log: " << show(e));
        }
        for (auto& o : w.odds)
        {
            bool warned = false;
            for (auto& e : bad) { warned = warned || w.lines[o.first] == e.line; }
            CHECK(warned, "there isn't a warning of the literal " << w.tokens[o.first] << ", of the line " << w.lines[o.first]);
        }
        // what is ignored is in the log
        if (w.kinds.count("redefinition"))
        {
            size_t n = 0;
            for (auto& e : g.log) { n += e.level == LogLevel::xINFO && e.category == "REDEFINITION"; }
            CHECK(n >= size_t(w.kinds.at("redefinition")), n << " redefinitions in the log, should be " << w.kinds.at("redefinition"));
        }
        return;
    }

    // what is wrong
    CHECK(g.threw || !g.success, "a text with a wrong definition is accepted: " << w.wrong);
    CHECK(!g.success, "a context tells that a refused text was parsed");
    size_t from = w.wrong_from == 0 ? 1 : w.lines[w.wrong_from], to = w.lines[w.wrong_to - 1];
    size_t first = w.wrong_from == 0 ? 0 : w.offsets[w.wrong_from], last = w.offsets[w.wrong_to - 1] + w.tokens[w.wrong_to - 1].size();
    auto inside = [&](size_t line, size_t column)
            {
                size_t begin = 0;
                for (size_t i = 1; i < line; ++i) { begin = text.find('\n', begin) + 1; }
                size_t end = std::min(text.find('\n', begin), text.size());
                for (size_t i = begin; i < end; ++i) { if (text[i] & 0x80) { return true; } }      // the columns can be of characters
                return column >= 1 && begin + column - 1 >= first && begin + column - 1 <= last;
            };
    if (g.located)
    {
        t.label("where");
        CHECK(inside(g.line, g.column), "the error is told at " << g.line << ":" << g.column << ", which isn't in the wrong definition: " << g.what);
        CHECK(g.line >= from && g.line <= to, "the error is told at the line " << g.line << ", should be in " << from << "-" << to << ": " << g.what);
        std::string place = "Parser exception (<no file>:" + std::to_string(g.line) + ":" + std::to_string(g.column) + "): ";
        CHECK(g.what == place + g.message, "the text of the exception is \"" << g.what << "\", should be \"" << place + g.message << "\"");
        CHECK(!g.message.empty(), "an exception without message");
    }
    if (g.threw && g.located)
    {
        std::vector<idl::log::LogEntry> errors = select(g.log, LogLevel::xERROR, false);
        CHECK(!errors.empty(), "an error isn't in the log: " << g.what);
        CHECK(errors.size() == 1, "a wrong definition leaves " << errors.size() << " errors in the log");
        CHECK(errors[0].line >= from && errors[0].line <= to, "the log tells the error at the line " << errors[0].line << ", should be in " << from << "-" << to);
        CHECK(inside(errors[0].line, errors[0].column), "the log tells the error at " << errors[0].line << ":" << errors[0].column << ", which isn't in the wrong definition: " << g.what);
        CHECK(errors[0].message == g.message, "the log tells \"" << errors[0].message << "\", and the exception \"" << g.message << "\"");
    }
    if (!g.threw)
    {
        bool told = false;
        for (auto& e : g.log) { told = told || (e.category == "PEGLIB_PARSER" && !e.message.empty()); }
        CHECK(told, "the log doesn't tell why the grammar refuses the text");
        t.label("grammar");
    }
}

void body(Tape& t)
{
    Writer w(t);
    w.cfg.chars = int(t.weighted({6, 1, 1}));
    w.cfg.wide16 = t.chance(1, 3);
    w.cfg.comments = t.chance(3, 4);
    w.cfg.raw = t.chance(1, 10);
    w.cfg.ignore_case = t.chance(1, 10);
    bool invalid = t.chance(1, 2);
    w.cfg.redefine = !invalid && t.chance(1, 6);
    if (invalid) { w.bad_at = t.range(1, 6); }
    else if (t.chance(1, 2)) { w.odd_count = t.range(1, 3); }
    w.definitions(w.root, t.range(1, 6));
    w.finish();
    if (invalid && w.wrong.empty()) { w.bad(w.root); }
    std::string text = w.text();
    if (t.chance(1, 6))
    {
        // far from the beginning
        std::string front = std::string(t.index(400), '\n') + std::string(t.index(400), ' ');
        size_t rows = size_t(std::count(front.begin(), front.end(), '\n'));
        text = front + text;
        for (size_t& x : w.lines) { x += rows; }
        for (size_t& x : w.offsets) { x += front.size(); }
        t.label("far");
    }
    NOTE(t, "text:\n" << text << "\n----");
    judge(text, w, invalid, t);
    if (invalid) { t.label("wrong"); }
    for (auto& k : w.kinds) { t.label(k.first.c_str()); }
    if (w.want.size() >= 2 && (invalid || !w.odds.empty() || w.cfg.redefine)) { t.nontrivial(); }
}

}

int main(int argc, char** argv)
{
    try { std::locale::global(std::locale("C.UTF-8")); }
    catch (const std::runtime_error&) { std::fprintf(stderr, "no UTF-8 locale\n"); return 2; }
    pbt::Property p;
    p.id = "P30";
    p.rule = "case: a random IDL text that is right, has literals of other kind than their types, or has a wrong definition at a known place, parsed with the log at several levels, printed or not. Non-trivial: two declarations, and "
        "something that the log must tell.";
    p.body = body;
    p.quick_cases = 40000;
    p.thorough_cases = 1000000;
    p.assumptions = {"cpp-peglib, which the parser uses and is not installed here, is replaced by a stand-in written for this check."};
    return pbt::run_main(argc, argv, p);
}
