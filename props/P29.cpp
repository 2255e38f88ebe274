// P29: the IDL texts that several threads parse at the same time are parsed as if each was alone.
#include "idl_write.hpp"
#include "threads.hpp"
#include <xtypes/idl/idl.hpp>

using namespace idlwrite;

namespace {

struct Job
{
    std::string text;
    Config cfg;
    std::map<std::string, std::string> want;
    bool valid = true, file = false, own = false, preprocess = false, destroys = false;
    idl::log::LogLevel level = idl::log::LogLevel::xWARNING;
    std::string name;              // of its file
};

void configure(idl::Context& c, const Job& j)
{
    c.preprocess = j.preprocess;
    c.char_translation = j.cfg.chars == 0 ? idl::Context::CHAR : j.cfg.chars == 1 ? idl::Context::UINT8 : idl::Context::INT8;
    c.wchar_type = j.cfg.wide16 ? idl::Context::CHAR16_T : idl::Context::WCHAR_T;
    c.log_level(j.level);
}

// What a parse gives, as text
std::string result(const Job& j)
{
    std::ostringstream os;
    if (j.destroys) { idl::Parser::destroy(); }
    idl::Context c;
    configure(c, j);
    try
    {
        if (j.own)
        {
            auto p = std::make_shared<idl::Parser>();
            if (j.file) { p->parse_file(j.name, c); } else { p->parse_string(j.text, c); }
        }
        else if (j.file) { idl::parse_file(j.name, c); }
        else { idl::parse(j.text, c); }
        os << "parsed " << c.success << "\n";
    }
    catch (const std::exception& e) { os << "refused: " << e.what() << "\n"; }
    if (j.valid) { CHECK(c.success, "a valid text is refused: " << os.str()); compare(c.module(), j.want); }
    if (c.success)
    {
        for (auto& x : c.get_all_scoped_types()) { os << x.first << " " << x.second->name() << " = " << (j.valid ? definition(*x.second) : "") << "\n"; }
        try { os << idl::generator::module(c.module()) << "\n"; }
        catch (const std::exception& e) { os << "not generated: " << e.what() << "\n"; }
    }
    for (auto& e : c.log()) { os << "log " << e.to_string() << "\n"; }
    return os.str();
}

std::string g_dir;

void body(Tape& t)
{
    size_t n = 2 + t.index(3);
    std::vector<Job> jobs(n);
    size_t files = 0, shared = 0, defs = 0;
    bool preprocess = t.chance(1, 60);
    for (size_t i = 0; i < n; ++i)
    {
        Job& j = jobs[i];
        Writer w(t);
        w.cfg.chars = int(t.weighted({6, 1, 1}));
        w.cfg.wide16 = t.chance(1, 3);
        w.cfg.comments = t.chance(1, 3);
        j.valid = !t.chance(1, 4);
        if (!j.valid) { w.bad_at = t.range(1, 5); }
        w.definitions(w.root, t.range(1, 5));
        w.finish();
        if (!j.valid && w.wrong.empty()) { w.bad(w.root); }
        j.text = w.text();
        j.cfg = w.cfg;
        j.want = w.want;
        j.own = t.chance(1, 4);
        j.destroys = t.chance(1, 6);
        j.preprocess = preprocess && !j.own && j.valid && !w.cfg.comments;
        if (t.chance(1, 4)) { j.level = idl::log::LogLevel::xDEBUG; }
        if (t.chance(1, 8))
        {
            j.file = true;
            j.name = g_dir + "/" + std::to_string(getpid()) + "_" + std::to_string(i) + ".idl";
            std::ofstream(j.name, std::ios::binary) << j.text;
            ++files;
        }
        shared += !j.own;
        defs += j.want.size();
        NOTE(t, "thread " << i << (j.own ? " with its parser" : "") << (j.file ? " from a file" : "") << (j.preprocess ? " preprocessed" : "") << (j.destroys ? ", after destroy()" : "") << ":\n" << j.text << "\n----");
    }
    // sometimes the first thing that is done with the parser is to use it from the threads
    if (t.chance(1, 3)) { idl::Parser::destroy(); }
    std::vector<std::string> got(n);
    size_t rounds = t.chance(1, 10) ? 5 : 1;
    std::exception_ptr bad;
    try { together(n, [&](size_t i) { for (size_t k = 0; k < rounds; ++k) { got[i] = result(jobs[i]); } }); }
    catch (...) { bad = std::current_exception(); }
    for (size_t i = 0; i < n && !bad; ++i)
    {
        try
        {
            std::string alone = result(jobs[i]);
            CHECK(got[i] == alone, "thread " << i << " got:\n" << got[i] << "\nand alone it is:\n" << alone);
        }
        catch (...) { bad = std::current_exception(); }
    }
    for (auto& j : jobs) { if (j.file) { unlink(j.name.c_str()); } }
    if (bad) { std::rethrow_exception(bad); }
    t.label(shared > 1 ? "shared parser" : "own parsers");
    if (preprocess) { t.label("preprocessed"); }
    if (files) { t.label("files"); }
    if (shared > 1 && defs > 2) { t.nontrivial(); }
}

// ---- regressions
void first_use()
{
    for (int i = 0; i < 20; ++i)
    {
        idl::Parser::destroy();
        together(3, [&](size_t)
                {
                    idl::Context c;
                    c.preprocess = false;
                    idl::parse("struct S { long a; };", c);
                    compare(c.module(), {{"::S", "struct { int32 a; }"}});
                });
    }
}

}

int main(int argc, char** argv)
{
    try { std::locale::global(std::locale("C.UTF-8")); }
    catch (const std::runtime_error&) { std::fprintf(stderr, "no UTF-8 locale\n"); return 2; }
    char dir[] = "/tmp/xtypes-P29-XXXXXX";
    if (!mkdtemp(dir)) { std::fprintf(stderr, "no scratch directory\n"); return 2; }
    g_dir = dir;
    pbt::Property p;
    p.id = "P29";
    p.rule = "case: 2-4 threads, started at the same moment, each of which parses a random IDL text (some of them wrong, some from a file, few preprocessed) with the parser that all share or with its own, which may be destroyed "
        "meanwhile; what each declares is what its text says, and its types, logs, errors and generated IDL are those of the same parse alone; compiled with ThreadSanitizer. Non-trivial: two threads share the parser, and three declarations.";
    p.body = body;
    p.threads = true;
    p.quick_cases = 6000;
    p.thorough_cases = 300000;
    p.regressions = {{"R-first-use", "the first uses of the shared parser, by several threads", first_use}};
    p.assumptions = {"cpp-peglib, which the parser uses and is not installed here, is replaced by a stand-in written for this check.",
        "a case is one execution: ThreadSanitizer orders the accesses by happens-before, so a race is seen when both accesses are made, in whatever order"};
    int r = pbt::run_main(argc, argv, p);
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
    return r;
}
