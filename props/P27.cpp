// P27: the preprocessor gets the text or the file that the user gives, whatever is in it.
#include "idl_write.hpp"
#include <xtypes/idl/idl.hpp>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace idlwrite;

namespace {

// The texts go through a shell: everything runs in a scratch directory, as a user that has nothing else, and the only command in the texts is echo.
std::string g_scratch;

std::string read_all(int fd)
{
    std::string s;
    char b[65536];
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) { s.append(b, size_t(n)); }
    return s;
}
// What f returns in a process without privileges, whose directory is a new one
std::string apart(const std::function<std::string()>& f)
{
    std::string dir = g_scratch + "/XXXXXX";
    CHECK(mkdtemp(dir.data()), "no scratch directory");
    bool root = geteuid() == 0;
    // (where that isn't allowed, it runs as it is: the texts have nothing harmful)
    if (root && chown(dir.c_str(), 65534, 65534) != 0) { root = false; }
    int p[2];
    CHECK(pipe(p) == 0, "no pipe");
    pid_t pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        std::string r;
        if (chdir(dir.c_str()) != 0) { r = "no scratch directory"; }
        else
        {
            if (root && (setgid(65534) != 0 || setuid(65534) != 0)) { std::fputs("the privileges cannot be dropped\n", stderr); }
            setenv("TMPDIR", dir.c_str(), 1);
            fcntl(p[1], F_SETFD, FD_CLOEXEC);
            int null = open("/dev/null", O_RDWR);
            dup2(null, 0);
            try { r = f(); }
            catch (const pbt::Failure& e) { r = e.msg; }
            catch (const std::exception& e) { r = std::string("unexpected exception: ") + e.what(); }
        }
        for (size_t i = 0; i < r.size();) { ssize_t n = write(p[1], r.data() + i, r.size() - i); if (n <= 0) { break; } i += size_t(n); }
        _exit(0);
    }
    close(p[1]);
    std::string r = read_all(p[0]);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status " << st);
    return r;
}
// The output of the preprocessor, called without a shell
std::string cpp(const std::string& file, const std::vector<std::string>& includes)
{
    std::vector<std::string> a = {"cpp"};
    for (auto& i : includes) { a.push_back("-I" + i); }
    a.push_back(file);
    std::vector<char*> v;
    for (auto& x : a) { v.push_back(x.data()); }
    v.push_back(nullptr);
    int p[2];
    CHECK(pipe(p) == 0, "no pipe");
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(p[1], 1);
        close(p[0]); close(p[1]);
        int null = open("/dev/null", O_RDWR);
        dup2(null, 0); dup2(null, 2);
        execvp("cpp", v.data());
        _exit(127);
    }
    close(p[1]);
    std::string s = read_all(p[0]);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 127), "there is no preprocessor");
    return s;
}
// Without line markers, which have the names of the files
std::string plain(const std::string& s)
{
    std::istringstream is(s);
    std::string l, r;
    while (std::getline(is, l)) { if (l.compare(0, 2, "# ") != 0) { r += l + "\n"; } }
    while (!r.empty() && isspace((unsigned char)r.back())) { r.pop_back(); }
    return r;
}
void file(const std::string& name, const std::string& text)
{
    std::ofstream f(name, std::ios::binary);
    f << text;
    f.close();
    CHECK(f, "a file cannot be written");
}
size_t files()
{
    size_t n = 0;
    for (auto& e : std::filesystem::recursive_directory_iterator(".")) { (void)e; ++n; }
    return n;
}

struct Include { std::string dir, name, text; };

std::string shorten(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

// The text through each way to preprocess it
std::string check_text(const std::string& text, const std::vector<Include>& incs)
{
    std::vector<std::string> paths;
    for (auto& i : incs) { mkdir(i.dir.c_str(), 0700); file(i.dir + "/" + i.name, i.text); paths.push_back(i.dir); }
    file("reference.idl", text);
    std::string want = plain(cpp("reference.idl", paths));
    size_t before = files();
    for (auto s : {idl::Context::preprocess_strategy::pipe_stdin, idl::Context::preprocess_strategy::temporary_file})
    {
        idl::Context c;
        c.strategy = s;
        c.include_paths = paths;
        std::string got = plain(c.preprocess_string(text));
        if (got != want)
        {
            size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i]) { ++i; }
            size_t b = i > 20 ? i - 20 : 0;
            FAIL("preprocessed with strategy " << int(s) << ", from byte " << b << " of " << got.size() << ": \"" << shorten(got.substr(b)) << "\", should be (of " << want.size() << ") \"" << shorten(want.substr(b)) << "\"");
        }
        CHECK(files() == before, "preprocessing leaves a file, or removes one");
    }
    return "";
}
// The text through preprocessors that give it as it is, nothing, or part of it
std::string check_other(const std::string& text)
{
    struct Other { const char* exec; std::string want; };
    for (const Other& o : {Other{"cat", plain(text)}, Other{"false", ""}, Other{"true", ""}, Other{"./missing", ""}, Other{"head -n 3", ""}})
    {
        for (auto s : {idl::Context::preprocess_strategy::pipe_stdin, idl::Context::preprocess_strategy::temporary_file})
        {
            size_t before = files();
            idl::Context c;
            c.strategy = s;
            c.preprocessor_exec = o.exec;
            std::string got = c.preprocess_string(text);
            CHECK(files() == before, "the preprocessor '" << o.exec << "' with strategy " << int(s) << " leaves a file");
            CHECK(o.exec[0] == 'h' || plain(got) == o.want, "the preprocessor '" << o.exec << "' with strategy " << int(s) << " gives \"" << shorten(got) << "\"");
        }
    }
    return "";
}
// A file through preprocess() and preprocess_file()
std::string check_file(const std::string& name, const std::string& text, const std::vector<Include>& incs)
{
    std::vector<std::string> paths;
    for (auto& i : incs) { mkdir(i.dir.c_str(), 0700); file(i.dir + "/" + i.name, i.text); paths.push_back(i.dir); }
    file(name, text);
    std::string want = plain(cpp(name, paths));
    size_t before = files();
    CHECK(plain(idl::preprocess(name, paths)) == want, "preprocess() of the file '" << name << "' differs: \"" << shorten(plain(idl::preprocess(name, paths))) << "\", should be \"" << shorten(want) << "\"");
    idl::Context c;
    c.include_paths = paths;
    CHECK(plain(c.preprocess_file(name)) == want, "preprocess_file() of the file '" << name << "' differs");
    CHECK(files() == before, "preprocessing leaves a file, or removes one");
    return "";
}
// A text of IDL, parsed from a string or from a file that may include it
std::string check_parse(const std::string& name, const std::string& text, size_t how, const std::vector<Include>& incs, const std::map<std::string, std::string>& want)
{
    idl::Context c;
    for (auto& i : incs) { mkdir(i.dir.c_str(), 0700); file(i.dir + "/" + i.name, i.text); c.include_paths.push_back(i.dir); }
    if (how == 2 || how == 3 || how == 5) { file(name, text); }
    size_t before = files();
    try
    {
        switch (how)
        {
            case 0: idl::parse(text, c); break;
            case 1: c.strategy = idl::Context::preprocess_strategy::temporary_file; idl::parse(text, c); break;
            case 2: idl::parse_file(name, c); break;
            case 3: c.preprocess = false; idl::parse_file(name, c); break;
            default:
            {
                // without a context
                bool from_file = how == 5;
                idl::Context d = from_file ? idl::parse_file(name) : idl::parse(text);
                CHECK(d.success, "a valid text is refused");
                compare(d.module(), want);
                CHECK(files() == before, "parsing leaves a file, or removes one");
                return "";
            }
        }
    }
    catch (const pbt::Failure&) { throw; }
    catch (const std::exception& e) { FAIL("a valid text is refused: " << e.what()); }
    CHECK(c.success, "a valid text is refused");
    compare(c.module(), want);
    CHECK(files() == before, "parsing leaves a file, or removes one");
    try { idl::parse_file(name + ".missing", c); }
    catch (const std::exception&) {}
    CHECK(!c.success, "a file that isn't there is parsed with success");
    compare(c.module(), {});
    CHECK(files() == before, "parsing leaves a file, or removes one");
    return "";
}

std::string odd_name(Tape& t, const std::string& end)
{
    static const std::vector<std::string> v = {"a", "b c", "x'y", "$HOME", "`echo z`", "a;b", "a&b", "(a)", "a|b", "\\n", "%s", "*", "a\"b", "#a", "~", "-", "!a", "\xC3\xA1", "$(echo q)"};
    std::string n = "f";
    for (size_t i = t.index(3); i > 0; --i) { n += t.pick(v); }
    return n + end;
}
std::string odd_text(Tape& t, bool& has_include)
{
    static const std::vector<std::string> v = {
        "$HOME", "$(echo x)", "`echo y`", "${X}", "$1", "$$", "\\", "\\\\", "\\n", "\\c", "\\0101", "\\\"", "'", "\"", "';'", "\"\"", ";", "&&", "&", "|", "%s", "%d", "%%", "%", "!", "*", "~", "<", ">", "(", ")", "{", "}", "?", "-n", "-e", "=",
        "struct S", "long a", "const string A = \"a\\\"b\"", "\"$A\"", "'a'", "'\\''", "L\"\\\\\"", "// it's", "/* \" */", "@a", "#", "##", "\xC3\xA9", "\t", "M", "N(3)", "x", "echo"};
    static const std::vector<std::string> lines = {"#define M 3", "#define N(a) \"a\" #a a", "#undef M", "#ifdef M", "#else", "#endif", "#pragma x 'y", "#if 1 + 1 == 2", "#define M `echo m`"};
    std::string s;
    for (size_t n = t.range(1, 24); n > 0; --n)
    {
        switch (t.weighted({8, 4, 1, 1}))
        {
            case 0: s += t.pick(v); break;
            case 1: s += t.chance(1, 2) ? " " : "\n"; break;
            case 2: s += "\n" + t.pick(lines) + "\n"; break;
            default: s += t.chance(1, 2) ? "\n#include \"inc.idl\"\n" : "\n#include <inc.idl>\n"; has_include = true;
        }
    }
    if (t.chance(1, 40))
    {
        // a long one
        std::string more;
        size_t size = size_t(t.range(1, 5)) * 40000;
        std::string unit = t.chance(1, 2) ? "'" : "long x = 'a'; // it is \"long\"\n";
        while (more.size() < size) { more += unit; if (more.size() % 64 == 0) { more += "\n"; } }
        s += "\n" + more;
        t.label("long");
    }
    return s + "\n";
}

// The same text with other lines: long ones, a single one, other ends
std::string other_lines(Tape& t, const std::string& text, bool comments)
{
    std::string r;
    switch (t.weighted({3, 2, 1, 1}))
    {
        case 0: return text;
        case 1:
            for (char c : text)
            {
                r += c;
                if (c == '\n' && t.chance(1, 6)) { r += "//" + std::string(size_t(t.range(1, 9)) * (t.chance(1, 4) ? 8191 : 63), "-/x "[t.index(4)]) + "\n"; }
            }
            t.label("long lines");
            return r;
        case 2:
            if (comments || text.find('#') != std::string::npos || text.find("//") != std::string::npos) { return text; }
            for (char c : text) { r += c == '\n' ? ' ' : c; }
            t.label("one line");
            return r;
        default:
            for (char c : text) { r += c == '\n' ? "\r\n" : std::string(1, c); }
            t.label("CRLF");
            return r;
    }
}

void body(Tape& t)
{
    std::vector<Include> incs;
    for (size_t n = t.index(3), i = 0; i < n; ++i) { incs.push_back({odd_name(t, std::to_string(i)), i == 0 ? "inc.idl" : "other.idl", "inc_" + std::to_string(i) + " 'x\n#define INC \"$A\"\n"}); }
    std::string failure;
    switch (t.weighted({3, 1, 2, 1}))
    {
        case 0:
        {
            bool inc = false;
            std::string text = odd_text(t, inc);
            NOTE(t, "text:\n" << shorten(text) << "\n---- (" << text.size() << " bytes)");
            for (auto& i : incs) { NOTE(t, "include path '" << i.dir << "'"); }
            failure = apart([&] { return check_text(text, incs); });
            t.label("string");
            if (inc) { t.label("include"); }
            if (text.find_first_of("$`'\"\\%") != std::string::npos) { t.nontrivial(); }
            break;
        }
        case 1:
        {
            bool inc = false;
            std::string name = odd_name(t, ".idl"), text = odd_text(t, inc);
            NOTE(t, "file '" << name << "':\n" << shorten(text) << "\n----");
            for (auto& i : incs) { NOTE(t, "include path '" << i.dir << "'"); }
            failure = apart([&] { return check_file(name, text, incs); });
            t.label("file");
            if (name.find_first_of(" $`'\"\\%;&|*(") != std::string::npos) { t.nontrivial(); }
            break;
        }
        case 3:
        {
            bool inc = false;
            std::string text = odd_text(t, inc);
            NOTE(t, "text:\n" << shorten(text) << "\n---- (" << text.size() << " bytes)");
            failure = apart([&] { return check_other(text); });
            t.label("other preprocessors");
            if (text.find_first_of("$`'\"\\%") != std::string::npos) { t.nontrivial(); }
            break;
        }
        default:
        {
            Writer w(t);
            w.cfg.comments = t.chance(1, 2);
            w.definitions(w.root, t.range(1, 3));
            w.finish();
            std::string name = odd_name(t, ".idl"), text = other_lines(t, w.text(), w.cfg.comments);
            size_t how = t.index(6);
            incs.clear();
            if (how < 3 && t.chance(1, 2))
            {
                incs.push_back({odd_name(t, "0"), "inc.idl", text + "\n"});
                text = t.chance(1, 2) ? "#include \"inc.idl\"\n" : "/* it's */ #define X_ \"`echo`\"\n#include <inc.idl>\n";
                if (text[0] == '/') { text = "// it's `echo`\n#define X_ \"`echo`\"\n#include <inc.idl>\n"; }
                t.label("parsed include");
            }
            NOTE(t, "way " << how << ", '" << name << "':\n" << text << "\n----");
            for (auto& i : incs) { NOTE(t, "include path '" << i.dir << "', with:\n" << i.text << "\n----"); }
            failure = apart([&] { return check_parse(name, text, how, incs, w.want); });
            t.label("parse");
            if (w.want.size() >= 2) { t.nontrivial(); }
        }
    }
    CHECK(failure.empty(), failure);
}

// ---- regressions
void text_of(const std::string& text)
{
    std::string f = apart([&] { return check_text(text, {}); });
    CHECK(f.empty(), f);
}
void shell() { text_of("const string A = \"a\\\\n$HOME `echo x` \\\"b\\\" 100%\"; // it's\n#define M '$'\nM\n"); }
void path()
{
    std::string f = apart([&] { return check_text("#include <inc.idl>\n", {{"a b'$HOME", "inc.idl", "x\n"}}); });
    CHECK(f.empty(), f);
}
void file_name()
{
    std::string f = apart([&] { return check_file("a b;`echo x`'.idl", "x\n", {}); });
    CHECK(f.empty(), f);
}
void length()
{
    std::string s;
    while (s.size() < 200000) { s += "struct S { long a; };\n"; }
    text_of(s);
}

}

int main(int argc, char** argv)
{
    try { std::locale::global(std::locale("C.UTF-8")); }
    catch (const std::runtime_error&) { std::fprintf(stderr, "no UTF-8 locale\n"); return 2; }
    char dir[] = "/tmp/xtypes_p27.XXXXXX";
    if (!mkdtemp(dir) || chmod(dir, 0711) != 0) { std::fprintf(stderr, "no scratch directory\n"); return 2; }
    g_scratch = dir;
    pbt::Property p;
    p.id = "P27";
    p.rule = "case: a random text with the characters that mean something for a shell, printf or the preprocessor, or a file of any name, with includes from directories of any name, preprocessed in every way and compared with the "
        "output of the preprocessor called without a shell; or a random IDL text parsed through the preprocessor, from a string, a file or an include, which must declare what it says whatever the length of its lines; or a text through preprocessors that copy it, fail or give nothing. No file may be left. Non-trivial: with such characters, or two declarations.";
    p.body = body;
    p.quick_cases = 5000;
    p.thorough_cases = 60000;
    p.regressions = {
        {"R-shell", "a text with characters of the shell", shell},
        {"R-path", "an include path with spaces, quotes and dollars", path},
        {"R-file", "a file whose name has spaces and commands", file_name},
        {"R-length", "a text of 200000 bytes", length},
    };
    p.assumptions = {"cpp-peglib, which the parser uses and is not installed here, is replaced by a stand-in written for this check.",
        "Line markers, and the space at the end of what the preprocessor writes, are not compared. The preprocessor is GNU cpp."};
    int r = pbt::run_main(argc, argv, p);
    std::error_code ec;
    std::filesystem::remove_all(g_scratch, ec);
    return r;
}
