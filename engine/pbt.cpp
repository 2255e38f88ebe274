#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HAVE_ALLOC_COUNT 1
#else
#define HAVE_ALLOC_COUNT 0
#endif

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:"
           "detect_stack_use_after_return=0:malloc_context_size=10:quarantine_size_mb=32";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=98:print_stacktrace=1";
}

extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=97:report_bugs=1:history_size=4";
}

namespace pbt {

using Clock = std::chrono::steady_clock;
static double since(Clock::time_point t)
{
    return std::chrono::duration<double>(Clock::now() - t).count();
}

static const int MAXLABEL = 96;
static const int FAIL_EXIT = 42;

struct Stats
{
    volatile uint64_t current;            // case being run
    volatile uint64_t evals;
    volatile uint64_t nontrivial;
    volatile uint64_t nhashes;
    char msg[4000];
    struct { char name[56]; uint64_t n; } labels[MAXLABEL];
};

static Stats* g_stats = nullptr;

void Tape::label(const char* name)
{
    if (!g_stats || quiet) { return; }
    for (int i = 0; i < MAXLABEL; ++i)
    {
        auto& l = g_stats->labels[i];
        if (l.name[0] == 0)
        {
            strncpy(l.name, name, sizeof(l.name) - 1);
        }
        if (strncmp(l.name, name, sizeof(l.name) - 1) == 0)
        {
            ++l.n;
            return;
        }
    }
}

static uint64_t fnv(const std::vector<uint64_t>& v)
{
    uint64_t h = 1469598103934665603ULL;
    for (uint64_t x : v)
    {
        for (int i = 0; i < 8; ++i) { h ^= (x >> (8 * i)) & 0xff; h *= 1099511628211ULL; }
    }
    return h;
}

static uint64_t case_seed(const Property& p, uint64_t seed, uint64_t i)
{
    uint64_t h = 1469598103934665603ULL;
    for (char c : p.id) { h ^= uint8_t(c); h *= 1099511628211ULL; }
    Rng r(h ^ (seed * 0x9e3779b97f4a7c15ULL));
    uint64_t a = r.next();
    Rng q(a + i * 0xd1342543de82ef95ULL);
    return q.next();
}

// Runs the body once; returns true when the property held, else sets msg.
static bool run_body(const std::function<void()>& f, std::string& msg)
{
    try
    {
        f();
        return true;
    }
    catch (const Failure& e)
    {
        msg = e.msg;
    }
    catch (const std::exception& e)
    {
        msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    }
    catch (bool)
    {
        msg = "unexpected exception of type bool";
    }
    catch (...)
    {
        msg = "unexpected exception of unknown type";
    }
    return false;
}

static bool run_case(const Property& p, Tape& t, std::string& msg)
{
#if HAVE_ALLOC_COUNT
    if (p.leak_check && !t.logging)
    {
        size_t b0 = __sanitizer_get_current_allocated_bytes();
        if (!run_body([&] { p.body(t); }, msg)) { return false; }
        size_t b1 = __sanitizer_get_current_allocated_bytes();
        if (b1 == b0) { return true; }
        // A growth may be a cache that is filled once (or this tape's own log): repeat before believing it.
        bool nt = t.is_nontrivial();
        size_t grow[4];
        for (int k = 0; k < 4; ++k)
        {
            t.rewind();
            size_t c0 = __sanitizer_get_current_allocated_bytes();
            if (!run_body([&] { p.body(t); }, msg)) { return false; }
            size_t c1 = __sanitizer_get_current_allocated_bytes();
            grow[k] = c1 - c0;
        }
        if (nt) { t.nontrivial(); }
        if (grow[1] == grow[2] && grow[2] == grow[3] && grow[3] > 0 && grow[3] < (size_t(1) << 62))
        {
            std::ostringstream os;
            os << "memory leak: every execution of this case leaves " << grow[3] << " more heap bytes allocated";
            msg = os.str();
            return false;
        }
        return true;
    }
#endif
    return run_body([&] { p.body(t); }, msg);
}

struct Outcome
{
    bool ok = true;
    bool hang = false;
    int status = 0;
    std::string msg;      // failure text or the tail of stderr
    std::string log;
    std::vector<uint64_t> choices;
};

static std::string slurp(const std::string& path, size_t max)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    return s.size() > max ? s.substr(0, max) : s;
}

static std::string scratch_dir()
{
    static std::string d;
    if (d.empty())
    {
        char buf[] = "/tmp/xtpbtXXXXXX";
        char* r = mkdtemp(buf);
        d = r ? r : "/tmp";
    }
    return d;
}

// Runs f in a child, bounded in time.  f returns true when the property held.
static Outcome in_child(const std::function<bool(std::string& msg, std::string& log, std::vector<uint64_t>& ch)>& f,
        double timeout)
{
    Outcome o;
    std::string err = scratch_dir() + "/err", res = scratch_dir() + "/res";
    unlink(res.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        std::string msg, log;
        std::vector<uint64_t> ch;
        bool ok = f(msg, log, ch);
        FILE* r = fopen(res.c_str(), "wb");
        if (r)
        {
            uint64_t n = ch.size(), m = msg.size(), l = log.size();
            fwrite(&n, 8, 1, r); fwrite(&m, 8, 1, r); fwrite(&l, 8, 1, r);
            fwrite(ch.data(), 8, n, r); fwrite(msg.data(), 1, m, r); fwrite(log.data(), 1, l, r);
            fclose(r);
        }
        _exit(ok ? 0 : FAIL_EXIT);
    }
    auto t0 = Clock::now();
    int st = 0;
    useconds_t nap = 200;
    while (true)
    {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) { break; }
        if (since(t0) > timeout)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.ok = false; o.hang = true;
            std::ostringstream os;
            os << "no answer within " << timeout << " s (an ordinary case takes milliseconds)";
            o.msg = os.str();
            return o;
        }
        usleep(nap);
        nap = std::min<useconds_t>(nap * 2, 5000);
    }
    o.status = st;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.ok = true; }
    else { o.ok = false; }
    if (FILE* r = fopen(res.c_str(), "rb"))
    {
        uint64_t n = 0, m = 0, l = 0;
        if (fread(&n, 8, 1, r) == 1 && fread(&m, 8, 1, r) == 1 && fread(&l, 8, 1, r) == 1)
        {
            o.choices.resize(n); o.msg.resize(m); o.log.resize(l);
            size_t got = fread(o.choices.data(), 8, n, r);
            got += fread(&o.msg[0], 1, m, r);
            got += fread(&o.log[0], 1, l, r);
            (void)got;
        }
        fclose(r);
    }
    if (!o.ok && o.msg.empty())
    {
        std::ostringstream os;
        if (WIFSIGNALED(st)) { os << "killed by signal " << WTERMSIG(st) << "\n"; }
        else { os << "process ended with status " << WEXITSTATUS(st) << "\n"; }
        os << slurp(err, 6000);
        o.msg = os.str();
    }
    return o;
}

static Outcome try_tape(const Property& p, const std::vector<uint64_t>& ch, bool logging, double timeout)
{
    std::string lf = scratch_dir() + "/log";
    Outcome o = in_child([&](std::string& msg, std::string&, std::vector<uint64_t>& out)
            {
                Tape t(ch);
                std::ofstream sink;
                if (logging)
                {
                    sink.open(lf);
                    t.logging = true;
                    t.sink = &sink;
                }
                bool ok = run_case(p, t, msg);
                out = t.choices();
                return ok;
            }, timeout);
    if (logging)
    {
        o.log = slurp(lf, 20000);
        unlink(lf.c_str());
    }
    return o;
}

// ---------------------------------------------------------------------------------------------- shrinking

static std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best, double budget_s, double case_timeout,
        unsigned& tried)
{
    auto t0 = Clock::now();
    auto fails = [&](const std::vector<uint64_t>& c)
            {
                for (int k = 0; k < (p.threads ? 3 : 1); ++k)
                {
                    ++tried;
                    Outcome o = try_tape(p, c, false, case_timeout);
                    if (!o.ok) { return !o.hang; }
                }
                return false;
            };
    bool improved = true;
    while (improved && since(t0) < budget_s)
    {
        improved = false;
        // delete blocks
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && since(t0) < budget_s; len /= 2)
        {
            for (size_t i = 0; i + len <= best.size() && since(t0) < budget_s;)
            {
                std::vector<uint64_t> c(best.begin(), best.begin() + i);
                c.insert(c.end(), best.begin() + i + len, best.end());
                if (fails(c)) { best = c; improved = true; }
                else { i += len; }
            }
            if (len == 1) { break; }
        }
        // zero blocks
        for (size_t len : {size_t(8), size_t(4), size_t(2)})
        {
            for (size_t i = 0; i + len <= best.size() && since(t0) < budget_s; i += len)
            {
                if (std::all_of(best.begin() + i, best.begin() + i + len, [](uint64_t x) { return x == 0; })) { continue; }
                std::vector<uint64_t> c = best;
                std::fill(c.begin() + i, c.begin() + i + len, 0);
                if (fails(c)) { best = c; improved = true; }
            }
        }
        // lower single values
        for (size_t i = 0; i < best.size() && since(t0) < budget_s; ++i)
        {
            if (best[i] == 0) { continue; }
            std::vector<uint64_t> c = best;
            c[i] = 0;
            if (fails(c)) { best = c; improved = true; continue; }
            uint64_t lo = 0, hi = best[i];
            int steps = 0;
            while (hi - lo > 1 && steps++ < 12 && since(t0) < budget_s)
            {
                uint64_t mid = lo + (hi - lo) / 2;
                c[i] = mid;
                if (fails(c)) { hi = mid; best = c; improved = true; }
                else { lo = mid; }
            }
        }
    }
    while (!best.empty() && best.back() == 0)
    {
        std::vector<uint64_t> c(best.begin(), best.end() - 1);
        if (since(t0) > budget_s * 1.5 || !fails(c)) { break; }
        best = c;
    }
    return best;
}

// ---------------------------------------------------------------------------------------------- reporting

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') { o += "\\n"; }
        else if (c == '\t') { o += "\\t"; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else { o += char(c); }
    }
    return o;
}

static std::string verif_dir()
{
    const char* d = getenv("VERIF_DIR");
    return d ? d : "/verif";
}

static void mkdirs(const std::string& d) { mkdir(d.c_str(), 0777); }

static std::string write_replay(const Property& p, const std::string& kind, const std::string& name,
        const std::vector<uint64_t>& ch, const std::string& msg, const std::string& log)
{
    mkdirs(verif_dir() + "/replays");
    std::ostringstream fn;
    fn << verif_dir() << "/replays/" << p.id << "-" << (kind == "tape" ? std::to_string(fnv(ch) % 1000000007ULL) : name) << ".replay";
    std::ofstream f(fn.str());
    f << "property " << p.id << "\nkind " << kind << "\nname " << name << "\nchoices";
    for (uint64_t c : ch) { f << ' ' << c; }
    f << "\n--- failure\n" << msg << "\n--- case\n" << log << "\n";
    return fn.str();
}

static bool listed_known(const std::string& id, const std::string& kf)
{
    std::ifstream f(verif_dir() + "/known_findings.txt");
    std::string line;
    while (std::getline(f, line))
    {
        if (line.rfind("known: property=" + id + " id=" + kf + " ", 0) == 0) { return true; }
    }
    return false;
}

int run_main(int argc, char** argv, const Property& p)
{
    uint64_t seed = 1;
    if (const char* s = getenv("VERIF_SEED")) { seed = strtoull(s, nullptr, 10); }
    std::string tier = "quick";
    if (const char* s = getenv("VERIF_TIER")) { if (std::string(s) == "thorough") { tier = "thorough"; } }
    uint64_t cases = tier == "quick" ? p.quick_cases : p.thorough_cases;
    double cap_s = tier == "quick" ? 420 : 3000;
    unsigned workers = 8;
    bool verbose = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--cases" && i + 1 < argc) { cases = strtoull(argv[++i], nullptr, 10); }
        else if (a == "--seed" && i + 1 < argc) { seed = strtoull(argv[++i], nullptr, 10); }
        else if (a == "--workers" && i + 1 < argc) { workers = unsigned(atoi(argv[++i])); }
        else if (a == "-v") { verbose = true; }
        else if (a == "--replay" && i + 1 < argc)
        {
            std::ifstream f(argv[++i]);
            std::string line, kind, name;
            std::vector<uint64_t> ch;
            while (std::getline(f, line) && line != "--- failure")
            {
                std::istringstream is(line);
                std::string w;
                is >> w;
                if (w == "kind") { is >> kind; }
                else if (w == "name") { is >> name; }
                else if (w == "choices") { uint64_t c; while (is >> c) { ch.push_back(c); } }
            }
            std::string msg;
            bool ok = true;
            if (kind == "tape")
            {
                // once for the log (in a child, for it may crash), once in this process (for a debugger)
                Tape t(ch);
                t.logging = true;
                ok = run_case(p, t, msg);
                std::cout << t.log_text();
                for (int k = 0; ok && p.threads && k < 20; ++k)
                {
                    Tape q(ch);
                    ok = run_case(p, q, msg);
                }
                if (ok && p.leak_check)
                {
                    Tape q(ch);
                    ok = run_case(p, q, msg);
                }
            }
            else
            {
                for (auto& list : {p.regressions, p.known})
                {
                    for (auto& r : list) { if (r.name == name) { ok = run_body(r.fn, msg); } }
                }
            }
            std::cout << (ok ? "HELD" : "FAILED: " + msg) << std::endl;
            return ok ? 0 : 1;
        }
        else if (a == "--show" && i + 1 < argc)
        {
            Tape t(case_seed(p, seed, strtoull(argv[++i], nullptr, 10)));
            t.logging = true;
            std::string msg;
            bool ok = run_case(p, t, msg);
            std::cout << t.log_text() << (ok ? "HELD" : "FAILED: " + msg) << std::endl;
            return ok ? 0 : 1;
        }
    }
    auto t0 = Clock::now();
    uint64_t violations = 0;
    std::vector<std::string> lines;
    std::vector<std::string> samples;

    auto report = [&](const std::string& replay, const std::string& msg)
            {
                ++violations;
                std::cout << "VIOLATION property=" << p.id << " replay=" << replay << std::endl;
                std::cout << "  " << msg.substr(0, 1800) << std::endl;
            };

    // ---- regressions: shrunk inputs of defects that were found and repaired
    for (auto& r : p.regressions)
    {
        auto once = [&] { return in_child([&](std::string& m, std::string&, std::vector<uint64_t>&) { return run_body(r.fn, m); }, 60); };
        Outcome o = once();
        if (!o.ok)
        {
            Outcome o2 = once(), o3 = once();
            if (!o2.ok && !o3.ok)
            {
                report(write_replay(p, "regression", r.name, {}, o.msg, r.text), r.name + ": " + r.text + ": " + o.msg);
                break;
            }
        }
    }
    // ---- known findings
    for (auto& r : p.known)
    {
        auto once = [&] { return in_child([&](std::string& m, std::string&, std::vector<uint64_t>&) { return run_body(r.fn, m); }, 60); };
        Outcome o = once();
        if (o.ok) { continue; }
        if (listed_known(p.id, r.name))
        {
            std::cout << "KNOWN-FINDING: property=" << p.id << " " << r.name << " " << r.text << std::endl;
        }
        else
        {
            report(write_replay(p, "known", r.name, {}, o.msg, r.text), r.name + ": " + r.text + ": " + o.msg);
        }
    }

    // ---- search
    size_t per = cases / workers + 2;
    size_t bytes = sizeof(Stats) + 4096 + per * 8;
    std::vector<Stats*> st(workers);
    std::vector<uint64_t*> hs(workers);
    for (unsigned w = 0; w < workers; ++w)
    {
        void* m = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { std::cerr << "mmap failed\n"; return 2; }
        st[w] = static_cast<Stats*>(m);
        hs[w] = reinterpret_cast<uint64_t*>(static_cast<char*>(m) + ((sizeof(Stats) + 63) / 64) * 64);
    }
    struct W { pid_t pid; uint64_t next; bool done; uint64_t last_cur; Clock::time_point last_change; };
    std::vector<W> ws(workers);
    double stop_at = cap_s;
    auto start = [&](unsigned w, uint64_t from)
            {
                fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0)
                {
                    // the reports of failing cases are taken again when the failure is confirmed
                    int fd = open("/dev/null", O_WRONLY);
                    dup2(fd, 1);
                    dup2(fd, 2);
                    g_stats = st[w];
                    for (uint64_t i = from; i < cases; i += workers)
                    {
                        if (since(t0) > stop_at) { break; }
                        g_stats->current = i;
                        Tape t(case_seed(p, seed, i));
                        std::string msg;
                        bool ok = run_case(p, t, msg);
                        g_stats->evals = g_stats->evals + 1;
                        if (t.is_nontrivial())
                        {
                            g_stats->nontrivial = g_stats->nontrivial + 1;
                            if (g_stats->nhashes < per)
                            {
                                hs[w][g_stats->nhashes] = fnv(t.choices());
                                g_stats->nhashes = g_stats->nhashes + 1;
                            }
                        }
                        if (!ok) { strncpy(g_stats->msg, msg.c_str(), sizeof(g_stats->msg) - 1); _exit(FAIL_EXIT); }
                    }
                    _exit(0);
                }
                ws[w] = W{pid, from, false, ~0ULL, Clock::now()};
            };
    for (unsigned w = 0; w < workers; ++w) { start(w, w); }
    bool found = false;
    uint64_t bad_case = 0;
    unsigned unconfirmed = 0;
    std::vector<uint64_t> bad_tape;
    Outcome bad;
    unsigned alive = workers;
    const double HANG = 40;
    while (alive > 0)
    {
        usleep(2000);
        for (unsigned w = 0; w < workers && alive > 0; ++w)
        {
            if (ws[w].done) { continue; }
            int s = 0;
            pid_t r = waitpid(ws[w].pid, &s, WNOHANG);
            bool failed = false;
            if (r == ws[w].pid)
            {
                if (WIFEXITED(s) && WEXITSTATUS(s) == 0) { ws[w].done = true; --alive; continue; }
                failed = true;
            }
            else
            {
                uint64_t cur = st[w]->current + st[w]->evals * 1000003ULL;
                if (cur != ws[w].last_cur) { ws[w].last_cur = cur; ws[w].last_change = Clock::now(); }
                else if (since(ws[w].last_change) > HANG)
                {
                    kill(ws[w].pid, SIGKILL);
                    waitpid(ws[w].pid, &s, 0);
                    failed = true;
                }
            }
            if (!failed) { continue; }
            uint64_t i = st[w]->current;
            // confirm three times from the same seed
            Outcome first;
            bool confirmed = true;
            // (of threads: one in some executions)
            for (int k = 0; k < (p.threads ? 15 : 3) && (confirmed || p.threads); ++k)
            {
                Outcome o = in_child([&](std::string& m, std::string& log, std::vector<uint64_t>& ch)
                        {
                            Tape t(case_seed(p, seed, i));
                            bool ok = run_case(p, t, m);
                            ch = t.choices();
                            log = t.log_text();
                            return ok;
                        }, 30);
                confirmed = !o.ok;
                if (k == 0 || confirmed) { first = o; }
                if (p.threads && confirmed) { break; }
            }
            if (!confirmed)
            {
                ++unconfirmed;
                if (verbose) { std::cerr << "case " << i << " failed once and was not confirmed: " << st[w]->msg << "\n"; }
                if (unconfirmed > 50) { ws[w].done = true; --alive; }
                else { start(w, i + workers); }
                continue;
            }
            found = true;
            bad_case = i;
            bad = first;
            ws[w].done = true;
            --alive;
            break;
        }
        if (found)
        {
            for (unsigned w = 0; w < workers; ++w)
            {
                if (!ws[w].done) { kill(ws[w].pid, SIGKILL); int s; waitpid(ws[w].pid, &s, 0); ws[w].done = true; }
            }
            break;
        }
    }
    if (found)
    {
        std::vector<uint64_t> ch = bad.choices;
        if (ch.empty())
        {
            // the case crashed before it could hand over its choices: draw them again in a child that
            // stores them as it goes (shared memory)
            size_t cap = 1 << 20;
            uint64_t* sh = static_cast<uint64_t*>(mmap(nullptr, cap * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            // The tape is a pure function of the seed: raw PRNG numbers replay the same choices, because replay
            // takes them modulo the same bounds.
            Rng r(case_seed(p, seed, bad_case));
            ch.clear();
            for (int k = 0; k < 20000; ++k) { ch.push_back(r.next()); }
            munmap(sh, cap * 8 + 8);
            // cut the unused tail by bisection
            size_t lo = 0, hi = ch.size();
            while (lo < hi)
            {
                size_t mid = (lo + hi) / 2;
                std::vector<uint64_t> c(ch.begin(), ch.begin() + mid);
                Outcome o = try_tape(p, c, false, 60);
                if (!o.ok) { hi = mid; }
                else { lo = mid + 1; }
            }
            ch.resize(hi);
        }
        unsigned tried = 0;
        Outcome check = try_tape(p, ch, false, 60);
        for (int k = 0; p.threads && check.ok && k < 10; ++k) { check = try_tape(p, ch, false, 60); }
        if (!check.ok)
        {
            if (!check.hang) { ch = shrink(p, ch, tier == "quick" ? 40 : 120, 20, tried); }
        }
        Outcome fin = try_tape(p, ch, true, 60);
        for (int k = 0; p.threads && fin.ok && k < 10; ++k) { fin = try_tape(p, ch, true, 60); }
        if (fin.ok) // a leak is only looked for when nothing is being logged
        {
            Outcome quiet = try_tape(p, ch, false, 60);
            if (!quiet.ok) { fin.msg = quiet.msg; }
        }
        std::string msg = fin.msg.empty() ? bad.msg : fin.msg;
        std::string log = fin.log;
        std::string path = write_replay(p, "tape", "case-" + std::to_string(bad_case), ch, msg, log);
        report(path, "case " + std::to_string(bad_case) + " (shrunk with " + std::to_string(tried) + " executions): " + msg
                + (log.empty() ? "" : "\n--- case\n" + log.substr(0, 1500)));
    }
    // ---- evidence
    uint64_t evals = 0, nontriv = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    for (unsigned w = 0; w < workers; ++w)
    {
        evals += st[w]->evals;
        nontriv += st[w]->nontrivial;
        for (uint64_t i = 0; i < st[w]->nhashes; ++i) { distinct.insert(hs[w][i]); }
        for (int i = 0; i < MAXLABEL && st[w]->labels[i].name[0]; ++i) { labels[st[w]->labels[i].name] += st[w]->labels[i].n; }
    }
    for (uint64_t i = 0, got = 0; i < 200 && got < 4 && i < cases; ++i)
    {
        if (found && i == bad_case) { continue; }
        bool nt = false;
        Outcome o = in_child([&](std::string& m, std::string& log, std::vector<uint64_t>& ch)
                {
                    Tape t(case_seed(p, seed, i));
                    t.logging = true;
                    bool ok = run_case(p, t, m);
                    log = t.log_text();
                    if (t.is_nontrivial()) { ch.push_back(1); }
                    return ok;
                }, 60);
        nt = !o.choices.empty();
        if (o.ok && nt && !o.log.empty())
        {
            samples.push_back("case " + std::to_string(i) + ": " + o.log.substr(0, 900));
            ++got;
        }
    }
    double wall = since(t0);
    std::ostringstream js;
    js << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
       << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
       << ",\n  \"distinct_nontrivial\": " << distinct.size()
       << ",\n  \"nontrivial_evaluations\": " << nontriv
       << ",\n  \"regression_inputs\": " << p.regressions.size()
       << ",\n  \"cases_planned\": " << cases
       << ",\n  \"unconfirmed_failures\": " << unconfirmed
       << ",\n  \"rule\": \"" << jesc(p.rule) << "\",\n  \"labels\": {";
    bool first = true;
    for (auto& l : labels) { js << (first ? "" : ", ") << "\"" << jesc(l.first) << "\": " << l.second; first = false; }
    js << "},\n  \"samples\": [";
    first = true;
    for (auto& s : samples) { js << (first ? "\n   \"" : ",\n   \"") << jesc(s) << "\""; first = false; }
    js << "\n  ]\n },\n \"assumptions\": [";
    first = true;
    for (auto& s : p.assumptions) { js << (first ? "\"" : ", \"") << jesc(s) << "\""; first = false; }
    js << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    mkdirs(verif_dir() + "/evidence");
    std::ofstream(verif_dir() + "/evidence/" + p.id + ".json") << js.str();
    std::cout << p.id << ": " << evals << " cases, " << distinct.size() << " distinct non-trivial, " << violations
              << " violation(s), " << wall << " s" << std::endl;
    if (verbose) { for (auto& l : labels) { std::cout << "   " << l.first << ": " << l.second << "\n"; } }
    // scratch files
    unlink((scratch_dir() + "/err").c_str());
    unlink((scratch_dir() + "/res").c_str());
    rmdir(scratch_dir().c_str());
    return violations ? 1 : 0;
}

} // namespace pbt
