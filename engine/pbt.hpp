// A small property-based-testing engine.
//
// A property is a function of a Tape: a sequence of bounded choices.  In search mode the choices come
// from a PRNG seeded by (VERIF_SEED, property, case number); in replay mode from a recorded list.  Every
// generator draws from the tape only, so a case is a pure function of (code under test, tape), and a
// failing case is shrunk by shortening the tape and lowering its numbers.
//
// Cases run in forked workers, so that a crash, a sanitizer report or a hang is attributed to the case
// that caused it and does not end the run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
};

struct Stats; // in pbt.cpp

class Tape
{
public:
    explicit Tape(uint64_t seed) : replay_(false), rng_(seed) { out_.reserve(1024); }
    explicit Tape(std::vector<uint64_t> in) : in_(std::move(in)), replay_(true), rng_(0) { out_.reserve(in_.size() + 16); }

    // Restart, replaying what has been recorded so far.
    void rewind()
    {
        if (!replay_) { in_ = out_; replay_ = true; }
        pos_ = 0;
        out_.clear();
        log_.str("");
        nontrivial_ = false;
    }

    // A number in [0, n).
    uint64_t below(uint64_t n)
    {
        if (n <= 1) { return 0; }
        uint64_t v;
        if (replay_)
        {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            ++pos_;
            v %= n;
        }
        else
        {
            v = rng_.next() % n;
        }
        out_.push_back(v);
        return v;
    }
    // All 64 bits.
    uint64_t bits()
    {
        uint64_t v;
        if (replay_) { v = pos_ < in_.size() ? in_[pos_] : 0; ++pos_; }
        else { v = rng_.next(); }
        out_.push_back(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
    size_t index(size_t n) { return size_t(below(n)); }
    // True with probability num/den; the shrunk value is false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[index(v.size())]; }
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned total = 0;
        for (unsigned x : w) { total += x; }
        uint64_t r = below(total);
        size_t i = 0;
        for (unsigned x : w) { if (r < x) { return i; } r -= x; ++i; }
        return 0;
    }

    bool logging = false;
    bool quiet = false;                     // no labels (the tapes of threads)
    std::ostream& log() { return sink ? *sink : log_; }
    std::ostream* sink = nullptr;           // where the notes go, when they must survive a crash
    std::string log_text() const { return log_.str(); }

    void nontrivial() { nontrivial_ = true; }
    bool is_nontrivial() const { return nontrivial_; }
    void label(const char* name);           // counts cases and events by class
    const std::vector<uint64_t>& choices() const { return out_; }

private:
    std::vector<uint64_t> in_, out_;
    size_t pos_ = 0;
    bool replay_;
    Rng rng_;
    std::ostringstream log_;
    bool nontrivial_ = false;
};

struct Named
{
    std::string name;                     // "R-..." for a regression, "KF-..." for a known finding
    std::string text;                     // what it shows
    std::function<void()> fn;             // throws Failure (or crashes) when the property is broken
};

struct Property
{
    std::string id;
    std::string rule;                     // how cases are made, what is non-trivial
    std::function<void(Tape&)> body;
    uint64_t quick_cases = 20000;
    uint64_t thorough_cases = 400000;
    bool leak_check = false;
    bool threads = false;                 // a failure may depend on the schedule: one that repeats once is believed
    std::vector<Named> regressions;
    std::vector<Named> known;
    std::vector<std::string> assumptions;
};

int run_main(int argc, char** argv, const Property& p);

} // namespace pbt

#define NOTE(t, expr) do { if ((t).logging) { (t).log() << expr << std::endl; } } while (0)
#define FAIL(expr) do { std::ostringstream os_; os_ << expr; throw ::pbt::Failure{os_.str()}; } while (0)
#define CHECK(cond, expr) do { if (!(cond)) { FAIL("[" #cond "] " << expr); } } while (0)
