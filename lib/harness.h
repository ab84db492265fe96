// Property-based testing engine.
//
// A case is a function of a sequence of integer choices (as in Hypothesis): generators draw from a Src, every draw is
// recorded, and a failing case is shrunk by editing the recorded sequence and running the case again.  Cases run in
// forked workers, so that a crash, a sanitizer report or a hang is a failing case like any other; the recorded choices
// live in memory shared with the parent and survive the worker.  If the code under test is compiled with
// -fsanitize-coverage=inline-8bit-counters, sequences that reach new code are kept and mutated.
#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

struct Failure
{
    std::string msg;
};
struct Discard
{};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// requirement of the property: REQ(cond, "text" << values)
#define REQ(cond, text)                                                                      \
    do {                                                                                     \
        if (!(cond)) {                                                                       \
            std::ostringstream pbt_oss;                                                      \
            pbt_oss << text;                                                                 \
            throw ::pbt::Failure{pbt_oss.str() + "  [" #cond "]"};                           \
        }                                                                                    \
    } while (0)
#define REQ_EQ(got, want, text)                                                              \
    do {                                                                                     \
        auto const& pbt_g = (got);                                                           \
        auto const& pbt_w = (want);                                                          \
        if (!(pbt_g == pbt_w)) {                                                             \
            std::ostringstream pbt_oss;                                                      \
            pbt_oss << text << ": got " << pbt_g << ", expected " << pbt_w;                  \
            throw ::pbt::Failure{pbt_oss.str()};                                             \
        }                                                                                    \
    } while (0)
// the statement must throw exactly (something derived from) the type
#define REQ_THROWS(type, stmt, text)                                                         \
    do {                                                                                     \
        bool pbt_thrown = false;                                                             \
        try {                                                                                \
            stmt;                                                                            \
        } catch (const type&) {                                                              \
            pbt_thrown = true;                                                               \
        } catch (const ::pbt::Failure&) {                                                    \
            throw;                                                                           \
        } catch (const std::exception& pbt_e) {                                              \
            std::ostringstream pbt_oss;                                                      \
            pbt_oss << text << ": " #stmt " threw another exception than " #type ": " << pbt_e.what(); \
            throw ::pbt::Failure{pbt_oss.str()};                                             \
        }                                                                                    \
        if (!pbt_thrown) {                                                                   \
            std::ostringstream pbt_oss;                                                      \
            pbt_oss << text << ": " #stmt " did not throw " #type;                           \
            throw ::pbt::Failure{pbt_oss.str()};                                             \
        }                                                                                    \
    } while (0)

inline uint64_t Mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t operator()() { s += 0x9e3779b97f4a7c15ull; return Mix(s); }
    uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
};
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t HashStr(const std::string& s) { return HashBytes(s.data(), s.size()); }
inline int64_t NowMs()
{
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<int64_t>(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}

constexpr uint32_t kMaxChoices = 1u << 16;

// shared between the parent and one worker
struct Slot
{
    std::atomic<int64_t> startMs;   // 0: between cases
    std::atomic<uint32_t> sub;
    std::atomic<uint64_t> index;
    std::atomic<uint64_t> done;
    std::atomic<uint32_t> n;
    std::atomic<int> failed;   // 1: msg holds the failure
    char msg[8192];
    char desc[16384];
    uint64_t choices[kMaxChoices];
};

class Src
{
  public:
    Src(Slot* slot, uint64_t seed, const std::vector<uint64_t>* prefix, bool continueRandom)
        : fSlot(slot), fRng(seed), fPrefix(prefix), fRandom(continueRandom)
    {
        fSlot->n.store(0, std::memory_order_relaxed);
    }
    Src(const Src&) = delete;

    // 0 .. n-1; 0 is the simplest
    uint64_t draw(uint64_t n)
    {
        uint64_t v = 0;
        uint32_t i = fSlot->n.load(std::memory_order_relaxed);
        if (i >= kMaxChoices) { throw Discard{}; }
        if (fPrefix && i < fPrefix->size()) {
            v = (*fPrefix)[i];
            if (n && v >= n) { v %= n; }
        } else if (fRandom) {
            v = n ? fRng.below(n) : fRng();
        }
        fSlot->choices[i] = v;
        fSlot->n.store(i + 1, std::memory_order_relaxed);
        return v;
    }
    uint64_t u64() { return draw(0); }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
    // true with probability p/100
    bool chance(unsigned p) { return draw(100) >= 100 - p; }
    bool flip() { return draw(2) == 1; }
    // small sizes are likelier: 0..max
    size_t size(size_t max)
    {
        switch (draw(4)) {
            case 0: return draw(std::min<size_t>(max, 2) + 1);
            case 1: return draw(std::min<size_t>(max, 6) + 1);
            case 2: return draw(std::min<size_t>(max, 20) + 1);
            default: return draw(max + 1);
        }
    }
    // integers with a bias to the edges
    int64_t edgy(int64_t lo, int64_t hi)
    {
        switch (draw(4)) {
            case 0: { int64_t v = static_cast<int64_t>(draw(16)); return std::max(lo, std::min(hi, lo <= 0 && hi >= 0 ? v : lo + v)); }
            case 1: return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(3)) > hi ? lo : static_cast<int64_t>(static_cast<uint64_t>(lo) + 0);
            case 2: return hi;
            default: {
                uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
                return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(span));
            }
        }
    }
    template<typename C>
    auto pick(const C& c) -> typename std::decay<decltype(c[0])>::type { return c[draw(c.size())]; }
    template<typename T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    std::string pick(std::initializer_list<const char*> l) { return *(l.begin() + draw(l.size())); }
    // a string over an alphabet
    std::string str(const std::string& alphabet, size_t minLen, size_t maxLen)
    {
        std::string s;
        size_t n = minLen + draw(maxLen - minLen + 1);
        for (size_t i = 0; i < n; ++i) { s += alphabet[draw(alphabet.size())]; }
        return s;
    }
    // weighted alternative
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned sum = 0;
        for (auto x : w) { sum += x; }
        uint64_t r = draw(sum);
        size_t i = 0;
        for (auto x : w) {
            if (r < x) { return i; }
            r -= x;
            ++i;
        }
        return 0;
    }

  private:
    Slot* fSlot;
    Rng fRng;
    const std::vector<uint64_t>* fPrefix;
    bool fRandom;
};

// one case under way
class Case
{
  public:
    explicit Case(Slot* slot) : fSlot(slot) { fSlot->desc[0] = 0; }
    // appended to the written-out case (samples, replay files); survives a crash
    template<typename T>
    Case& operator<<(const T& t)
    {
        std::ostringstream o;
        o << t;
        const std::string s = o.str();
        size_t room = sizeof(fSlot->desc) - 1 - fLen;
        size_t n = std::min(room, s.size());
        for (size_t i = 0; i < n; ++i) {
            unsigned char ch = static_cast<unsigned char>(s[i]);
            fSlot->desc[fLen + i] = (ch < 32 || ch > 126) ? '.' : static_cast<char>(ch);
        }
        fLen += n;
        fSlot->desc[fLen] = 0;
        fHash = HashBytes(s.data(), s.size(), fHash);
        return *this;
    }
    void nontrivial(bool b = true) { fNontrivial = fNontrivial || b; }
    void label(const std::string& l) { fLabels.insert(l); }
    void label(const std::string& l, bool cond) { if (cond) { fLabels.insert(l); } }
    void count(const std::string& l, uint64_t n) { fCounts[l] += n; }

    Slot* fSlot;
    size_t fLen = 0;
    uint64_t fHash = 1469598103934665603ull;
    bool fNontrivial = false;
    std::set<std::string> fLabels;
    std::map<std::string, uint64_t> fCounts;
};

using CaseFn = std::function<void(Src&, Case&)>;

struct Sub
{
    std::string name;
    unsigned weight = 1;
    CaseFn fn;
    int hangMs = 20000;
    bool racy = false;        // the schedule is not controlled: a failing case may need several runs to fail again
    uint64_t exhaustive = 0;  // >0: cases 0..exhaustive-1 are run once each, the index is the first choice
};

inline std::vector<Sub>& Subs()
{
    static std::vector<Sub> s;
    return s;
}
struct Register
{
    explicit Register(Sub s) { Subs().push_back(std::move(s)); }
};
// CASE(name, weight){ ... uses s and c ... }
#define CASE(name_, weight_)                                                                         \
    static void PBT_CAT(pbt_case_, name_)(::pbt::Src & s, ::pbt::Case & c);                          \
    static ::pbt::Register PBT_CAT(pbt_reg_, name_){::pbt::Sub{#name_, weight_, PBT_CAT(pbt_case_, name_)}}; \
    static void PBT_CAT(pbt_case_, name_)([[maybe_unused]] ::pbt::Src & s, [[maybe_unused]] ::pbt::Case & c)
#define RACY_CASE(name_, weight_, hang_)                                                             \
    static void PBT_CAT(pbt_case_, name_)(::pbt::Src & s, ::pbt::Case & c);                          \
    static ::pbt::Register PBT_CAT(pbt_reg_, name_){::pbt::Sub{#name_, weight_, PBT_CAT(pbt_case_, name_), hang_, true}}; \
    static void PBT_CAT(pbt_case_, name_)([[maybe_unused]] ::pbt::Src & s, [[maybe_unused]] ::pbt::Case & c)

struct Options
{
    uint64_t seed = 1;
    double budget = 10;
    int workers = 8;
    uint64_t minCases = 1;
    double shrinkBudget = 25;
    std::string result = "/dev/null";
    std::string replayOut = "/tmp/replay.txt";
    std::string replayIn;
    std::string scratch;
    std::string only;
    std::string property = "?";
    bool verbose = false;
    uint64_t maxCases = 0;
};
inline Options& Opt()
{
    static Options o;
    return o;
}
// harness-specific arguments and child processes: a harness may re-execute itself as  <self> --child <args...>
inline std::function<int(const std::vector<std::string>&)>& ChildMain()
{
    static std::function<int(const std::vector<std::string>&)> f;
    return f;
}
struct RegisterChild
{
    explicit RegisterChild(std::function<int(const std::vector<std::string>&)> f) { ChildMain() = std::move(f); }
};
inline std::string SelfExe()
{
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof(buf) - 1);
    if (n < 0) { return ""; }
    buf[n] = 0;
    return buf;
}
inline std::function<void()>& WorkerInit()
{
    static std::function<void()> f;
    return f;
}
struct RegisterWorkerInit
{
    explicit RegisterWorkerInit(std::function<void()> f) { WorkerInit() = std::move(f); }
};
// worker number (unique names of shared resources)
inline int& WorkerId()
{
    static int w = 0;
    return w;
}
inline std::string Scratch() { return Opt().scratch; }

// coverage counters (see harness.cpp)
std::vector<std::pair<uint8_t*, uint8_t*>>& CovRegions();

std::string JsonEscape(const std::string& s);
int Main(int argc, char** argv);

}   // namespace pbt

#endif
