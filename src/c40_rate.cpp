// C40: the rate limiter against a stand-in clock: loops of generated iteration durations run in simulated time
#include "harness.h"
#include <cmath>
#include <dlfcn.h>
#include <fairmq/tools/RateLimit.h>

namespace {

thread_local bool tVirtual = false;
thread_local int64_t tNow = 0;
thread_local int64_t tSlept = 0;
thread_local int64_t tOverNs = 0;       // sleeps last this much longer than asked
thread_local int64_t tLongest = 0;
thread_local uint64_t tSleeps = 0;

void Sleep(int64_t ns)
{
    ++tSleeps;
    tLongest = std::max(tLongest, ns);
    tNow += ns + tOverNs;
    tSlept += ns + tOverNs;
}

}   // namespace

extern "C" {
int clock_gettime(clockid_t id, timespec* t)
{
    if (tVirtual) {
        t->tv_sec = tNow / 1000000000;
        t->tv_nsec = tNow % 1000000000;
        return 0;
    }
    static auto f = reinterpret_cast<int (*)(clockid_t, timespec*)>(dlsym(RTLD_NEXT, "clock_gettime"));
    return f(id, t);
}
int nanosleep(const timespec* d, timespec* r)
{
    if (tVirtual) { Sleep(int64_t(d->tv_sec) * 1000000000 + d->tv_nsec); return 0; }
    static auto f = reinterpret_cast<int (*)(const timespec*, timespec*)>(dlsym(RTLD_NEXT, "nanosleep"));
    return f(d, r);
}
int clock_nanosleep(clockid_t id, int flags, const timespec* d, timespec* r)
{
    if (tVirtual) {
        int64_t ns = int64_t(d->tv_sec) * 1000000000 + d->tv_nsec;
        if (flags & TIMER_ABSTIME) { ns = std::max<int64_t>(0, ns - tNow); }
        Sleep(ns);
        return 0;
    }
    static auto f = reinterpret_cast<int (*)(clockid_t, int, const timespec*, timespec*)>(dlsym(RTLD_NEXT, "clock_nanosleep"));
    return f(id, flags, d, r);
}
}

namespace {

struct Virtual
{
    Virtual(int64_t over) { tNow = 1000000000000; tSlept = 0; tOverNs = over; tLongest = 0; tSleeps = 0; tVirtual = true; }
    ~Virtual() { tVirtual = false; }
};
double GenRate(pbt::Src& s)
{
    switch (s.draw(4)) {
        case 0: return s.pick({1.0, 2.0, 10.0, 50.0, 100.0, 1000.0, 0.5, 0.1});
        case 1: return static_cast<double>(1 + s.draw(1000)) / 100;
        case 2: return static_cast<double>(1 + s.draw(1000));
        default: return static_cast<double>(1 + s.draw(50)) * 1000;
    }
}

}   // namespace

// iterations of a constant duration: after settling the loop runs at the rate asked for, or as fast as its work allows
CASE(steady, 3)
{
    const double rate = GenRate(s);
    const double period = 1e9 / rate;
    const double frac = s.flip() ? static_cast<double>(s.draw(200)) / 100 : static_cast<double>(s.draw(100)) / 10000;
    const auto work = static_cast<int64_t>(period * frac);
    const int64_t over = s.flip() ? 0 : s.range(0, 100000);
    c << rate << " Hz, work " << work << " ns, sleep overhead " << over << " ns";
    Virtual v(over);
    fair::mq::tools::RateLimiter limit(static_cast<float>(rate));
    const auto settle = static_cast<size_t>(std::max(200.0, 40 * rate));
    const auto measure = static_cast<size_t>(std::max(200.0, 20 * rate));
    if (settle + measure > 400000 && !s.chance(5)) { throw pbt::Discard{}; }
    for (size_t i = 0; i < settle; ++i) { tNow += work; limit.maybe_sleep(); }
    const int64_t t0 = tNow, s0 = tSlept;
    for (size_t i = 0; i < measure; ++i) { tNow += work; limit.maybe_sleep(); }
    const double got = static_cast<double>(measure) * 1e9 / static_cast<double>(tNow - t0);
    c << " -> " << got << " Hz";
    const double possible = work > 0 ? 1e9 / static_cast<double>(work) : 1e300;
    const double want = std::min(rate, possible);
    tVirtual = false;
    REQ(got <= rate * 1.03, "the loop runs at " << got << " Hz, " << rate << " Hz were asked for");
    // overhead of a sleep can make a sleep too long only if the pauses are short
    REQ(got >= want * (over ? 0.90 : 0.96), "the loop runs at " << got << " Hz although " << want << " Hz are possible (slept " << (tSlept - s0) << " ns)");
    c.label(possible < rate ? "too slow for the rate" : "limited");
    c.nontrivial(tSleeps > 0 || possible < rate);
}

// phases of different iteration durations: over every interval no more iterations than the rate allows, plus what the
// documented adaption (recheck at least every second) can let through
CASE(phases, 3)
{
    const double rate = s.flip() ? static_cast<double>(1 + s.draw(1000)) / 100 : static_cast<double>(1 + s.draw(2000));
    const double period = 1e9 / rate;
    c << rate << " Hz: ";
    Virtual v(s.flip() ? 0 : s.range(0, 50000));
    fair::mq::tools::RateLimiter limit(static_cast<float>(rate));
    const size_t phases = 1 + s.draw(8);
    size_t n = 0;
    double lowest = 0, worst = 0, t = 0;
    const int64_t start = tNow;
    size_t total = 0;
    double lastFast = 0;
    for (size_t p = 0; p < phases; ++p) {
        const bool fast = s.flip();
        const auto work = static_cast<int64_t>(period * (fast ? static_cast<double>(s.draw(90)) / 100 : static_cast<double>(100 + s.draw(400)) / 100));
        const size_t len = 1 + s.size(static_cast<size_t>(10 * rate + 40));
        c << len << " x " << work << " ns; ";
        total += len;
        if (total > 60000) { break; }
        for (size_t i = 0; i < len; ++i) {
            tNow += work;
            limit.maybe_sleep();
            ++n;
            t = static_cast<double>(tNow - start) / 1e9;
            // excess over the allowed line since its lowest point
            const double f = static_cast<double>(n) - 1.04 * rate * t;
            lowest = std::min(lowest, f);
            worst = std::max(worst, f - lowest);
        }
        lastFast = fast ? 1 : 0;
    }
    (void)lastFast;
    tVirtual = false;
    const double allowed = 8 * rate + 50;
    c.count("worst burst in percent of one second", static_cast<uint64_t>(worst / rate * 100));
    REQ(worst <= allowed, "up to " << worst << " iterations more than " << rate << " Hz allow in some interval");
    // then a long steady phase: the limit must still work
    tVirtual = true;
    const auto settle = static_cast<size_t>(std::max(400.0, 40 * rate));
    for (size_t i = 0; i < settle; ++i) { tNow += static_cast<int64_t>(period * 0.3); limit.maybe_sleep(); }
    const int64_t t0 = tNow;
    const auto measure = static_cast<size_t>(std::max(200.0, 10 * rate));
    for (size_t i = 0; i < measure; ++i) { tNow += static_cast<int64_t>(period * 0.3); limit.maybe_sleep(); }
    const double got = static_cast<double>(measure) * 1e9 / static_cast<double>(tNow - t0);
    tVirtual = false;
    REQ(got <= rate * 1.03, "after the phases the loop runs at " << got << " Hz, " << rate << " Hz were asked for");
    REQ(got >= rate * 0.90, "after the phases the loop runs at " << got << " Hz, " << rate << " Hz were asked for");
    c.nontrivial(phases > 1);
}

// a rate of zero or less does not limit
CASE(unlimited, 1)
{
    const float rate = s.flip() ? 0.f : -static_cast<float>(s.draw(1000)) / 10;
    const auto work = static_cast<int64_t>(s.draw(2000));
    c << rate << " Hz, work " << work << " ns";
    Virtual v(0);
    fair::mq::tools::RateLimiter limit(rate);
    const int64_t t0 = tNow;
    const int64_t n = 20000;
    for (int64_t i = 0; i < n; ++i) { tNow += work; limit.maybe_sleep(); }
    const int64_t extra = tNow - t0 - n * work;
    tVirtual = false;
    REQ(extra <= n * 2, "slept " << extra << " ns in " << n << " iterations without a limit");
    c.nontrivial(work > 1);
}
