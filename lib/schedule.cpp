#include "schedule.h"

#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>

namespace vsched {

enum class Blocked { no, mutex, cond, predicate, done };

struct Thread
{
    Scheduler* s = nullptr;
    size_t id = 0;
    std::function<void()> body;
    std::thread real;
    sem_t go{};
    Blocked blocked = Blocked::no;
    void* on = nullptr;          // mutex or condition variable
    bool timed = false;
    int64_t deadlineNs = 0;      // by the clock below
    clockid_t clock = CLOCK_MONOTONIC;
    bool timedOut = false;
    std::function<bool()> predicate;
    std::string failure;
    bool failed = false;
};

thread_local Thread* tSelf = nullptr;
void ClearWaiters();

namespace {

struct Owner { Thread* t; unsigned depth; };
std::map<void*, Owner>& Owners()
{
    static std::map<void*, Owner> o;
    return o;
}
sem_t& MainSem()
{
    static sem_t s;
    static bool init = (sem_init(&s, 0, 0), true);
    (void)init;
    return s;
}
std::atomic<int64_t> gOffsetNs{0};

template<typename F>
F Real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

int64_t RealNow(clockid_t c)
{
    static auto f = Real<int (*)(clockid_t, timespec*)>("clock_gettime");
    timespec t{};
    f(c, &t);
    return static_cast<int64_t>(t.tv_sec) * 1000000000 + t.tv_nsec;
}

void SemWait(sem_t* s)
{
    while (sem_wait(s) != 0) {}
}

void SwitchAway()
{
    Thread* me = tSelf;
    sem_post(&MainSem());
    SemWait(&me->go);
}

}   // namespace

struct Access
{
    static bool free(void* m, Thread* t)
    {
        auto it = Owners().find(m);
        return it == Owners().end() || it->second.t == t;
    }
};

Scheduler::Scheduler(pbt::Src& s, unsigned switchPercent, bool spurious)
    : fSrc(s), fSwitchPercent(switchPercent), fSpurious(spurious)
{
    Owners().clear();
    ClearWaiters();
    MainSem();
}

Scheduler::~Scheduler()
{
    bool stuck = false;
    for (auto& t : fThreads) { stuck = stuck || (t->real.joinable() && t->blocked != Blocked::done); }
    for (auto& t : fThreads) {
        if (!t->real.joinable()) { continue; }
        if (t->blocked == Blocked::done) { t->real.join(); } else { t->real.detach(); }
    }
    if (stuck) {
        for (auto& t : fThreads) { (void)t.release(); }   // they still refer to it; the process ends soon
    }
}

size_t Scheduler::spawn(std::function<void()> f)
{
    fThreads.push_back(std::make_unique<Thread>());
    Thread* t = fThreads.back().get();
    t->s = this;
    t->id = fThreads.size() - 1;
    t->body = std::move(f);
    sem_init(&t->go, 0, 0);
    Thread* self = tSelf;
    tSelf = nullptr;   // creation itself is not controlled
    t->real = std::thread([t] {
        SemWait(&t->go);
        tSelf = t;
        try {
            t->body();
        } catch (const pbt::Failure& e) {
            t->failed = true;
            t->failure = e.msg;
        } catch (const pbt::Discard&) {
            t->failed = true;
            t->failure = "";
        } catch (const std::exception& e) {
            t->failed = true;
            t->failure = std::string("unexpected exception in a thread: ") + e.what();
        }
        tSelf = nullptr;
        t->blocked = Blocked::done;
        sem_post(&MainSem());
    });
    tSelf = self;
    return t->id;
}

bool Scheduler::candidate(Thread* t, bool& special)
{
    special = false;
    switch (t->blocked) {
        case Blocked::no: return true;
        case Blocked::mutex: return Access::free(t->on, t);
        case Blocked::predicate: return t->predicate();
        case Blocked::cond: special = t->timed || fSpurious; return t->timed;
        default: return false;
    }
}

void Scheduler::resume(Thread* t)
{
    ++fSteps;
    if (t != fCurrent) { ++fSwitches; }
    fCurrent = t;
    if (fTrace.size() < 4000) { fTrace += static_cast<char>('0' + t->id % 75); }
    sem_post(&t->go);
    SemWait(&MainSem());
}

void Scheduler::run()
{
    fRunning = true;
    while (true) {
        std::vector<Thread*> ready, timers, sleepers;
        size_t alive = 0;
        for (auto& p : fThreads) {
            Thread* t = p.get();
            if (t->failed) {
                if (t->failure.empty()) { throw pbt::Discard{}; }
                throw pbt::Failure{t->failure + "  (schedule " + fTrace + ")"};
            }
            if (t->blocked == Blocked::done) { continue; }
            ++alive;
            bool special = false;
            bool can = candidate(t, special);
            if (t->blocked == Blocked::cond) {
                if (t->timed) { timers.push_back(t); }
                else { sleepers.push_back(t); }
            } else if (can) {
                ready.push_back(t);
            }
        }
        if (alive == 0) { break; }
        if (fSteps > 60000) { throw pbt::Discard{}; }
        auto fire = [&](Thread* t) {
            t->timedOut = true;
            int64_t now = RealNow(t->clock) + gOffsetNs.load();
            if (now < t->deadlineNs) { gOffsetNs += t->deadlineNs - now + 1; }
            t->blocked = Blocked::no;
        };
        // rarely: a timeout expires, or a wait ends without a notification
        if (!ready.empty() && (!timers.empty() || (fSpurious && !sleepers.empty())) && fSrc.draw(24) == 23) {
            std::vector<Thread*> v = timers;
            if (fSpurious) { v.insert(v.end(), sleepers.begin(), sleepers.end()); }
            Thread* t = v[fSrc.draw(v.size())];
            if (t->timed) { fire(t); } else { t->blocked = Blocked::no; }
            resume(t);
            continue;
        }
        if (ready.empty()) {
            if (!timers.empty()) {
                // nothing else can happen: the earliest timeout expires
                Thread* t = *std::min_element(timers.begin(), timers.end(), [](Thread* a, Thread* b) {
                    return a->deadlineNs - RealNow(a->clock) < b->deadlineNs - RealNow(b->clock);
                });
                fire(t);
                resume(t);
                continue;
            }
            std::ostringstream o;
            o << "deadlock:";
            for (auto& p : fThreads) {
                if (p->blocked == Blocked::done) { continue; }
                o << " thread " << p->id << " waits for " << (p->blocked == Blocked::mutex ? "a mutex" : p->blocked == Blocked::cond ? "a notification" : "a condition") << ";";
            }
            throw pbt::Failure{o.str() + "  (schedule " + fTrace + ")"};
        }
        Thread* next = nullptr;
        bool canStay = std::find(ready.begin(), ready.end(), fCurrent) != ready.end();
        if (ready.size() == 1) { next = ready[0]; }
        else if (canStay && fSrc.draw(100) < 100 - fSwitchPercent) { next = fCurrent; }
        else {
            std::vector<Thread*> v;
            for (auto* t : ready) { if (t != fCurrent || !canStay) { v.push_back(t); } }
            next = v[fSrc.draw(v.size())];
        }
        if (next->blocked == Blocked::predicate || next->blocked == Blocked::mutex) { next->blocked = Blocked::no; }
        resume(next);
    }
    for (auto& t : fThreads) { if (t->real.joinable()) { t->real.join(); } }
    fRunning = false;
}

void Scheduler::yield()
{
    if (tSelf) { SwitchAway(); }
}

void Scheduler::waitUntil(const std::function<bool()>& cond)
{
    if (!tSelf) { return; }
    Thread* me = tSelf;
    while (!cond()) {
        me->predicate = cond;
        me->blocked = Blocked::predicate;
        SwitchAway();
    }
}

namespace {

void Lock(void* m)
{
    Thread* me = tSelf;
    auto it = Owners().find(m);
    if (it != Owners().end() && it->second.t == me) {
        auto* pm = static_cast<pthread_mutex_t*>(m);
        if ((pm->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { it->second.depth++; return; }
        // locking it again blocks for ever
        me->blocked = Blocked::predicate;
        me->predicate = [] { return false; };
        SwitchAway();
    }
    while (!Access::free(m, me)) {
        me->blocked = Blocked::mutex;
        me->on = m;
        SwitchAway();
    }
    Owners()[m] = {me, 1};
}

void Unlock(void* m)
{
    auto it = Owners().find(m);
    if (it == Owners().end()) { return; }
    if (--it->second.depth == 0) { Owners().erase(it); }
}

int CondWait(void* c, void* m, bool timed, clockid_t clock, const timespec* abs)
{
    Thread* me = tSelf;
    unsigned depth = Owners().count(m) ? Owners()[m].depth : 1;
    Owners().erase(m);
    me->blocked = Blocked::cond;
    me->on = c;
    me->timed = timed;
    me->timedOut = false;
    me->clock = clock;
    if (timed) { me->deadlineNs = static_cast<int64_t>(abs->tv_sec) * 1000000000 + abs->tv_nsec; }
    SwitchAway();
    bool to = me->timedOut;
    me->timedOut = false;
    Lock(m);
    Owners()[m].depth = depth;
    return to ? ETIMEDOUT : 0;
}

}   // namespace

struct Notify
{
    static void wake(void* c, bool all);
};

// controlled threads waiting for a notification, in the order in which they began to wait
static std::vector<Thread*>& Registry()
{
    static std::vector<Thread*> r;
    return r;
}
void ClearWaiters() { Registry().clear(); }
static void RegisterWaiter(Thread* t)
{
    auto& r = Registry();
    r.erase(std::remove(r.begin(), r.end(), t), r.end());
    r.push_back(t);
}
void Notify::wake(void* c, bool all)
{
    auto& r = Registry();
    r.erase(std::remove_if(r.begin(), r.end(), [](Thread* t) { return t->blocked != Blocked::cond; }), r.end());
    for (auto* t : r) {
        if (t->on != c) { continue; }
        t->blocked = Blocked::no;   // which one runs first is up to the scheduler
        if (!all) { break; }
    }
}

}   // namespace vsched

using namespace vsched;

#define REAL(ret, name, sig) static auto real = reinterpret_cast<ret(*) sig>(dlsym(RTLD_NEXT, #name))

#ifndef NO_INTERPOSE
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (tSelf) {
        SwitchAway();
        Lock(m);
        return 0;
    }
    REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
    return real(m);
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (tSelf) {
        SwitchAway();
        if (!Access::free(m, tSelf) || (Owners().count(m) && (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP)) { return EBUSY; }
        Lock(m);
        return 0;
    }
    REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
    return real(m);
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (tSelf) {
        Unlock(m);
        SwitchAway();
        return 0;
    }
    REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
    return real(m);
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (tSelf) { RegisterWaiter(tSelf); return CondWait(c, m, false, CLOCK_MONOTONIC, nullptr); }
    REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*));
    return real(c, m);
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* abs)
{
    if (tSelf) { RegisterWaiter(tSelf); return CondWait(c, m, true, CLOCK_REALTIME, abs); }
    REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*));
    return real(c, m, abs);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const timespec* abs)
{
    if (tSelf) { RegisterWaiter(tSelf); return CondWait(c, m, true, clock, abs); }
    REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*));
    return real(c, m, clock, abs);
}

int pthread_cond_signal(pthread_cond_t* c)
{
    if (tSelf) {
        Notify::wake(c, false);
        SwitchAway();
        return 0;
    }
    REAL(int, pthread_cond_signal, (pthread_cond_t*));
    return real(c);
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (tSelf) {
        Notify::wake(c, true);
        SwitchAway();
        return 0;
    }
    REAL(int, pthread_cond_broadcast, (pthread_cond_t*));
    return real(c);
}

int sched_yield()
{
    if (tSelf) { SwitchAway(); return 0; }
    REAL(int, sched_yield, ());
    return real();
}

int clock_gettime(clockid_t c, timespec* t)
{
    REAL(int, clock_gettime, (clockid_t, timespec*));
    int r = real(c, t);
    if (r == 0 && tSelf) {
        int64_t n = static_cast<int64_t>(t->tv_sec) * 1000000000 + t->tv_nsec + gOffsetNs.load();
        t->tv_sec = n / 1000000000;
        t->tv_nsec = n % 1000000000;
    }
    return r;
}

int nanosleep(const timespec* d, timespec* rem)
{
    if (tSelf) {
        gOffsetNs += static_cast<int64_t>(d->tv_sec) * 1000000000 + d->tv_nsec;
        SwitchAway();
        return 0;
    }
    REAL(int, nanosleep, (const timespec*, timespec*));
    return real(d, rem);
}

int clock_nanosleep(clockid_t c, int flags, const timespec* d, timespec* rem)
{
    if (tSelf) {
        if (flags == 0) { gOffsetNs += static_cast<int64_t>(d->tv_sec) * 1000000000 + d->tv_nsec; }
        SwitchAway();
        return 0;
    }
    REAL(int, clock_nanosleep, (clockid_t, int, const timespec*, timespec*));
    return real(c, flags, d, rem);
}

}   // extern "C"
#endif
