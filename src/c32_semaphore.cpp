// C32: semaphores under generated schedules and real threads
#include "harness.h"
#include "schedule.h"
#include <atomic>
#include <fairmq/tools/Semaphore.h>

using namespace fair::mq::tools;

namespace {

// the two kinds under one interface; copies of a shared semaphore are one semaphore
struct Sem
{
    std::unique_ptr<Semaphore> plain;
    std::vector<SharedSemaphore> shared;
    Sem(bool isShared, bool defaulted, size_t n, size_t copies)
    {
        if (isShared) {
            shared.push_back(defaulted ? SharedSemaphore() : SharedSemaphore(n));
            for (size_t i = 0; i < copies; ++i) { SharedSemaphore c = shared[0]; shared.push_back(c); }
        } else {
            plain = defaulted ? std::make_unique<Semaphore>() : std::make_unique<Semaphore>(n);
        }
    }
    void Wait(size_t who) { if (plain) { plain->Wait(); } else { shared[who % shared.size()].Wait(); } }
    void Signal(size_t who) { if (plain) { plain->Signal(); } else { shared[who % shared.size()].Signal(); } }
    size_t Count(size_t who) { return plain ? plain->GetCount() : shared[who % shared.size()].GetCount(); }
};

}   // namespace

CASE(sequential, 1)
{
    const bool isShared = s.flip();
    const bool defaulted = s.chance(20);
    size_t n = defaulted ? 0 : static_cast<size_t>(s.flip() ? s.draw(10) : s.edgy(0, int64_t(1) << 62));
    c << (isShared ? "shared " : "plain ") << n << ": ";
    Sem sem(isShared, defaulted, n, s.draw(4));
    size_t ops = 0;
    while (s.draw(20) != 0) {
        size_t who = s.draw(4);
        REQ_EQ(sem.Count(who), n, "count");
        if (s.flip()) { c << "V"; sem.Signal(who); ++n; ++ops; }
        else if (n > 0) { c << "P"; sem.Wait(who); --n; ++ops; }
        REQ_EQ(sem.Count(who), n, "count after an operation");
    }
    c.nontrivial(ops > 2);
}

// generated plans of waits and signals per thread; enough signals for all waits; every schedule ends with the exact count
CASE(schedules, 6)
{
    const bool isShared = s.flip();
    const size_t nt = 2 + s.draw(4);
    const size_t initial = s.draw(4);
    std::vector<std::vector<int>> plan(nt);
    size_t waits = 0, signals = 0;
    for (auto& p : plan) {
        size_t n = s.draw(6);
        for (size_t i = 0; i < n; ++i) {
            int op = static_cast<int>(s.draw(5));
            op = op < 2 ? 0 : op < 4 ? 1 : 2;   // wait, signal, read the count
            p.push_back(op);
            waits += op == 0;
            signals += op == 1;
        }
    }
    // a last thread provides what is missing, so that no schedule may hang
    std::vector<int> rest(waits > initial ? waits - initial : 0, 1);
    // waits may wait for signals that come after them in other threads only: the last thread alone suffices
    signals += rest.size();
    plan.push_back(rest);
    c << (isShared ? "shared" : "plain") << " initial " << initial << ", threads:";
    for (auto& p : plan) { c << " "; for (int o : p) { c << (o == 0 ? "P" : o == 1 ? "V" : "?"); } }
    Sem sem(isShared, false, initial, s.draw(4));
    size_t begunSignals = 0, doneWaits = 0;
    std::string err;
    size_t switches = 0;
    {
        vsched::Scheduler sc(s);
        for (size_t t = 0; t < plan.size(); ++t) {
            sc.spawn([&, t] {
                for (int o : plan[t]) {
                    if (o == 0) {
                        sem.Wait(t);
                        ++doneWaits;
                        if (doneWaits > initial + begunSignals) { throw pbt::Failure{"a wait returned without a unit being available"}; }
                    } else if (o == 1) {
                        ++begunSignals;
                        sem.Signal(t);
                    } else {
                        size_t n = sem.Count(t);
                        if (n > initial + begunSignals) { throw pbt::Failure{"count " + std::to_string(n) + " exceeds all units ever provided"}; }
                    }
                }
            });
        }
        sc.run();
        switches = sc.switches();
    }
    REQ_EQ(sem.Count(0), initial + signals - waits, "count in the end");
    c.label("thread switches > 10", switches > 10);
    c.nontrivial(waits > 0 && switches > 4);
}

RACY_CASE(real_threads, 1, 20000)
{
    const bool isShared = s.flip();
    const size_t nt = 2 + s.draw(5);
    const size_t rounds = 20 + s.draw(200);
    const size_t initial = s.draw(3);
    c << (isShared ? "shared" : "plain") << ", " << nt << " waiters and " << nt << " signallers x " << rounds << ", initial " << initial;
    Sem sem(isShared, false, initial, nt);
    std::vector<std::thread> ts;
    std::atomic<size_t> ready{0}, sig{0}, got{0};
    std::atomic<bool> bad{false};
    for (size_t t = 0; t < 2 * nt; ++t) {
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < 2 * nt) { std::this_thread::yield(); }
            for (size_t i = 0; i < rounds; ++i) {
                if (t < nt) {
                    sem.Wait(t);
                    if (++got > initial + sig) { bad = true; }
                } else {
                    ++sig;
                    sem.Signal(t);
                }
            }
        });
    }
    for (auto& t : ts) { t.join(); }
    REQ(!bad, "a wait returned without a unit being available");
    REQ_EQ(sem.Count(0), initial, "count in the end");
    c.nontrivial();
}
