// C09: StateQueue against a FIFO with a sticky error at its front
#include "harness.h"
#include "schedule.h"
#include <deque>
#include <fairmq/StateQueue.h>

using namespace fair::mq;
using namespace std::chrono_literals;

namespace {

State GenState(pbt::Src& s, bool withError)
{
    auto v = static_cast<State>(s.draw(16));
    if (v == State::Error && !withError) { v = State::Idle; }
    return v;
}

}   // namespace

CASE(sequential, 4)
{
    StateQueue q;
    std::deque<State> m;
    bool sawError = false, sawEmpty = false, sawCustom = false;
    size_t pops = 0;
    const bool errors = s.flip();
    bool flag = false;
    while (s.draw(24) != 0) {
        const bool front = !m.empty();
        const bool err = front && m.front() == State::Error;
        auto popped = [&](State got, const char* how) {
            REQ_EQ(got, m.front(), "state returned by " << how);
            m.pop_front();
            ++pops;
        };
        switch (s.draw(10)) {
            case 0: case 1: {
                State v = GenState(s, errors);
                c << "push " << v << "; ";
                if (s.flip()) {
                    bool ran = false;
                    q.Push(v, [&] { ran = true; });
                    REQ(ran, "the signal given to Push runs");
                } else {
                    q.Push(v);
                }
                m.push_back(v);
                break;
            }
            case 2: {
                c << "next; ";
                if (!front) { break; }   // would block
                if (err) { sawError = true; REQ_THROWS(DeviceErrorState, q.WaitForNext(), "an error state is next"); }
                else { popped(q.WaitForNext(), "WaitForNext"); }
                break;
            }
            case 3: {
                c << "next(timeout); ";
                if (err) { sawError = true; REQ_THROWS(DeviceErrorState, q.WaitForNext(0ms), "an error state is next"); break; }
                auto r = q.WaitForNext(std::chrono::microseconds(s.draw(50)));
                REQ_EQ(r.first, front, "WaitForNext with timeout finds a state");
                if (front) { popped(r.second, "WaitForNext with timeout"); }
                else { sawEmpty = true; REQ_EQ(r.second, State::Ok, "value without a state"); }
                break;
            }
            case 4: {
                c << "next or custom; ";
                sawCustom = true;
                if (err) { sawError = true; REQ_THROWS(DeviceErrorState, q.WaitForNextOrCustom([] { return true; }), "an error state is next"); break; }
                auto r = q.WaitForNextOrCustom([&] { return !front; });
                REQ_EQ(r.first, front, "WaitForNextOrCustom finds a state");
                if (front) { popped(r.second, "WaitForNextOrCustom"); }
                else { REQ_EQ(r.second, State::Ok, "value without a state"); }
                break;
            }
            case 5: {
                c << "custom; ";
                sawCustom = true;
                if (err) { sawError = true; REQ_THROWS(DeviceErrorState, q.WaitForCustom([] { return true; }), "an error state is next"); break; }
                auto r = q.WaitForCustom([] { return true; });
                REQ_EQ(r.first, front, "WaitForCustom finds a state");
                if (front) { popped(r.second, "WaitForCustom"); }
                break;
            }
            case 6: {
                // a state that is in the queue: everything up to and including it is consumed
                if (!front) { break; }
                State want = m[s.draw(m.size())];
                c << "wait for " << want << "; ";
                std::deque<State> rest = m;
                bool hitError = false;
                while (true) {
                    if (rest.front() == State::Error) { hitError = true; break; }
                    State x = rest.front();
                    rest.pop_front();
                    if (x == want) { break; }
                }
                if (hitError) { sawError = true; REQ_THROWS(DeviceErrorState, q.WaitForState(want), "an error state comes first"); }
                else { q.WaitForState(want); ++pops; }
                m = rest;
                break;
            }
            case 7: {
                if (!front) { break; }
                State want = m[s.draw(m.size())];
                c << "wait for " << want << " or custom; ";
                std::deque<State> rest = m;
                bool hitError = false;
                while (true) {
                    if (rest.front() == State::Error) { hitError = true; break; }
                    State x = rest.front();
                    rest.pop_front();
                    if (x == want) { break; }
                }
                if (hitError) { sawError = true; REQ_THROWS(DeviceErrorState, q.WaitForStateOrCustom(want, [] { return false; }), "an error state comes first"); }
                else { q.WaitForStateOrCustom(want, [] { return false; }); ++pops; }
                m = rest;
                break;
            }
            case 8: {
                c << "locked/notify; ";
                q.Locked([&] { flag = !flag; });
                bool f = flag;
                q.Notify([&] { flag = !flag; });
                REQ(flag != f, "the signal given to Notify runs");
                break;
            }
            default:
                if (s.draw(3) == 0) { c << "clear; "; q.Clear(); m.clear(); }
        }
    }
    // drain
    while (!m.empty() && m.front() != State::Error) {
        REQ_EQ(q.WaitForNext(), m.front(), "state left in the queue");
        m.pop_front();
        ++pops;
    }
    if (m.empty()) { REQ(!q.WaitForNext(0ms).first, "the queue is empty in the end"); }
    else {
        // the error stays until the queue is cleared
        REQ_THROWS(DeviceErrorState, q.WaitForNext(), "an error state is next");
        REQ_THROWS(DeviceErrorState, q.WaitForNext(0ms), "the error state is still next");
        q.Clear();
        REQ(!q.WaitForNext(0ms).first, "the queue is empty after Clear");
    }
    c.label("error", sawError);
    c.label("timeout", sawEmpty);
    c.label("custom predicate", sawCustom);
    c.nontrivial(pops >= 2 || sawError);
}

// one producer, one consumer waiting in generated ways: everything arrives in order, nobody hangs
RACY_CASE(two_threads, 2, 30000)
{
    StateQueue q;
    const size_t n = 1 + s.draw(60);
    std::vector<State> plan;
    std::vector<int> how, delay;
    for (size_t i = 0; i < n; ++i) {
        plan.push_back(GenState(s, false));
        how.push_back(static_cast<int>(s.draw(5)));
        delay.push_back(static_cast<int>(s.draw(12)));
    }
    const bool endWithError = s.flip();
    c << n << " states" << (endWithError ? " then ERROR" : "");
    bool custom = false;
    std::thread producer([&] {
        for (size_t i = 0; i < n; ++i) {
            if (delay[i] == 0) { std::this_thread::sleep_for(std::chrono::microseconds(50)); }
            if (delay[i] == 1) { std::this_thread::yield(); }
            if (how[i] == 4) { q.Push(plan[i], [] {}); } else { q.Push(plan[i]); }
        }
        if (endWithError) { q.Push(State::Error); } else { q.Notify([&] { custom = true; }); }
    });
    std::string err;
    size_t got = 0;
    try {
        while (got < n) {
            State x{};
            switch (how[got]) {
                case 0: x = q.WaitForNext(); break;
                case 1: {
                    auto r = q.WaitForNext(20s);
                    if (!r.first) { err = "WaitForNext timed out although states were pushed"; }
                    x = r.second;
                    break;
                }
                case 2: {
                    auto r = q.WaitForNextOrCustom([] { return false; });
                    if (!r.first) { err = "WaitForNextOrCustom returned without a state"; }
                    x = r.second;
                    break;
                }
                case 3: {
                    q.WaitForState(plan[got]);
                    x = plan[got];
                    break;
                }
                default: {
                    q.WaitForStateOrCustom(plan[got], [] { return false; });
                    x = plan[got];
                }
            }
            if (x != plan[got]) { err = "state " + GetStateName(x) + " instead of " + GetStateName(plan[got]) + " at position " + std::to_string(got); }
            if (!err.empty()) { break; }
            ++got;
        }
        if (err.empty()) {
            if (endWithError) {
                try { q.WaitForNext(); err = "the error state was not reported"; } catch (const DeviceErrorState&) {}
            } else {
                auto r = q.WaitForNextOrCustom([&] { return custom; });
                if (r.first) { err = "a state appeared from nowhere"; }
            }
        }
    } catch (const DeviceErrorState&) {
        err = "error state reported before its turn";
    }
    producer.join();
    REQ(err.empty(), err);
    c.nontrivial(n > 3);
}

// several producers, one consumer: per-producer order, each state once
RACY_CASE(producers, 1, 30000)
{
    StateQueue q;
    const size_t np = 2 + s.draw(3);
    const size_t n = 5 + s.draw(40);
    // producer p uses states p*4 .. p*4+3 (skipping ERROR), in generated order
    std::vector<std::vector<State>> plan(np);
    for (size_t p = 0; p < np; ++p) {
        for (size_t i = 0; i < n; ++i) {
            auto v = static_cast<State>(p * 3 + s.draw(3) + (p * 3 + 3 > 2 ? 3 : 0));
            plan[p].push_back(v);
        }
    }
    c << np << " producers x " << n;
    std::vector<std::thread> ts;
    std::atomic<size_t> ready{0};
    for (size_t p = 0; p < np; ++p) {
        ts.emplace_back([&, p] {
            ++ready;
            while (ready < np) {}
            for (auto v : plan[p]) { q.Push(v); }
        });
    }
    std::vector<size_t> pos(np, 0);
    std::string err;
    for (size_t i = 0; i < np * n && err.empty(); ++i) {
        State x = q.WaitForNext();
        size_t p = (static_cast<size_t>(x) - 3) / 3;
        if (p >= np || pos[p] >= n) { err = "unexpected state " + GetStateName(x); break; }
        if (plan[p][pos[p]] != x) { err = "order of producer " + std::to_string(p) + " broken at " + std::to_string(pos[p]); }
        ++pos[p];
    }
    for (auto& t : ts) { t.join(); }
    REQ(err.empty(), err);
    REQ(!q.WaitForNext(0ms).first, "nothing is left");
    c.nontrivial();
}

// the consumer waits for a custom condition signalled under the lock
RACY_CASE(custom_signal, 1, 30000)
{
    StateQueue q;
    const size_t n = 1 + s.draw(20);
    const bool viaPush = s.flip();
    c << n << " rounds, " << (viaPush ? "Push(state, signal)" : "Notify");
    size_t turn = 0;
    std::thread other([&] {
        for (size_t i = 0; i < n; ++i) {
            if (viaPush) { q.Push(State::Ready, [&] { ++turn; }); } else { q.Notify([&] { ++turn; }); }
        }
    });
    std::string err;
    size_t states = 0;
    auto r = q.WaitForCustom([&] { return turn == n; });
    if (turn != n) { err = "WaitForCustom returned before its condition"; }
    states += r.first;
    while (q.WaitForNext(0ms).first) { ++states; }
    other.join();
    REQ(err.empty(), err);
    REQ_EQ(states, viaPush ? n : 0, "states pushed along with the signals");
    c.nontrivial(n > 1);
}

// producers and one consumer under generated schedules
CASE(schedules, 5)
{
    StateQueue q;
    const size_t np = 1 + s.draw(3);
    std::vector<std::vector<State>> plan(np);
    std::vector<std::vector<int>> how(np);
    size_t total = 0;
    c << np << " producers:";
    for (size_t p = 0; p < np; ++p) {
        size_t n = s.draw(6);
        c << " [";
        for (size_t i = 0; i < n; ++i) {
            // states 3+4p .. 6+4p belong to producer p
            plan[p].push_back(static_cast<State>(3 + 4 * p + s.draw(4)));
            how[p].push_back(static_cast<int>(s.draw(4)));
            c << plan[p].back() << (how[p].back() == 0 ? "!" : "") << ",";
        }
        total += n;
        c << "]";
    }
    const bool endWithError = s.chance(30);
    std::vector<int> wait;
    for (size_t i = 0; i < total + 1; ++i) { wait.push_back(static_cast<int>(s.draw(6))); }
    if (endWithError) { c << " then ERROR"; }
    size_t signals = 0, expectedSignals = 0, producersLeft = np;
    bool finished = false;
    std::vector<size_t> pos(np, 0);
    size_t got = 0;
    for (auto& h : how) { expectedSignals += static_cast<size_t>(std::count(h.begin(), h.end(), 0)); }
    vsched::Scheduler sc(s);
    for (size_t p = 0; p < np; ++p) {
        sc.spawn([&, p] {
            for (size_t i = 0; i < plan[p].size(); ++i) {
                if (how[p][i] == 0) { q.Push(plan[p][i], [&] { ++signals; }); } else { q.Push(plan[p][i]); }
            }
            q.Locked([&] { --producersLeft; });
            if (producersLeft == 0) {
                if (endWithError) { q.Push(State::Error); } else { q.Notify([&] { finished = true; }); }
            }
        });
    }
    sc.spawn([&] {
        auto take = [&](State x) {
            size_t p = (static_cast<size_t>(x) - 3) / 4;
            if (static_cast<size_t>(x) < 3 || p >= np || pos[p] >= plan[p].size()) { throw pbt::Failure{"state " + GetStateName(x) + " was never pushed"}; }
            if (plan[p][pos[p]] != x) { throw pbt::Failure{"state " + GetStateName(x) + " out of order"}; }
            ++pos[p];
            ++got;
        };
        while (got < total) {
            switch (wait[got]) {
                case 0: case 1: take(q.WaitForNext()); break;
                case 2: {
                    auto r = q.WaitForNext(std::chrono::milliseconds(5));
                    if (r.first) { take(r.second); } else { vsched::Scheduler::yield(); }
                    break;
                }
                case 3: {
                    auto r = q.WaitForNextOrCustom([] { return false; });
                    if (!r.first) { throw pbt::Failure{"WaitForNextOrCustom returned without a state"}; }
                    take(r.second);
                    break;
                }
                case 4: {
                    // with one producer the next state is known
                    if (np == 1) { State x = plan[0][pos[0]]; q.WaitForState(x); take(x); } else { take(q.WaitForNext()); }
                    break;
                }
                default: {
                    if (np == 1) { State x = plan[0][pos[0]]; q.WaitForStateOrCustom(x, [] { return false; }); take(x); } else { take(q.WaitForNext()); }
                }
            }
        }
        if (endWithError) {
            try { q.WaitForNext(); throw pbt::Failure{"the error state was not reported"}; } catch (const DeviceErrorState&) {}
        } else {
            auto r = q.WaitForNextOrCustom([&] { return finished; });
            if (r.first) { throw pbt::Failure{"a state that was never pushed: " + GetStateName(r.second)}; }
            if (!finished) { throw pbt::Failure{"WaitForNextOrCustom returned before its condition held"}; }
        }
    });
    sc.run();
    REQ_EQ(signals, expectedSignals, "signals run by Push");
    c.nontrivial(total >= 2 && sc.switches() > 4);
}

// several consumers share the states under generated schedules: each state goes to exactly one of them, each consumer sees
// a producer's states in order, nobody is left waiting
CASE(consumers, 2)
{
    StateQueue q;
    const size_t nc = 2 + s.draw(2), np = 1 + s.draw(2);
    std::vector<std::vector<int>> how(nc);
    size_t total = 0;
    for (auto& h : how) { size_t n = 1 + s.draw(4); for (size_t i = 0; i < n; ++i) { h.push_back(static_cast<int>(s.draw(2))); } total += n; }
    c << nc << " consumers of " << total << " states from " << np << " producers";
    std::vector<size_t> share(np, total / np);
    share[0] += total % np;
    // the k-th state of producer p is 4 + 2p + (k odd)
    std::vector<size_t> counts(16, 0), want(16, 0);
    for (size_t p = 0; p < np; ++p) { for (size_t k = 0; k < share[p]; ++k) { ++want[4 + 2 * p + k % 2]; } }
    vsched::Scheduler sc(s);
    for (size_t p = 0; p < np; ++p) {
        sc.spawn([&, p] { for (size_t k = 0; k < share[p]; ++k) { q.Push(static_cast<State>(4 + 2 * p + k % 2)); } });
    }
    for (size_t i = 0; i < nc; ++i) {
        sc.spawn([&, i] {
            for (int h : how[i]) {
                State x{};
                if (h == 0) { x = q.WaitForNext(); }
                else {
                    auto r = q.WaitForNextOrCustom([] { return false; });
                    if (!r.first) { throw pbt::Failure{"WaitForNextOrCustom returned without a state"}; }
                    x = r.second;
                }
                ++counts[static_cast<size_t>(x) % 16];
            }
        });
    }
    sc.run();
    for (size_t i = 0; i < 16; ++i) { REQ_EQ(counts[i], want[i], "deliveries of " << static_cast<State>(i)); }
    REQ(!q.WaitForNext(0ms).first, "nothing is left");
    c.nontrivial(total > 2 && sc.switches() > 3);
}

// a state pushed together with a signal is visible to whoever sees the signal
CASE(push_with_signal, 2)
{
    StateQueue q;
    const size_t rounds = 1 + s.draw(5);
    std::vector<int> how;
    for (size_t i = 0; i < rounds; ++i) { how.push_back(static_cast<int>(s.draw(3))); }
    c << rounds << " rounds";
    bool set = false;
    vsched::Scheduler sc(s);
    sc.spawn([&] {
        for (size_t i = 0; i < rounds; ++i) {
            vsched::Scheduler::waitUntil([&] { return !set; });
            if (how[i] == 2) { q.Notify([&] { set = true; }); } else { q.Push(static_cast<State>(4 + i), [&] { set = true; }); }
        }
    });
    sc.spawn([&] {
        for (size_t i = 0; i < rounds; ++i) {
            auto r = how[i] == 1 ? q.WaitForNextOrCustom([&] { return set; }) : q.WaitForCustom([&] { return set; });
            if (!set) { throw pbt::Failure{"woken before the signal was given"}; }
            if (r.first != (how[i] != 2)) { throw pbt::Failure{"signal and state were not published together"}; }
            if (r.first && r.second != static_cast<State>(4 + i)) { throw pbt::Failure{"wrong state " + GetStateName(r.second)}; }
            q.Locked([&] { set = false; });
        }
    });
    sc.run();
    REQ(!q.WaitForNext(0ms).first, "nothing is left");
    c.nontrivial(rounds > 1);
}
