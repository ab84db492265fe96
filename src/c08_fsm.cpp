// C08: only the documented state transitions happen, each once and in order.
#include "harness.h"
#include "schedule.h"
#include <fairmq/StateMachine.h>
#include <fairmq/States.h>
#include <list>

using namespace fair::mq;
using S = State;
using T = Transition;

namespace {
struct RowT { S from; T t; S to; };
// the documented life cycle (docs/Device.md)
const RowT kTable[] = {
    {S::Idle, T::End, S::Exiting},
    {S::Idle, T::InitDevice, S::InitializingDevice},
    {S::InitializingDevice, T::CompleteInit, S::Initialized},
    {S::Initialized, T::Bind, S::Binding},
    {S::Initialized, T::ResetDevice, S::ResettingDevice},
    {S::Binding, T::Auto, S::Bound},
    {S::Bound, T::Connect, S::Connecting},
    {S::Bound, T::ResetDevice, S::ResettingDevice},
    {S::Connecting, T::Auto, S::DeviceReady},
    {S::DeviceReady, T::InitTask, S::InitializingTask},
    {S::DeviceReady, T::ResetDevice, S::ResettingDevice},
    {S::InitializingTask, T::Auto, S::Ready},
    {S::Ready, T::Run, S::Running},
    {S::Ready, T::ResetTask, S::ResettingTask},
    {S::Running, T::Stop, S::Ready},
    {S::ResettingTask, T::Auto, S::DeviceReady},
    {S::ResettingDevice, T::Auto, S::Idle},
};
const T kAll[] = {T::Auto, T::InitDevice, T::CompleteInit, T::Bind, T::Connect, T::InitTask, T::Run, T::Stop, T::ResetTask, T::ResetDevice, T::End, T::ErrorFound};

bool Legal(S from, T t, S* to = nullptr)
{
    if (t == T::ErrorFound) {
        if (to) { *to = S::Error; }
        return true;   // asking again in the error state is no failure
    }
    if (from == S::Error) { return false; }
    for (auto& r : kTable) {
        if (r.from == from && r.t == t) {
            if (to) { *to = r.to; }
            return true;
        }
    }
    return false;
}
std::vector<T> LegalFrom(S from)
{
    std::vector<T> v;
    for (auto t : kAll) {
        if (t != T::ErrorFound && Legal(from, t)) { v.push_back(t); }
    }
    return v;
}
bool IsAuto(S s) { return s == S::Binding || s == S::Connecting || s == S::InitializingTask || s == S::ResettingTask || s == S::ResettingDevice; }
std::string N(S s) { return GetStateName(s); }
std::string N(T t) { return GetTransitionName(t); }

// moves towards interesting places more often than a uniform choice would
T Request(pbt::Src& s, S at, unsigned goodPct)
{
    auto good = LegalFrom(at);
    if (!good.empty() && s.chance(goodPct)) { return good[s.draw(good.size())]; }
    return kAll[s.draw(s.chance(20) ? 12 : 11)];
}
struct Oops : std::runtime_error { using std::runtime_error::runtime_error; };
}   // namespace

// ---------------------------------------------------------------- every pair of state and transition
namespace {
// drives a machine to the state without a processing thread: every accepted request is taken over by the handler
std::vector<T> PathTo(S target)
{
    std::map<int, std::pair<int, T>> from;
    std::list<S> todo{S::Idle};
    std::set<int> seen{static_cast<int>(S::Idle)};
    while (!todo.empty()) {
        S at = todo.front();
        todo.pop_front();
        for (auto& r : kTable) {
            if (r.from == at && seen.insert(static_cast<int>(r.to)).second) {
                from[static_cast<int>(r.to)] = {static_cast<int>(at), r.t};
                todo.push_back(r.to);
            }
        }
    }
    std::vector<T> p;
    for (S at = target; at != S::Idle; at = static_cast<S>(from.at(static_cast<int>(at)).first)) { p.insert(p.begin(), from.at(static_cast<int>(at)).second); }
    return p;
}
const S kStates[] = {S::Idle, S::InitializingDevice, S::Initialized, S::Binding, S::Bound, S::Connecting, S::DeviceReady, S::InitializingTask, S::Ready, S::Running, S::ResettingTask, S::ResettingDevice, S::Exiting, S::Error};
}   // namespace

static pbt::Register pairs{pbt::Sub{"pairs", 1, [](pbt::Src& s, pbt::Case& c) {
    uint64_t i = s.draw(14 * 12 * 2);
    S at = kStates[i % 14];
    T t = kAll[(i / 14) % 12];
    bool byName = i / (14 * 12) == 1;
    c << N(at) << " + " << N(t) << (byName ? " by name" : "");
    std::vector<T> path = at == S::Error ? std::vector<T>{T::ErrorFound} : PathTo(at);
    StateMachine sm;
    sm.Start();
    REQ(sm.GetCurrentState() == S::Idle, "a started machine is in " << sm.GetCurrentStateName());
    size_t pos = 0;
    bool got = false, asked = false;
    S after = S::Ok;
    auto step = [&](S now) {
        if (asked) {
            if (after == S::Ok) { after = now; }
            if (now != S::Error && now != S::Exiting) { sm.ChangeState(T::ErrorFound); }
            return;
        }
        if (pos < path.size()) {
            REQ(sm.ChangeState(path[pos]), "transition " << N(path[pos]) << " refused in " << N(now));
            ++pos;
            return;
        }
        REQ(now == at, "in " << N(now) << " instead of " << N(at));
        got = byName ? sm.ChangeState(N(t)) : sm.ChangeState(t);
        asked = true;
        S to = S::Ok;
        bool want = Legal(at, t, &to);
        REQ_EQ(got, want, "request " << N(t) << " in state " << N(at));
        if (at != S::Error) { REQ_EQ(sm.NewStatePending(), want, "pending after the request"); }
        REQ(sm.GetCurrentState() == now, "the state changed before it was processed");
        REQ_EQ(sm.GetCurrentStateName(), N(now), "state name");
        if (!want) {
            after = S::Undefined;
            if (now != S::Error && now != S::Exiting) { sm.ChangeState(T::ErrorFound); }
        }
    };
    sm.HandleStates(step);
    bool threw = false;
    try {
        step(S::Idle);   // the handler is not called for the initial state
        sm.ProcessWork();
    } catch (const StateMachine::ErrorStateException&) {
        threw = true;
    }
    REQ(asked, "the state " << N(at) << " was not reached");
    S to = S::Ok;
    if (Legal(at, t, &to) && at != S::Exiting && at != S::Error) { REQ(after == to, N(at) << " + " << N(t) << " leads to " << N(after) << " instead of " << N(to)); }
    REQ_EQ(threw, sm.GetCurrentState() == S::Error, "ended with an exception");
    c.nontrivial();
}, 20000, false, 14 * 12 * 2}};

// ---------------------------------------------------------------- histories, one thread
CASE(history, 4)
{
    StateMachine sm;
    std::vector<std::string> log, want;
    // subscribers: key -> live
    struct Sub_ { bool live; int group; size_t seq; };
    std::map<std::string, Sub_> stateSubs, transSubs;
    size_t seq = 0;
    auto keyGen = [&](std::map<std::string, Sub_>& m) {
        std::string k;
        size_t tries = 0;
        do { if (++tries > 50) { throw pbt::Discard{}; } k = s.pick({"", "1", "2", "10", "-1", "99"}) + s.str("abc", 1, 1); } while (m.count(k));
        return k;
    };
    auto subscribe = [&]() {
        if (s.flip()) {
            std::string k = keyGen(stateSubs);
            stateSubs[k] = {true, atoi(k.c_str()), ++seq};
            sm.SubscribeToStateChange(k, [&log, k](const S st) { log.push_back("state:" + k + ":" + N(st)); });
        } else {
            std::string k = keyGen(transSubs);
            transSubs[k] = {true, 0, ++seq};
            sm.SubscribeToNewTransition(k, [&log, k](const T t) { log.push_back("trans:" + k + ":" + N(t)); });
        }
    };
    auto unsubscribe = [&]() {
        auto& m = s.flip() ? stateSubs : transSubs;
        std::string k = m.empty() || s.chance(15) ? "nobody" : std::next(m.begin(), static_cast<long>(s.draw(m.size())))->first;
        m.erase(k);
        if (&m == &stateSubs) { sm.UnsubscribeFromStateChange(k); } else { sm.UnsubscribeFromNewTransition(k); }
    };
    auto wantState = [&](S st) {
        std::vector<std::pair<std::pair<int, size_t>, std::string>> v;
        for (auto& [k, x] : stateSubs) { v.push_back({{x.group, x.seq}, k}); }
        std::sort(v.begin(), v.end());
        for (auto& e : v) { want.push_back("state:" + e.second + ":" + N(st)); }
    };
    auto wantTrans = [&](T t) {
        std::vector<std::pair<size_t, std::string>> v;
        for (auto& [k, x] : transSubs) { v.push_back({x.seq, k}); }
        std::sort(v.begin(), v.end());
        for (auto& e : v) { want.push_back("trans:" + e.second + ":" + N(t)); }
    };
    auto compare = [&](const std::string& what) {
        size_t i = 0;
        while (i < log.size() && i < want.size() && log[i] == want[i]) { ++i; }
        if (i == log.size() && i == want.size()) { return; }
        throw pbt::Failure{what + ": call " + std::to_string(i) + " is '" + (i < log.size() ? log[i] : "(none)") + "', expected '" + (i < want.size() ? want[i] : "(none)") + "'"};
    };
    sm.Start();
    for (size_t i = s.size(4); i > 0; --i) { subscribe(); }
    const bool prep = s.chance(70);
    const size_t maxStates = 1 + s.size(25);
    size_t visited = 0, refused = 0;
    bool threw = false;
    S at = S::Idle;
    bool pending = false;
    S next = S::Ok;
    auto requests = [&](S now) {
        // several requests, until one is accepted (and some more, which must be refused)
        for (size_t k = 0; k < 20; ++k) {
            if (s.chance(20)) { s.chance(45) ? subscribe() : unsubscribe(); }
            T t = visited >= maxStates || k == 19 ? T::ErrorFound : Request(s, now, 60);
            c << N(t) << " ";
            S to = S::Ok;
            bool ok = t == T::ErrorFound || (!pending && Legal(now, t));
            if (t == T::ErrorFound && (now == S::Error || (pending && next == S::Error))) {
                // already there
            } else if (ok) {
                Legal(now, t, &to);
                wantTrans(t);
                pending = true;
                next = to;
            }
            bool got = s.chance(20) ? sm.ChangeState(N(t)) : sm.ChangeState(t);
            REQ_EQ(got, ok, "request " << N(t) << " in state " << N(now) << (pending ? " with " + N(next) + " pending" : std::string()));
            REQ(sm.GetCurrentState() == now, "the current state is " << sm.GetCurrentStateName() << " instead of " << N(now));
            REQ_EQ(sm.NewStatePending(), pending, "NewStatePending");
            REQ_EQ(sm.WaitForPendingStateFor(0), pending, "WaitForPendingStateFor(0)");
            if (pending) { sm.WaitForPendingState(); }
            refused += !ok;
            if (!ok) { compare("after a refused request"); }
            if (now == S::Error || now == S::Exiting) {
                pending = false;
                return;
            }
            if (pending && s.chance(70)) { break; }
        }
    };
    sm.HandleStates([&](const S st) {
        log.push_back("handle:" + N(st));
        want.push_back("handle:" + N(st));
        compare("in the handler of " + N(st));
        at = next;
        REQ(st == at, "the handler of " << N(st) << " runs, expected " << N(at));
        pending = false;
        ++visited;
        c << "-> " << N(st) << " ";
        if (at == S::Error || at == S::Exiting) { return; }
        if (s.chance(3)) {
            c << "throws ";
            threw = true;
            if (s.chance(30)) {
                wantTrans(T::ErrorFound);
                sm.ChangeState(T::ErrorFound);
                pending = true;
                next = S::Error;
            }
            throw Oops("from the handler");
        }
        requests(at);
        // only what the next state brings can follow
        if (!prep) { wantState(next); }
    });
    if (prep) {
        sm.PrepareState([&](const S st) {
            log.push_back("prep:" + N(st));
            want.push_back("prep:" + N(next));
            compare("in the preparation of " + N(st));
            REQ(sm.GetCurrentState() == st, "prepared state is not the current one");
            REQ(!sm.NewStatePending(), "still pending when the state is prepared");
            wantState(next);
        });
    }
    // a second handler is refused, the first one stays
    if (s.chance(10)) {
        sm.HandleStates([&](const S) { throw pbt::Failure{"the second handler was installed"}; });
        sm.PrepareState([&](const S) { if (prep) { throw pbt::Failure{"the second preparation was installed"}; } });
        if (!prep) { throw pbt::Discard{}; }
    }
    wantState(S::Idle);
    std::vector<std::string> first = want;
    want.clear();
    requests(S::Idle);
    // requests made before the processing starts come before the notification of the initial state
    want.insert(want.end(), first.begin(), first.end());
    {
        // subscriptions may have changed meanwhile
        std::vector<std::string> w2;
        for (auto& x : want) { if (x.rfind("state:", 0) != 0) { w2.push_back(x); } }
        want = w2;
        wantState(S::Idle);
        if (!prep) { wantState(next); }
    }
    std::string outcome = "end";
    try {
        sm.ProcessWork();
    } catch (const Oops&) {
        outcome = "oops";
    } catch (const StateMachine::ErrorStateException&) {
        outcome = "error";
    }
    if (threw) {
        REQ_EQ(outcome, "oops", "exception of the handler");
        if (!(pending && next == S::Error)) { wantTrans(T::ErrorFound); }
        wantState(S::Error);
        REQ(sm.GetCurrentState() == S::Error, "an exception left the machine in " << sm.GetCurrentStateName());
        c.label("handler threw");
    } else if (at == S::Error) {
        REQ_EQ(outcome, "error", "error state");
        // the error may be announced once more when the machine ends
        if (log.size() > want.size()) { wantState(S::Error); }
    } else {
        REQ_EQ(outcome, "end", "exiting");
        REQ(at == S::Exiting, "the machine ended in " << N(at));
    }
    compare("at the end");
    // the end is final
    S end = sm.GetCurrentState();
    for (T t : kAll) {
        if (t == T::ErrorFound) { continue; }
        REQ(!sm.ChangeState(t), N(t) << " was accepted in " << N(end));
    }
    compare("after the end");
    c.nontrivial(visited > 2 && refused > 0);
    c.label("ended in " + N(end));
    c.count("states visited", visited);
}

// ---------------------------------------------------------------- concurrent requests
namespace {
struct Ev { bool accept; T t; S st; };   // accepted transition, or state prepared
struct Req { size_t thread, begin, end; T t; bool result; };
}   // namespace
CASE(concurrent, 5)
{
    StateMachine sm;
    sm.Start();
    vsched::Scheduler sc(s, 25 + static_cast<unsigned>(s.draw(40)));
    std::vector<Ev> ev;
    std::vector<Req> reqs;
    std::vector<S> changes, changes2, handled;
    std::string err;
    const size_t threads = 1 + s.size(3);
    const bool throwing = s.chance(15);
    size_t throwAt = throwing ? s.draw(8) : SIZE_MAX;
    bool threw = false, ended = false;
    size_t running = threads;
    auto request = [&](size_t th, T t) {
        Req r{th, ev.size(), 0, t, false};
        r.result = sm.ChangeState(t);
        r.end = ev.size();
        reqs.push_back(r);
        return r.result;
    };
    sm.SubscribeToNewTransition("log", [&](const T t) {
        ev.push_back({true, t, S::Ok});
        vsched::Scheduler::yield();
    });
    sm.SubscribeToStateChange("a", [&](const S st) { changes.push_back(st); vsched::Scheduler::yield(); });
    sm.SubscribeToStateChange("b", [&](const S st) { changes2.push_back(st); });
    sm.PrepareState([&](const S st) { ev.push_back({false, T::Auto, st}); vsched::Scheduler::yield(); });
    sm.HandleStates([&](const S st) {
        handled.push_back(st);
        if (handled.size() > throwAt && st != S::Error && st != S::Exiting) {
            threw = true;
            throw Oops("handler");
        }
        if (IsAuto(st)) { request(99, T::Auto); }
        vsched::Scheduler::yield();
    });
    std::vector<std::vector<std::pair<int, int>>> plans(threads);
    for (auto& p : plans) {
        for (size_t i = 1 + s.size(8); i > 0; --i) { p.push_back({static_cast<int>(s.weighted({10, 2, 2, 1, 2})), static_cast<int>(s.draw(1000))}); }
    }
    sc.spawn([&] {
        try {
            sm.ProcessWork();
            if (sm.GetCurrentState() != S::Exiting) { err = "the processing ended in " + sm.GetCurrentStateName(); }
        } catch (const Oops&) {
        } catch (const StateMachine::ErrorStateException&) {
            if (sm.GetCurrentState() != S::Error) { err = "error reported in " + sm.GetCurrentStateName(); }
        }
        ended = true;
    });
    auto target = [&]() {   // the state after everything accepted so far
        S at = S::Idle;
        for (auto& e : ev) { if (e.accept) { Legal(at, e.t, &at); } }
        return at;
    };
    for (size_t th = 0; th < threads; ++th) {
        sc.spawn([&, th] {
            for (auto& [op, arg] : plans[th]) {
                switch (op) {
                    case 0: {
                        auto good = LegalFrom(target());
                        T t = !good.empty() && arg % 10 < 7 ? good[static_cast<size_t>(arg) % good.size()] : kAll[static_cast<size_t>(arg) % 11];
                        request(th, t);
                        break;
                    }
                    case 1: sm.WaitForPendingStateFor(arg % 3); break;
                    case 2: {
                        size_t b = ev.size();
                        S got = sm.GetCurrentState();
                        // some state of the path so far, not older than the last one prepared before
                        S at = S::Idle;
                        std::vector<S> allowed{S::Idle};
                        size_t lastPrep = 0;
                        for (size_t i = 0; i < b; ++i) {
                            if (ev[i].accept) {
                                Legal(at, ev[i].t, &at);
                                allowed.push_back(at);
                            } else {
                                ++lastPrep;
                            }
                        }
                        if (std::find(allowed.begin() + static_cast<long>(std::min(lastPrep, allowed.size() - 1)), allowed.end(), got) == allowed.end() && !threw) { err = "GetCurrentState returned " + N(got); }
                        break;
                    }
                    case 3: request(th, arg % 4 == 0 ? T::ErrorFound : T::End); break;
                    default: vsched::Scheduler::yield();
                }
            }
            --running;
        });
    }
    sc.spawn([&] {
        vsched::Scheduler::waitUntil([&] { return running == 0; });
        request(98, T::ErrorFound);
    });
    sc.run();
    c << sc.trace();
    std::ostringstream o;
    for (auto& e : ev) { o << (e.accept ? "+" + N(e.t) : "=" + N(e.st)) << " "; }
    c << " | " << o.str();
    REQ(err.empty(), err);
    REQ(ended, "the processing did not end");
    // accepted transitions form a path through the table; each state on it is entered unless an error overtakes it
    S at = S::Idle;
    std::vector<S> path, entered;
    for (auto& e : ev) {
        if (e.accept) {
            S to = S::Ok;
            REQ(Legal(at, e.t, &to), "transition " << N(e.t) << " was accepted in " << N(at));
            at = to;
            path.push_back(to);
        } else {
            entered.push_back(e.st);
        }
    }
    size_t pi = 0;
    for (size_t i = 0; i < entered.size(); ++i) {
        // next state on the path; one may be overtaken by the error
        if (pi < path.size() && path[pi] != entered[i] && entered[i] == S::Error) { while (pi < path.size() && path[pi] != S::Error) { ++pi; } }
        REQ(pi < path.size() && path[pi] == entered[i], "state " << N(entered[i]) << " was entered, expected " << (pi < path.size() ? N(path[pi]) : std::string("none")) << "; events: " << o.str());
        ++pi;
    }
    if (!threw && pi < path.size()) {
        // what is left can only be an error requested after the end
        REQ(!entered.empty() && (entered.back() == S::Exiting || entered.back() == S::Error), "state " << N(path[pi]) << " was never entered; events: " << o.str());
    }
    // handlers and subscribers follow the entered states one by one
    REQ(handled == entered, "the handlers ran for other states than those entered: " << o.str());
    for (auto* ch : {&changes, &changes2}) {
        std::vector<S> w{S::Idle};
        w.insert(w.end(), entered.begin(), entered.end());
        std::vector<S> g = *ch;
        if (g.size() == w.size() + 1 && g.back() == S::Error) { g.pop_back(); }   // announced (again) at the end
        REQ(g == w, "subscribers heard of other states than those entered");
        if (threw) { REQ(ch->back() == S::Error, "an exception was not announced as the error state"); }
    }
    // results
    std::map<int, int> acc;
    for (auto& e : ev) { if (e.accept) { ++acc[static_cast<int>(e.t)]; } }
    for (auto& r : reqs) { if (r.result && r.t != T::ErrorFound) { --acc[static_cast<int>(r.t)]; } }
    for (auto& [t, n] : acc) {
        if (static_cast<T>(t) != T::ErrorFound) { REQ_EQ(n, 0, "requests of " << N(static_cast<T>(t)) << " carried out but not reported as such"); }
    }
    size_t refused = 0;
    for (auto& r : reqs) {
        if (r.t == T::ErrorFound) {
            REQ(r.result, "an error request was refused");
            continue;
        }
        if (r.result) { continue; }
        ++refused;
        // justified if at some moment of the call another state was pending or the transition was not allowed
        bool justified = false;
        S a = S::Idle;
        int p = 0;   // accepted, and not known to have been taken over
        for (size_t i = 0; i <= r.end && !justified; ++i) {
            if (i >= r.begin) { justified = p > 0 || !Legal(a, r.t); }
            if (i < ev.size()) {
                if (ev[i].accept) { Legal(a, ev[i].t, &a); ++p; } else { --p; }
            }
        }
        REQ(justified || threw, "request " << N(r.t) << " was refused in " << N(a) << " with nothing pending; events: " << o.str());
    }
    c.nontrivial(sc.switches() > 5 && entered.size() > 1);
    c.label("refused requests", refused > 0);
    c.label("a state was overtaken by an error", entered.size() < path.size());
    c.label("handler threw", threw);
}

// every waiter is woken by a transition
CASE(waiters, 1)
{
    StateMachine sm;
    sm.Start();
    vsched::Scheduler sc(s, 30);
    size_t n = 1 + s.size(4), woken = 0, timedOut = 0;
    for (size_t i = 0; i < n; ++i) {
        int kind = static_cast<int>(s.draw(3));
        sc.spawn([&, kind] {
            if (kind < 2) {
                sm.WaitForPendingState();
                REQ(sm.NewStatePending(), "WaitForPendingState returned with nothing pending");
            } else {
                bool r = sm.WaitForPendingStateFor(1000);
                REQ(!r || sm.NewStatePending(), "WaitForPendingStateFor returned true with nothing pending");
                timedOut += !r;
            }
            ++woken;
        });
    }
    T bad = kAll[1 + s.draw(10)];
    sc.spawn([&] {
        if (bad != T::InitDevice && bad != T::End) { REQ(!sm.ChangeState(bad), N(bad) << " accepted in IDLE"); }
        REQ(sm.ChangeState(s.flip() ? T::InitDevice : T::End), "refused in IDLE");
    });
    sc.run();
    c << n << " waiters " << sc.trace();
    REQ_EQ(woken, n, "waiters that returned");
    c.nontrivial(sc.switches() > 2);
}

// subscriptions may change while states are announced
CASE(subscriptions, 1)
{
    StateMachine sm;
    sm.Start();
    vsched::Scheduler sc(s, 30);
    const size_t k = 1 + s.size(3);
    std::vector<std::vector<S>> heard(k);
    std::vector<S> entered;
    bool done = false;
    for (size_t i = 0; i < k; ++i) {
        sm.SubscribeToStateChange("fixed" + std::to_string(i), [&, i](const S st) { heard[i].push_back(st); });
    }
    const T walk[] = {T::InitDevice, T::CompleteInit, T::Bind, T::Auto, T::Connect, T::Auto, T::ResetDevice, T::Auto, T::End};
    size_t pos = 1;
    sm.HandleStates([&](const S st) {
        entered.push_back(st);
        if (st != S::Exiting) { REQ(sm.ChangeState(walk[pos]), N(walk[pos]) << " refused in " << N(st)); ++pos; }
        else { done = true; }
    });
    std::vector<size_t> plan(s.size(8));
    for (auto& x : plan) { x = s.draw(3); }
    size_t calls = 0;
    bool on = false, lateCall = false;
    sc.spawn([&] {
        REQ(sm.ChangeState(walk[0]), "refused in IDLE");
        sm.ProcessWork();
    });
    sc.spawn([&] {
        for (auto x : plan) {
            if (x == 0 && !on) { sm.SubscribeToStateChange("t", [&](const S) { ++calls; }); on = true; }
            else if (x == 1) { sm.UnsubscribeFromStateChange("t"); on = false; }
            else { sm.UnsubscribeFromStateChange("unknown"); vsched::Scheduler::yield(); }
        }
    });
    sc.run();
    c << sc.trace();
    (void)lateCall;
    REQ(done, "the machine did not exit");
    std::vector<S> w{S::Idle};
    w.insert(w.end(), entered.begin(), entered.end());
    for (auto& h : heard) { REQ(h == w, "a subscriber missed or repeated a state"); }
    c.nontrivial(plan.size() > 1);
}
