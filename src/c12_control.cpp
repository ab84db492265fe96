// C12: at most one plugin controls the device, and only it can change its state.
#include "harness.h"
#include "schedule.h"
#include <condition_variable>
#include <fairmq/Device.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginServices.h>
#include <fairmq/ProgOptions.h>
#include <optional>
#include <thread>

using namespace fair::mq;
using std::string;
using S = State;
using T = Transition;

namespace {
using Owner = std::optional<string>;
string Str(const Owner& o) { return o ? "'" + *o + "'" : "nobody"; }
Owner Get(PluginServices& ps)
{
    auto c = ps.GetDeviceController();
    return c ? Owner{*c} : Owner{};
}
struct P : Plugin
{
    P(const string& name, PluginServices* ps) : Plugin(name, {1, 0, 0}, "m", "h", ps) {}
};
enum class Op { take, steal, release, get, change, wait, pluginRelease };
const char* kOp[] = {"take", "steal", "release", "get", "change", "wait", "release-if-mine"};

// one operation as it was seen: between begin and end
struct Seen
{
    Op op;
    string who;
    bool refused = false;
    Owner got;
    size_t begin = 0, end = 0;
    size_t thread = 0;
};
string Str(const Seen& x)
{
    std::ostringstream o;
    o << x.who << "." << kOp[static_cast<int>(x.op)] << "[" << x.begin << "," << x.end << "]";
    if (x.refused) { o << " refused"; }
    if (x.op == Op::get) { o << "=" << Str(x.got); }
    return o.str();
}
// is there an order of the operations, within their times, that a single owner explains?
bool Apply(const Seen& x, Owner& o)
{
    switch (x.op) {
        case Op::take:
        case Op::change:
            if (!o) { o = x.who; }
            return x.refused == (o != Owner{x.who});
        case Op::steal: o = x.who; return !x.refused;
        case Op::release:
        case Op::pluginRelease:
            if (o == Owner{x.who}) { o.reset(); }
            return !x.refused;
        case Op::get: return x.got == o;
        case Op::wait: return !o;
    }
    return false;
}
struct Linear
{
    const std::vector<Seen>& h;
    std::set<std::pair<uint64_t, string>> visited;
    bool Search(uint64_t done, const Owner& o)
    {
        if (done == (uint64_t(1) << h.size()) - 1) { return true; }
        if (!visited.insert({done, o ? *o : ""}).second) { return false; }
        size_t minEnd = ~size_t(0);
        for (size_t i = 0; i < h.size(); ++i) { if (!(done >> i & 1)) { minEnd = std::min(minEnd, h[i].end); } }
        for (size_t i = 0; i < h.size(); ++i) {
            if (done >> i & 1 || h[i].begin > minEnd) { continue; }
            Owner n = o;
            if (Apply(h[i], n) && Search(done | uint64_t(1) << i, n)) { return true; }
        }
        return false;
    }
};

struct Plan
{
    Op op;
    T t;
};
Op DrawOp(pbt::Src& s, bool wait)
{
    switch (s.weighted({30, 8, 24, 10, 16, wait ? 10u : 0u, 8})) {
        case 0: return Op::take;
        case 1: return Op::steal;
        case 2: return Op::release;
        case 3: return Op::get;
        case 4: return Op::change;
        case 5: return Op::wait;
        default: return Op::pluginRelease;
    }
}

// several plugins and a device, of which each runs in its own thread
void Concurrent(pbt::Src& s, pbt::Case& c, bool scheduled)
{
    ProgOptions cfg;
    cfg.SetProperty<string>("transport", s.chance(50) ? "none such" : "zeromq");   // completing the initialization fails or not
    Device d;
    d.SetConfig(cfg);
    PluginServices ps(cfg, d);
    const size_t np = 2 + s.draw(2), nw = s.draw(4);
    std::vector<std::unique_ptr<P>> plugins;
    std::vector<std::vector<Plan>> plan(np);
    static const std::vector<T> ts{T::InitDevice, T::CompleteInit, T::ErrorFound, T::End, T::Bind, T::Run};
    size_t total = 0;
    for (size_t i = 0; i < np; ++i) {
        plugins.push_back(std::make_unique<P>("p" + std::to_string(i), &ps));
        c << " p" << i << ":";
        for (size_t n = 1 + s.draw(5); n > 0; --n) {
            plan[i].push_back({DrawOp(s, false), s.pick(ts)});
            c << kOp[static_cast<int>(plan[i].back().op)];
            if (plan[i].back().op == Op::change) { c << "(" << GetTransitionName(plan[i].back().t) << ")"; }
            c << " ";
            ++total;
        }
    }
    c << nw << " waiting ";
    const bool viaPlugin = s.flip();
    // what a plugin does when it is told of a state
    const int inCallback = static_cast<int>(s.draw(5));
    const T inCallbackT = s.pick(ts);
    static const char* kCb[] = {"nothing", "get", "release", "take and release", "change"};
    c << "callback: " << kCb[inCallback] << (inCallback == 4 ? " " + GetTransitionName(inCallbackT) : string());

    std::vector<Seen> history;
    std::mutex hm;
    std::atomic<size_t> clock{0};
    std::atomic<size_t> trueChanges{0}, transitions{0};
    std::atomic<size_t> left{np};
    std::atomic<bool> machineEnded{false};
    auto act = [&](size_t i, Op op, T t, size_t thread) {
        Seen x{op, "p" + std::to_string(i), false, {}, ++clock, 0, thread};
        try {
            auto& p = *plugins[i];
            switch (op) {
                case Op::take: viaPlugin ? p.TakeDeviceControl() : ps.TakeDeviceControl(x.who); break;
                case Op::steal: viaPlugin ? p.StealDeviceControl() : ps.StealDeviceControl(x.who); break;
                case Op::release: ps.ReleaseDeviceControl(x.who); break;
                case Op::pluginRelease: p.ReleaseDeviceControl(); break;
                case Op::get: x.got = Get(ps); break;
                case Op::change: trueChanges += (viaPlugin ? p.ChangeDeviceState(t) : ps.ChangeDeviceState(x.who, t)) && t != T::ErrorFound; break;
                case Op::wait: ps.WaitForReleaseDeviceControl(); break;
            }
        } catch (const PluginServices::DeviceControlError&) {
            x.refused = true;
        }
        x.end = ++clock;
        std::lock_guard<std::mutex> l(hm);
        history.push_back(x);
    };
    d.SubscribeToNewTransition("test", [&](T) { ++transitions; });
    // a plugin that acts when it is told of a state is another thread of the history
    plugins.push_back(std::make_unique<P>("cb", &ps));
    plugins.back()->SubscribeToDeviceStateChange([&](S) {
        auto cb = [&](Op op) {
            Seen x{op, "cb", false, {}, ++clock, 0, 99};
            try {
                switch (op) {
                    case Op::get: x.got = Get(ps); break;
                    case Op::take: plugins.back()->TakeDeviceControl(); break;
                    case Op::change: trueChanges += plugins.back()->ChangeDeviceState(inCallbackT) && inCallbackT != T::ErrorFound; break;
                    default: ps.ReleaseDeviceControl("cb");
                }
            } catch (const PluginServices::DeviceControlError&) {
                x.refused = true;
            }
            x.end = ++clock;
            std::lock_guard<std::mutex> l(hm);
            history.push_back(x);
        };
        switch (inCallback) {
            case 1: cb(Op::get); break;
            case 2: cb(Op::release); break;
            case 3: cb(Op::take); cb(Op::release); break;
            case 4: cb(Op::change); cb(Op::release); break;
            default: break;
        }
    });
    std::vector<std::function<void()>> threads;
    threads.push_back([&] {
        try { d.RunStateMachine(); } catch (const std::exception&) {}
        machineEnded = true;
    });
    for (size_t i = 0; i < np; ++i) {
        threads.push_back([&, i] {
            for (auto& p : plan[i]) { act(i, p.op, p.t, i); }
            if (--left == 0) {
                // the last one ends the device and gives control back for whoever holds it
                (void)d.ChangeState(T::ErrorFound);
                if (scheduled) { vsched::Scheduler::waitUntil([&] { return machineEnded.load(); }); }
                else { while (!machineEnded) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); } }
                // only by who holds it
                const Owner holder = Get(ps);
                if (holder) {
                    Seen x{Op::release, *holder, false, {}, ++clock, 0, i};
                    ps.ReleaseDeviceControl(*holder);
                    x.end = ++clock;
                    std::lock_guard<std::mutex> l(hm);
                    history.push_back(x);
                }
            }
        });
    }
    for (size_t i = 0; i < nw; ++i) { threads.push_back([&, i] { act(0, Op::wait, T::Auto, 10 + i); }); }
    size_t switches = 10;
    if (scheduled) {
        vsched::Scheduler sc(s);
        for (auto& f : threads) { sc.spawn(f); }
        sc.run();
        switches = sc.switches();
    } else {
        std::vector<std::thread> th;
        for (auto& f : threads) { th.emplace_back(f); }
        for (auto& t : th) { t.join(); }
    }
    if (history.size() > 60) { throw pbt::Discard{}; }
    std::sort(history.begin(), history.end(), [](auto& a, auto& b) { return a.begin < b.begin; });
    Linear lin{history, {}};
    std::ostringstream o;
    for (auto& x : history) { o << Str(x) << "; "; }
    REQ(lin.Search(0, {}), "no single controller explains what was seen: " << o.str());
    REQ(!Get(ps), "somebody is left in control");
    // an error state entered by an exception, and the driver's, come on top
    REQ(transitions >= trueChanges, trueChanges << " requests were granted but only " << transitions << " transitions happened");
    size_t refused = 0;
    for (auto& x : history) { refused += x.refused; }
    c.label("refused", refused > 0);
    c.label("waited", nw > 0);
    c.nontrivial(total > 3 && refused > 0 && switches > 4);
    plugins.back()->UnsubscribeFromDeviceStateChange();
}
}   // namespace

#ifndef NO_INTERPOSE
// one caller at a time, compared with a model after every call
CASE(history, 2)
{
    ProgOptions cfg;
    Device d;
    d.SetConfig(cfg);
    PluginServices ps(cfg, d);
    std::vector<std::unique_ptr<P>> plugins;
    static const std::vector<string> names{"p0", "p1", "p2", "", "p"};
    const size_t np = 2 + s.draw(3);
    for (size_t i = 0; i < np; ++i) { plugins.push_back(std::make_unique<P>(names[i], &ps)); }
    std::mutex m;
    std::condition_variable cv;
    std::vector<S> states;
    std::vector<T> transitions;
    d.SubscribeToStateChange("t", [&](S x) {
        std::lock_guard<std::mutex> l(m);
        states.push_back(x);
        cv.notify_all();
    });
    d.SubscribeToNewTransition("t", [&](T x) { transitions.push_back(x); });
    std::thread machine([&] { try { d.RunStateMachine(); } catch (...) {} });
    bool over = false;
    struct Join
    {
        std::thread& t;
        Device& d;
        bool& over;
        ~Join()
        {
            for (int i = 0; i < 3 && !over; ++i) {
                (void)d.ChangeState(T::ErrorFound);
                std::this_thread::sleep_for(std::chrono::milliseconds(3));
            }
            t.join();
        }
    } join{machine, d, over};
    auto waitState = [&](S x) {
        std::unique_lock<std::mutex> l(m);
        REQ(cv.wait_for(l, std::chrono::seconds(10), [&] { return !states.empty() && states.back() == x; }), "the device does not reach " << x);
    };
    waitState(S::Idle);
    struct Row { S from; T t; S to; };
    static const std::vector<Row> rows{{S::Idle, T::InitDevice, S::InitializingDevice}, {S::InitializingDevice, T::CompleteInit, S::Initialized}, {S::Initialized, T::Bind, S::Bound},
        {S::Initialized, T::ResetDevice, S::Idle}, {S::Bound, T::Connect, S::DeviceReady}, {S::Bound, T::ResetDevice, S::Idle}, {S::DeviceReady, T::InitTask, S::Ready},
        {S::DeviceReady, T::ResetDevice, S::Idle}, {S::Ready, T::Run, S::Ready}, {S::Ready, T::ResetTask, S::DeviceReady}};
    static const std::vector<T> all{T::Auto, T::InitDevice, T::CompleteInit, T::Bind, T::Connect, T::InitTask, T::Run, T::Stop, T::ResetTask, T::ResetDevice};
    S at = S::Idle;
    Owner owner;
    // somebody waits for release
    std::thread waiter;
    std::atomic<bool> waited{false};
    bool waiting = false, mayEnd = false;
    size_t changed = 0, refusedN = 0, handovers = 0;
    const size_t n = 2 + s.size(25);
    for (size_t i = 0; i < n; ++i) {
        const size_t who = s.draw(np);
        auto& p = *plugins[who];
        const string name = names[who];
        const bool viaPlugin = s.flip();
        bool refused = false, wantRefused = false;
        const auto before = transitions.size();
        auto op = DrawOp(s, true);
        c << " " << name << "." << kOp[static_cast<int>(op)];
        Owner was = owner;
        try {
            switch (op) {
                case Op::take:
                    wantRefused = owner && *owner != name;
                    if (!owner) { owner = name; }
                    viaPlugin ? p.TakeDeviceControl() : ps.TakeDeviceControl(name);
                    break;
                case Op::steal:
                    owner = name;
                    viaPlugin ? p.StealDeviceControl() : ps.StealDeviceControl(name);
                    break;
                case Op::release:
                    if (owner == Owner{name}) { owner.reset(); }
                    ps.ReleaseDeviceControl(name);
                    break;
                case Op::pluginRelease:
                    if (owner == Owner{name}) { owner.reset(); }
                    p.ReleaseDeviceControl();
                    break;
                case Op::get: break;
                case Op::wait:
                    if (!waiting) {
                        waiting = true;
                        waited = false;
                        mayEnd = !owner;
                        waiter = std::thread([&] {
                            ps.WaitForReleaseDeviceControl();
                            waited = true;
                        });
                        if (s.flip()) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
                    }
                    break;
                case Op::change: {
                    // mostly what goes on
                    T t = s.pick(all);
                    if (s.chance(75)) {
                        std::vector<T> ok;
                        for (auto& r : rows) { if (r.from == at) { ok.push_back(r.t); } }
                        t = s.pick(ok);
                    }
                    c << "(" << GetTransitionName(t) << ")";
                    wantRefused = owner && *owner != name;
                    if (!owner) { owner = name; }
                    const Row* row = nullptr;
                    for (auto& r : rows) { if (r.from == at && r.t == t) { row = &r; } }
                    {
                        std::lock_guard<std::mutex> l(m);
                        states.clear();
                    }
                    const bool ok = viaPlugin ? p.ChangeDeviceState(t) : ps.ChangeDeviceState(name, t);
                    REQ(!wantRefused, "'" << name << "' changed the state although " << Str(was) << " is in control");
                    REQ_EQ(ok, row != nullptr, "request for " << GetTransitionName(t) << " in " << GetStateName(at));
                    if (row) {
                        waitState(row->to);
                        if (row->t == T::Run) {   // running, and ready again
                            for (int64_t t0 = pbt::NowMs(); d.NewStatePending() && pbt::NowMs() - t0 < 10000;) { std::this_thread::yield(); }
                        }
                        at = row->to;
                        ++changed;
                    }
                    break;
                }
            }
        } catch (const PluginServices::DeviceControlError& e) {
            refused = true;
        }
        REQ_EQ(refused, wantRefused, "'" << name << "'." << kOp[static_cast<int>(op)] << " refused (in control: " << Str(was) << ")");
        refusedN += refused;
        handovers += owner != was;
        REQ(Get(ps) == owner, "in control is " << Str(Get(ps)) << " instead of " << Str(owner));
        if (refused) { REQ_EQ(transitions.size(), before, "transitions caused by a refused request"); }
        REQ_EQ(GetStateName(ps.GetCurrentDeviceState()), GetStateName(at), "current state");
        if (waiting) {
            mayEnd = mayEnd || !owner;
            if (!mayEnd) {
                REQ(!waited, "waiting for the release ended although " << Str(owner) << " is in control");
            } else if (!owner && s.chance(60)) {
                for (int64_t t0 = pbt::NowMs(); !waited; std::this_thread::sleep_for(std::chrono::microseconds(100))) {
                    if (pbt::NowMs() - t0 > 10000) {
                        c << " HANGS";
                        fprintf(stderr, "waiting for release does not end although nobody is in control\n");
                        abort();
                    }
                }
                waiter.join();
                waiting = false;
            }
        }
    }
    for (auto& name : names) { ps.ReleaseDeviceControl(name); }
    if (waiting) { waiter.join(); }
    (void)d.ChangeState(T::ErrorFound);
    over = true;
    c.nontrivial(changed > 0 && refusedN > 0 && handovers > 1);
    c.label("refused", refusedN > 0);
}

CASE(schedules, 3) { Concurrent(s, c, true); }
#endif
RACY_CASE(threads, 1, 20000) { Concurrent(s, c, false); }
