// C11: a device can be driven through any legal history and always ends cleanly.
// A device whose hooks do generated things is walked through a generated history of its life cycle, with generated and
// changing channels; the log of states and hooks, the channels seen in the hooks and the configuration are compared with
// the documented life cycle.
#include "msgworld.h"
#include <condition_variable>
#include <fairmq/Device.h>
#include <map>
#include <set>
#include <thread>
using namespace mw;
using S = State;
using T = Transition;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {

// what a hook does
enum class Act { none, nap, throwStd, throwInt, error, block, waitFor, automatic, stop, receive, loop };
const char* kAct[] = {"", "nap", "throw", "throw-int", "error", "block", "waitFor", "auto", "stop", "receive", "loop"};

struct ChanCfg   // a group of sub-channels and the group of their peers, in the same device
{
    string name, type, transport;
    int n = 1;
    string otherTransport() const { return transport; }
};
const std::map<string, string> kPeer{{"pair", "pair"}, {"push", "pull"}, {"pull", "push"}, {"req", "rep"}, {"rep", "req"}, {"dealer", "dealer"}};

struct Dev : Device
{
    std::mutex mtx;
    std::condition_variable cv;
    std::vector<string> log;
    std::map<string, Act> plan;
    int cond = 0;                             // how often ConditionalRun goes on; -1: until a new state is pending
    std::map<string, std::pair<string, int>> want;   // channels: type, number
    std::map<string, string> wantTransport;
    string trouble;
    string wantId;
    bool lenient = false;   // the configuration is damaged
    std::vector<string> sendFrom;             // channels that can send to their peer
    std::atomic<bool> blocked{false};
    std::atomic<int> condCalls{0};

    void Log(const string& s)
    {
        std::lock_guard<std::mutex> l(mtx);
        log.push_back(s);
        cv.notify_all();
    }
    void Trouble(const string& s)
    {
        std::lock_guard<std::mutex> l(mtx);
        if (trouble.empty()) { trouble = s; }
    }
    // the channels are there as configured
    void CheckChannels(const string& where, bool bound, bool connected)
    {
        if (lenient) { return; }
        std::ostringstream o;
        if (GetChannels().size() != want.size()) { o << where << ": " << GetChannels().size() << " channels, configured " << want.size(); }
        for (auto& [name, tn] : want) {
            if (!GetChannels().count(name)) { o << where << ": no channel " << name << ". "; continue; }
            if (static_cast<int>(GetNumSubChannels(name)) != tn.second) { o << where << ": " << GetNumSubChannels(name) << " sub-channels of " << name << ", configured " << tn.second << ". "; continue; }
            for (int i = 0; i < tn.second; ++i) {
                auto& ch = GetChannel(name, i);
                if (ch.GetType() != tn.first) { o << where << ": type of " << name << " is " << ch.GetType() << ", configured " << tn.first << ". "; }
                if (ch.GetTransportName() != wantTransport.at(name)) { o << where << ": transport of " << name << " is " << ch.GetTransportName() << ", configured " << wantTransport.at(name) << ". "; }
                if (string(ch.GetName()) != name + "[" + std::to_string(i) + "]") { o << where << ": name " << ch.GetName() << ". "; }
                const bool binds = ch.GetMethod() == "bind";
                if (ch.Transport()->GetId() != fId) { o << where << ": transport of " << name << " has the id " << ch.Transport()->GetId() << " instead of " << fId << ". "; }
                if (((binds && bound) || connected) && !ch.Validate()) { o << where << ": " << ch.GetName() << " is not valid. "; }
            }
        }
        if (fId != wantId) { o << where << ": id is " << fId << ", configured " << wantId << ". "; }
        if (!o.str().empty()) { Trouble(o.str()); }
    }
    bool patient = false;   // tries that an interruption has ended
    // an interruption concerns only the state that was left
    void NotInterrupted(const string& where)
    {
        if (!patient || sendFrom.empty() || NewStatePending()) { return; }
        const string to = sendFrom[0][0] == 'p' ? "q" + sendFrom[0].substr(1) : "p" + sendFrom[0].substr(1);
        auto r = NewMessageFor(to, 0);
        const auto n = Receive(r, to, 0, 50);
        if (n != static_cast<int64_t>(TransferCode::timeout) && !NewStatePending()) { Trouble(where + ": a reception with timeout ended with " + std::to_string(n)); }
    }
    // messages get through
    void Transfer(const string& where)
    {
        for (auto& from : sendFrom) {
            const string to = from[0] == 'p' ? "q" + from.substr(1) : "p" + from.substr(1);
            for (size_t i = 0; i < GetNumSubChannels(from); ++i) {
                const string text = where + from + std::to_string(i);
                auto m = NewSimpleMessageFor(from, static_cast<int>(i), text);
                if (Send(m, from, static_cast<int>(i), 3000) != static_cast<int64_t>(text.size())) {
                    if (!NewStatePending()) { Trouble(where + ": could not send on " + from); }
                    return;
                }
                auto r = NewMessageFor(to, static_cast<int>(i));
                if (Receive(r, to, static_cast<int>(i), 3000) < 0) {
                    if (!NewStatePending()) { Trouble(where + ": nothing arrived on " + to); }
                    return;
                }
                if (string(static_cast<char*>(r->GetData()), r->GetSize()) != text) {
                    Trouble(where + ": received '" + string(static_cast<char*>(r->GetData()), r->GetSize()) + "' on " + to + ", sent '" + text + "'");
                }
            }
        }
    }
    void Do(const string& hook)
    {
        Log(hook);
        Act a;
        {
            std::lock_guard<std::mutex> l(mtx);
            auto it = plan.find(hook);
            a = it == plan.end() ? Act::none : it->second;
        }
        switch (a) {
            case Act::none: break;
            case Act::nap: std::this_thread::sleep_for(std::chrono::milliseconds(3)); break;
            case Act::throwStd: throw std::runtime_error("thrown by " + hook);
            case Act::throwInt: throw 42;
            case Act::error:
                if (!ChangeState(T::ErrorFound)) { Trouble("the error transition was refused in " + hook); }
                break;
            case Act::block:
                blocked = true;
                while (!NewStatePending()) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
                break;
            case Act::waitFor:
                blocked = true;
                if (WaitFor(std::chrono::seconds(100))) { Trouble("WaitFor did not notice the new state"); }
                break;
            case Act::automatic:
                if (!ChangeState(T::Auto)) { Trouble("the automatic transition was refused in " + hook); }
                break;
            case Act::stop:
                if (!ChangeState(T::Stop)) { Trouble("stop was refused in " + hook); }
                break;
            case Act::receive: {
                // must end when a new state is requested
                if (sendFrom.empty()) {
                    blocked = true;
                    while (!NewStatePending()) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
                    break;
                }
                const string to = sendFrom[0][0] == 'p' ? "q" + sendFrom[0].substr(1) : "p" + sendFrom[0].substr(1);
                auto r = NewMessageFor(to, 0);
                blocked = true;
                const auto n = Receive(r, to, 0);
                if (n != static_cast<int64_t>(TransferCode::interrupted)) { Trouble("a blocking reception ended with " + std::to_string(n)); }
                if (!NewStatePending()) { Trouble("a blocking reception ended by itself"); }
                break;
            }
            case Act::loop:
                blocked = true;
                while (!NewStatePending()) { Transfer(hook); }
                break;
        }
    }
    void Init() override { Do("Init"); }
    void Bind() override { CheckChannels("Bind()", true, false); Do("Bind"); }
    void Connect() override { CheckChannels("Connect()", true, !NewStatePending()); Do("Connect"); }
    void InitTask() override { CheckChannels("InitTask()", true, true); NotInterrupted("InitTask"); Transfer("InitTask"); Do("InitTask"); }
    void PreRun() override
    {
        CheckChannels("PreRun()", true, true);
        condCalls = 0;
        Do("PreRun");
    }
    bool ConditionalRun() override
    {
        if (condCalls++ == 0) { Do("ConditionalRun"); }   // logged once
        if (cond < 0) {
            blocked = true;
            return true;
        }
        return condCalls <= cond;
    }
    void Run() override
    {
        NotInterrupted("Run");
        if (!NewStatePending()) { Transfer("Run"); }
        Do("Run");
    }
    void PostRun() override { Do("PostRun"); }
    void ResetTask() override { CheckChannels("ResetTask()", true, true); NotInterrupted("ResetTask"); Transfer("ResetTask"); Do("ResetTask"); }
    void Reset() override { Do("Reset"); }
};

string Join(const std::vector<string>& v)
{
    string o;
    for (auto& x : v) { o += (o.empty() ? "" : " ") + x; }
    return o;
}

struct World
{
    pbt::Src& s;
    pbt::Case& c;
    ProgOptions cfg;
    std::unique_ptr<Dev> d;
    string session = NewSession();
    std::map<string, ChanCfg> groups;      // by number, as in pN and qN
    std::map<string, string> props;        // chans.* as configured (except the addresses)
    std::set<string> bad;                  // what is wrong with the configuration
    string damaged;
    string lateKey, lateAddress;           // an address that is only known later
    string defTransport;
    bool hook0 = false;

    void Set(const string& k, const string& v)
    {
        cfg.SetProperty<string>(k, v);
        if (k.find(".address") == string::npos) { props[k] = v; }
    }
    void SetInt(const string& k, int v)
    {
        cfg.SetProperty<int>(k, v);
        props[k] = std::to_string(v);
    }
    void RemoveGroup(const string& g)
    {
        for (auto& [k, v] : cfg.GetPropertiesStartingWith("chans.p" + g + ".")) { cfg.DeleteProperty(k); props.erase(k); }
        for (auto& [k, v] : cfg.GetPropertiesStartingWith("chans.q" + g + ".")) { cfg.DeleteProperty(k); props.erase(k); }
        groups.erase(g);
    }
    void AddGroup(const string& g)
    {
        ChanCfg cc;
        static const std::vector<string> types{"pair", "push", "pull", "dealer", "req", "rep"};
        cc.type = s.pick(types);
        cc.transport = s.pick({"default", "zeromq", "shmem"});
        cc.n = 1 + static_cast<int>(s.draw(3));
        cc.name = g;
        const auto addr = s.weighted({60, 20, 20});
        const bool modifiers = s.chance(20), linger0 = s.flip();
        for (int i = 0; i < cc.n; ++i) {
            const string p = "chans.p" + g + "." + std::to_string(i) + ".", q = "chans.q" + g + "." + std::to_string(i) + ".";
            Set(p + "type", cc.type);
            Set(q + "type", kPeer.at(cc.type));
            Set(p + "transport", cc.transport);
            Set(q + "transport", cc.transport);
            string a = addr == 0 ? "inproc://a" + g + "_" + std::to_string(i)
                                 : "ipc://" + pbt::Scratch() + "/w" + std::to_string(pbt::WorkerId()) + "g" + g + "_" + std::to_string(i);
            string b = a;
            if (addr == 2) { a += "," + a + "x"; }   // two endpoints
            if (modifiers) {
                Set(p + "method", "unspecified");
                Set(q + "method", "unspecified");
                string a2;
                for (size_t x = 0; x < a.size(); ++x) { a2 += string(x == 0 ? "@" : "") + a[x] + (a[x] == ',' ? "@" : ""); }
                a = a2;
                b = s.pick({"+", ">"}) + b;
            } else {
                Set(p + "method", "bind");
                Set(q + "method", "connect");
            }
            Set(p + "address", a);
            Set(q + "address", b);
            if (linger0) {
                SetInt(p + "linger", 0);
                SetInt(q + "linger", 0);
            }
            if (s.chance(12)) { SetInt(p + "rateLogging", 1); }
            if (s.chance(6)) { SetInt(q + "rateLogging", 2); }
        }
        groups[g] = cc;
        c << "[" << g << ":" << cc.type << "x" << cc.n << " " << cc.transport << " adr" << addr << (modifiers ? " mod" : "") << "]";
    }
    void Damage()
    {
        lateKey.clear();
        if (!bad.empty()) {
            for (auto& [k, v] : cfg.GetPropertiesStartingWith("chans.dup.")) { cfg.DeleteProperty(k); }
            bad.clear();
        }
        d->lenient = false;
        if (!s.chance(12) || groups.empty()) { return; }
        auto it = groups.begin();
        std::advance(it, s.draw(groups.size()));
        const string g = damaged = it->first;
        d->lenient = true;
        switch (s.draw(5)) {
            case 0: Set("chans.p" + g + ".0.method", "unspecified"), cfg.SetProperty<string>("chans.p" + g + ".0.address", "inproc://nowhere"), bad.insert("method"); break;
            case 1: cfg.SetProperty<string>("transport", "nothing"), bad.insert("transport"); break;
            case 2: {   // taken address
                cfg.SetProperty<string>("chans.dup.0.address", cfg.GetProperty<string>("chans.p" + g + ".0.address"));
                const string a = cfg.GetProperty<string>("chans.p" + g + ".0.address");
                if (a.find("inproc://") != 0) {   // ipc replaces silently
                    cfg.DeleteProperty("chans.dup.0.address");
                    break;
                }
                cfg.SetProperty<string>("chans.dup.0.type", "pair");
                cfg.SetProperty<string>("chans.dup.0.method", "bind");
                cfg.SetProperty<string>("chans.dup.0.transport", groups[g].transport);
                bad.insert("bind");
                break;
            }
            case 3: Set("chans.p" + g + ".0.type", "nonsense"), bad.insert(cfg.GetProperty<string>("chans.p" + g + ".0.method") == "bind" ? "bind" : "connect"); break;
            default:
                if (cfg.GetProperty<string>("chans.q" + g + ".0.method") == "connect") {
                    lateKey = "chans.q" + g + ".0.address";
                    lateAddress = cfg.GetProperty<string>(lateKey);
                    cfg.SetProperty<string>(lateKey, "unspecified");
                    bad.insert("late");
                }
        }
        for (auto& b : bad) { c << "{" << b << "}"; }
    }
    void Configure()
    {
        // first the old ones
        if (!bad.empty() && groups.count(damaged)) { RemoveGroup(damaged); }
        for (auto g : {"0", "1", "2"}) {
            if (groups.count(g) && s.chance(30)) { RemoveGroup(g); }
            if (!groups.count(g) && s.chance(45)) { AddGroup(g); }
        }
        defTransport = s.pick({"zeromq", "shmem"});
        cfg.SetProperty<string>("transport", defTransport);
        const string id = s.pick({"dev", "other", "x"});
        cfg.SetProperty<string>("id", id);
        if (s.chance(20)) { cfg.SetProperty<float>("rate", 2000); }
        cfg.SetProperty<int>("init-timeout", 1 + static_cast<int>(s.draw(3)));
        Damage();
        d->wantId = id;
    }
    void Expect()
    {
        std::lock_guard<std::mutex> l(d->mtx);
        d->want.clear();
        d->wantTransport.clear();
        d->sendFrom.clear();
        for (auto& [g, cc] : groups) {
            d->want["p" + g] = {cc.type, cc.n};
            d->want["q" + g] = {kPeer.at(cc.type), cc.n};
            d->wantTransport["p" + g] = d->wantTransport["q" + g] = cc.transport == "default" ? defTransport : cc.transport;
            if (cc.type == "pair" || cc.type == "push" || cc.type == "dealer") { d->sendFrom.push_back("p" + g); }
            if (cc.type == "pull") { d->sendFrom.push_back("q" + g); }
        }
    }
    void CheckConfig(const string& where)
    {
        for (auto& [k, v] : props) {
            REQ(cfg.Count(k) == 1, where << ": the property " << k << " is lost");
            REQ_EQ(cfg.GetPropertyAsString(k), v, where << ": property " << k);
        }
        for (auto& [g, cc] : groups) {
            for (int i = 0; i < cc.n; ++i) {
                REQ(cfg.Count("chans.p" + g + "." + std::to_string(i) + ".address") == 1, where << ": an address is lost");
            }
        }
        REQ_EQ(cfg.GetChannelInfo().size(), 2 * groups.size() + (cfg.Count("chans.dup.0.type") ? 1 : 0), where << ": configured channels");
    }
};

const std::map<S, std::vector<T>> kNext{
    {S::Idle, {T::InitDevice, T::End}},
    {S::InitializingDevice, {T::CompleteInit}},
    {S::Initialized, {T::Bind, T::ResetDevice}},
    {S::Bound, {T::Connect, T::ResetDevice}},
    {S::DeviceReady, {T::InitTask, T::ResetDevice}},
    {S::Ready, {T::Run, T::ResetTask}},
};
const std::vector<T> kAll{T::Auto, T::InitDevice, T::CompleteInit, T::Bind, T::Connect, T::InitTask, T::Run, T::Stop, T::ResetTask, T::ResetDevice, T::End};

void Walk(pbt::Src& s, pbt::Case& c)
{
    World w{s, c};
    auto& cfg = w.cfg;
    cfg.SetProperty<string>("session", w.session);
    cfg.SetProperty<size_t>("shm-segment-size", 1 << 20);
    cfg.SetProperty<bool>("shm-monitor", false);
    w.d = std::make_unique<Dev>();
    auto& d = *w.d;
    d.SetConfig(cfg);
    d.SubscribeToStateChange("test", [&](S st) { d.Log("-" + GetStateName(st)); });
    enum class End { running, returned, threw };
    std::atomic<End> end{End::running};
    bool errorByException = false;
    std::thread machine([&] {
        try {
            d.RunStateMachine();
            end = End::returned;
        } catch (...) {
            end = End::threw;
        }
        d.Log("*");
    });
    std::vector<S> handled;   // the states the device's queue was told
    bool joined = false;
    auto join = [&] {
        if (!joined) {
            joined = true;
            machine.join();
        }
    };
    struct OnExit
    {
        std::function<void()> f;
        ~OnExit() { f(); }
    } onExit{[&] {
        if (!joined) {   // a requirement failed
            for (int64_t t0 = pbt::NowMs(); end == End::running;) {
                (void)d.ChangeState(T::ErrorFound);
                std::this_thread::sleep_for(std::chrono::milliseconds(10));
                if (pbt::NowMs() - t0 > 3000) {
                    std::lock_guard<std::mutex> l(d.mtx);
                    fprintf(stderr, "the device hangs; log: %s\n", Join(d.log).c_str());
                    abort();
                }
            }
            join();
        }
        w.d.reset();
        RemoveShm(shmem::makeShmIdStr(w.session));
        std::remove(SessionFile().c_str());
    }};

    auto waitLog = [&](const string& what, auto pred) {
        std::unique_lock<std::mutex> l(d.mtx);
        REQ(d.cv.wait_for(l, std::chrono::seconds(15), pred), "hung: waited for " << what << ", log: " << Join(d.log));
    };
    auto takeLog = [&] {
        std::lock_guard<std::mutex> l(d.mtx);
        auto v = std::move(d.log);
        d.log.clear();
        return v;
    };
    waitLog("IDLE", [&] { return !d.log.empty(); });
    takeLog();

    S state = S::Idle;
    bool over = false;
    int steps = 0, inits = 0, resets = 0, throws = 0;
    const int maxSteps = 4 + static_cast<int>(s.size(30));
    const bool shy = s.chance(60);   // rarely fails
    const unsigned specialChance = shy ? 4 : 15;

    while (!over) {
        ++steps;
        // refused requests
        if (s.chance(15)) {
            auto t = s.pick(kAll);
            auto& legal = kNext.at(state);
            if (std::find(legal.begin(), legal.end(), t) == legal.end()) {
                c << " !" << GetTransitionName(t);
                REQ(!d.ChangeState(t), "the transition " << t << " is allowed in " << state);
            }
        }
        // towards the end when the time is over
        T t;
        if (s.chance(steps > maxSteps ? 30 : 1)) {
            t = T::ErrorFound;
        } else if (steps > maxSteps) {
            t = kNext.at(state).back();
        } else if (state == S::Idle) {
            t = s.chance(6) ? T::End : T::InitDevice;
        } else {
            auto& n = kNext.at(state);
            t = s.chance(25) ? n.back() : n.front();
        }
        c << " " << GetTransitionName(t);

        // the hooks of the way, and what is expected
        std::vector<string> hooks, want;
        S target = state;
        bool willThrow = false, willError = false;
        switch (t) {
            case T::End: want = {"-EXITING", "*"}; break;
            case T::ErrorFound: break;
            case T::InitDevice: target = S::InitializingDevice; break;
            case T::CompleteInit: hooks = {"Init"}; target = S::Initialized; break;
            case T::Bind: hooks = {"Bind"}; want = {"-BINDING"}; target = S::Bound; break;
            case T::Connect: hooks = {"Connect"}; want = {"-CONNECTING"}; target = S::DeviceReady; break;
            case T::InitTask: hooks = {"InitTask"}; want = {"-INITIALIZING TASK"}; target = S::Ready; break;
            case T::Run: hooks = {"PreRun", "ConditionalRun", "Run", "PostRun"}; want = {"-RUNNING"}; target = S::Ready; break;
            case T::ResetTask: hooks = {"ResetTask"}; want = {"-RESETTING TASK"}; target = S::DeviceReady; break;
            case T::ResetDevice: hooks = {"Reset"}; want = {"-RESETTING DEVICE"}; target = S::Idle; break;
            default: break;
        }
        if (t == T::InitDevice) { ++inits; }
        if (t == T::ResetDevice) { ++resets; }
        if (t == T::CompleteInit) {
            c << "(";
            w.Configure();
            w.Expect();
            c << ")";
        }
        std::map<string, Act> plan;
        int cond = 0;
        bool needsPush = false;   // the driver has to ask for the next state
        T push = T::ErrorFound;
        bool failing = false;     // the step fails before its hook
        bool connectLate = false, connectNever = false;
        if (t == T::Bind && w.bad.count("bind")) { failing = true; }
        if (t == T::Connect && w.bad.count("connect")) { failing = true; }
        if (t == T::Connect && w.bad.count("late")) {
            switch (s.weighted({60, 25, 15})) {
                case 0: connectLate = true; break;
                case 1: connectNever = true; failing = false; needsPush = true; break;   // ErrorFound meanwhile
                default: failing = true;                                                 // times out
            }
        }
        bool stopped = false;
        std::set<string> pendingAlready;
        if (t == T::CompleteInit) { pendingAlready.insert("Init"); }
        for (auto& h : hooks) {
            if (failing) { break; }
            if (h == "ConditionalRun") {
                if (stopped) { continue; }
                cond = s.chance(70) ? static_cast<int>(s.draw(4)) : 0;
            }
            want.push_back(h);
            Act a = Act::none;
            if (s.chance(specialChance)) {
                a = s.pick({Act::throwStd, Act::throwInt, Act::error, Act::block, Act::waitFor, Act::automatic});
                if (t == T::Run && (a == Act::automatic)) { a = Act::stop; }
            } else if (s.chance(10)) {
                a = Act::nap;
            } else if (h == "Run" && s.chance(45)) {
                a = s.pick({Act::receive, Act::loop, Act::block, Act::waitFor});
            } else if (h == "ConditionalRun" && s.chance(15)) {
                cond = -1;
            }
            if (a == Act::automatic && (t == T::CompleteInit)) { a = Act::none; }
            if (connectNever && a != Act::none) { a = Act::none; }
            if (a == Act::stop && stopped) { a = Act::none; }   // already asked for
            const bool blocks = a == Act::block || a == Act::waitFor || a == Act::receive || a == Act::loop || cond == -1;
            if (blocks && a == Act::none && h == "ConditionalRun") {
                // goes on until it is stopped
            }
            plan[h] = a;
            if (a != Act::none || cond == -1) { c << "(" << h << ":" << (a == Act::none ? "forever" : kAct[static_cast<int>(a)]) << ")"; }
            if (a == Act::throwStd || a == Act::throwInt) {
                willThrow = true;
                ++throws;
                break;
            }
            if (a == Act::error) { willError = true; stopped = true; }
            if (a == Act::stop) { stopped = true; }
            if (h == "Run" && !stopped && !needsPush && !blocks) { stopped = true; }   // PostRun: stop is pending
            if ((a == Act::block || a == Act::waitFor || a == Act::receive || a == Act::loop || (h == "ConditionalRun" && cond == -1)) && !stopped && !pendingAlready.count(h)) {
                needsPush = true;
                stopped = true;
                push = t == T::Run && s.chance(85) ? T::Stop : T::ErrorFound;
                if (push == T::ErrorFound) { willError = true; }
                c << "<" << GetTransitionName(push) << ">";
            }
        }
        if (connectNever) { willError = true; }
        // a failing configuration
        if (t == T::CompleteInit && !willThrow && (w.bad.count("transport") || w.bad.count("method"))) { failing = true; }
        if (failing) { willThrow = true; }
        if (willThrow || willError || t == T::ErrorFound) {
            over = true;
        } else if (t == T::End) {
            over = true;
        } else {
            want.push_back("-" + GetStateName(target));
        }
        if (willThrow) { errorByException = true; }

        const bool patient = s.chance(12);
        {
            std::lock_guard<std::mutex> l(d.mtx);
            d.plan = plan;
            d.cond = cond;
            d.patient = patient;
            d.blocked = false;
        }
        if (patient) { c << "p"; }
        // ask, sometimes from several threads at once
        const int askers = t != T::Run && t != T::ErrorFound && s.chance(10) ? 2 + static_cast<int>(s.draw(2)) : 1;
        std::atomic<int> granted{0};
        if (askers == 1) {
            if (s.flip()) { granted += d.ChangeState(t); }
            else {
                try {
                    s.flip() ? d.ChangeStateOrThrow(t) : d.ChangeStateOrThrow(GetTransitionName(t));
                    ++granted;
                } catch (const std::system_error& e) {
                    REQ(e.code() == MakeErrorCode(ErrorCode::DeviceChangeStateFailed), "wrong error code for a refused transition: " << e.what());
                }
            }
        } else {
            c << "x" << askers;
            std::vector<std::thread> th;
            for (int i = 0; i < askers; ++i) { th.emplace_back([&] { granted += d.ChangeState(t); }); }
            for (auto& x : th) { x.join(); }
        }
        REQ_EQ(granted.load(), 1, "requests for " << GetTransitionName(t) << " that were granted");
        if (connectLate) {
            std::this_thread::sleep_for(std::chrono::milliseconds(s.draw(200)));
            cfg.SetProperty<string>(w.lateKey, w.lateAddress);
            w.bad.erase("late");
        }
        if (needsPush) {
            if (connectNever) {
                waitLog("-CONNECTING", [&] { return !d.log.empty(); });
                std::this_thread::sleep_for(std::chrono::milliseconds(s.draw(120)));
            } else {
                for (int64_t t0 = pbt::NowMs(); !d.blocked && end == End::running;) {
                    REQ(pbt::NowMs() - t0 < 15000, "hung: user code is not reached");
                    std::this_thread::sleep_for(std::chrono::milliseconds(1));
                }
                if (s.flip()) { std::this_thread::sleep_for(std::chrono::milliseconds(s.draw(20))); }
            }
            REQ(d.ChangeState(push), "the transition " << push << " was refused while " << GetTransitionName(t) << " is under way");
        }
        if (over) {
            waitLog("the end", [&] { return !d.log.empty() && d.log.back() == "*"; });
            join();
        } else {
            waitLog(want.back(), [&] { return (!d.log.empty() && d.log.back() == want.back() && d.log.size() >= want.size()) || (!d.log.empty() && d.log.back() == "*"); });
        }
        auto got = takeLog();
        {
            std::lock_guard<std::mutex> l(d.mtx);
            REQ(d.trouble.empty(), d.trouble);
        }
        if (over && t != T::End) {
            // the error state is told, once or again
            REQ(got.size() >= 2 && got[got.size() - 2] == "-ERROR", "the error state was not told: " << Join(got));
            got.pop_back();
            while (!got.empty() && got.back() == "-ERROR") { got.pop_back(); }
            if (connectNever) {   // the hook is called in any case
                REQ_EQ(Join(got), "-CONNECTING Connect", "states and hooks on " << GetTransitionName(t));
            } else {
                // the hook runs before the transport is looked up, and so on
                if (t == T::CompleteInit && failing) { want = {"Init"}; }
                // what waits for the configuration to be completed may still begin
                if (t == T::ErrorFound && state == S::InitializingDevice && got.size() == 1 && got[0] == "Init") { got.clear(); }
                REQ_EQ(Join(got), Join(want), "states and hooks on " << GetTransitionName(t));
            }
            REQ(end == End::threw, "the state machine returned normally from an error");
            handled.clear();
        } else {
            REQ_EQ(Join(got), Join(want), "states and hooks on " << GetTransitionName(t));
            if (over) { REQ(end == End::returned, "the state machine did not end normally"); }
        }
        // the device's own queue is told everything
        if (s.chance(50) || over) {
            S last = over ? (t == T::End ? S::Exiting : S::Error) : target;
            std::atomic<bool> done{false}, told{false};
            std::thread waiter([&] {
                try {
                    if (last == S::Error) {
                        while (true) { d.WaitForNextState(); }
                    }
                    d.WaitForState(last);
                } catch (const DeviceErrorState&) {
                    told = true;
                }
                done = true;
            });
            for (int64_t t0 = pbt::NowMs(); !done && pbt::NowMs() - t0 < 15000;) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
            if (!done) {
                c << " (WaitForState hangs)";
                fprintf(stderr, "WaitForState(%s) hangs\n", GetStateName(last).c_str());
                abort();
            }
            waiter.join();
            REQ_EQ(told.load(), last == S::Error, "waiting for a state of the device ended with the error state");
        }
        if (!over && target == S::Idle) {
            REQ(d.GetChannels().empty(), "channels are left after the reset");
            REQ(d.Transport() == nullptr, "the transport is left after the reset");
        }
        w.CheckConfig("after " + GetTransitionName(t));
        state = target;
    }
    if (state != S::Exiting && end == End::threw) {
        for (auto t : kAll) { REQ(!d.ChangeState(t), "the transition " << t << " is allowed in the error state"); }
    }
    REQ_EQ(GetStateName(d.GetCurrentState()), string(end == End::threw ? "ERROR" : "EXITING"), "state at the end");
    c.nontrivial(inits > 1 || throws > 0 || (steps > 6 && w.groups.size() > 0));
    c.label("initialized again", inits > 1);
    c.label("reset", resets > 0);
    c.label("thrown", throws > 0);
    c.label("error", end == End::threw);
    c.count("steps", steps);
}
}   // namespace

RACY_CASE(walk, 1, 60000) { Walk(s, c); }
