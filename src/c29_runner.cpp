// C29: the runner and the control plugin carry a device through its life; each case is a process of its own.
#include "harness.h"
#include <dlfcn.h>
#include <fairmq/Device.h>
#include <fairmq/DeviceRunner.h>
#include <fairmq/Plugin.h>
#include <fairmq/StateQueue.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace fair::mq;
using std::string;
using std::vector;

// --- delays at locks, to try other interleavings (only in the child) --------------------------------------------------
namespace {
std::atomic<int> gDelayPercent{0};
std::atomic<uint64_t> gDelaySeed{0};
std::atomic<int> gThreads{0};
void Delay()
{
    const int p = gDelayPercent.load(std::memory_order_relaxed);
    if (p == 0) { return; }
    static thread_local uint64_t x = gDelaySeed.load() + 0x9e3779b97f4a7c15ULL * static_cast<uint64_t>(++gThreads);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    if (static_cast<int>(x >> 33) % 100 < p) { usleep(static_cast<useconds_t>(100 + (x >> 20) % 3000)); }
}
}   // namespace
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    using F = int (*)(pthread_mutex_t*);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    Delay();
    return real(m);
}

// --- the process under test --------------------------------------------------------------------------------------------
namespace {
int gLog = -1;
void Log(const string& s)
{
    const string t = s + "\n";
    (void)!write(gLog, t.data(), t.size());
}
struct Spec
{
    vector<string> args;
    int iterations = -1;          // of Run(); -1: until a new state
    string throwAt;               // a hook of the device
    bool throwInt = false;
    string slowAt;                // a hook that takes its time
    int slowMs = 0;
    std::set<string> hooks;       // of the runner, all but InstantiateDevice
    string failHook;              // throws there
    bool noInstantiate = false, noDevice = false;
    bool observer = false, observerThrows = false, lateThrower = false, driver = false;
    string setInInit, setValue;   // a property set when the device initializes
    bool logConfig = false;
    string slowState;             // an observer that takes its time
    int slowStateMs = 0;
    bool lateDriver = false, required = false, given = false;
    int delayPercent = 0;
    uint64_t seed = 0;
};
Spec gSpec;

struct Dev : Device
{
    Dev() { SubscribeToStateChange("log", [](State s) { Log("S " + GetStateName(s)); }); }
    ~Dev() override { UnsubscribeFromStateChange("log"); }
    void H(const string& n)
    {
        Log("H " + n);
        if (gSpec.slowAt == n) { usleep(static_cast<useconds_t>(gSpec.slowMs) * 1000); }
        if (gSpec.throwAt == n) {
            if (gSpec.throwInt) { throw 42; }
            throw std::runtime_error("thrown by the device");
        }
    }
    void Init() override
    {
        if (!gSpec.setInInit.empty()) {
            if (gSpec.setInInit == "color") { fConfig->SetProperty<bool>("color", gSpec.setValue == "1"); }
            else { fConfig->SetProperty<string>(gSpec.setInInit, gSpec.setValue); }
            Log("C " + fair::Logger::LastConfig());
        }
        H("Init");
    }
    void Bind() override { H("Bind"); }
    void Connect() override { H("Connect"); }
    void InitTask() override { H("InitTask"); }
    void PreRun() override { H("PreRun"); }
    void Run() override
    {
        H("Run");
        for (int i = 0; gSpec.iterations < 0 || i < gSpec.iterations; ++i) {
            if (NewStatePending()) {
                Log("N stopped");
                break;
            }
            usleep(500);
        }
    }
    void PostRun() override { H("PostRun"); }
    void ResetTask() override { H("ResetTask"); }
    void Reset() override { H("Reset"); }
    void RegisterChannelEndpoints() override
    {
        RegisterChannelEndpoint("data-in", 1, 10);
        RegisterChannelEndpoint("data-out", 2, 3);
    }
};

struct Observer : Plugin
{
    Observer(const string& n, Version v, const string& m, const string& h, PluginServices* s)
        : Plugin(n, v, m, h, s)
    {
        Log("P " + n);
        if (gSpec.observerThrows) { throw std::runtime_error("observer"); }
        SubscribeToDeviceStateChange([](DeviceState s) {
            if (GetStateName(s) == gSpec.slowState) { usleep(static_cast<useconds_t>(gSpec.slowStateMs) * 1000); }
            Log("O " + GetStateName(s));
        });
    }
    ~Observer() override { UnsubscribeFromDeviceStateChange(); }
};
struct Thrower : Plugin
{
    Thrower(const string& n, Version v, const string& m, const string& h, PluginServices* s)
        : Plugin(n, v, m, h, s)
    {
        Log("P " + n);
        throw std::runtime_error("late");
    }
};
// a plugin that controls the device itself
struct Driver : Plugin
{
    StateQueue q;
    std::thread t;
    Driver(const string& n, Version v, const string& m, const string& h, PluginServices* s)
        : Plugin(n, v, m, h, s)
    {
        Log("P " + n);
        SubscribeToDeviceStateChange([this](DeviceState s) { q.Push(s); });
        TakeDeviceControl();
        t = std::thread([this] {
            try {
                using T = DeviceStateTransition;
                auto to = [this](T tr, DeviceState st) {
                    ChangeDeviceState(tr);
                    q.WaitForState(st);
                };
                to(T::InitDevice, DeviceState::InitializingDevice);
                to(T::CompleteInit, DeviceState::Initialized);
                to(T::Bind, DeviceState::Bound);
                to(T::Connect, DeviceState::DeviceReady);
                to(T::InitTask, DeviceState::Ready);
                to(T::Run, DeviceState::Running);
                q.WaitForState(DeviceState::Ready);
                to(T::ResetTask, DeviceState::DeviceReady);
                to(T::ResetDevice, DeviceState::Idle);
                to(T::End, DeviceState::Exiting);
                usleep(static_cast<useconds_t>(gSpec.seed % 4) * 700);
                Log("N released");
                ReleaseDeviceControl();
            } catch (const PluginServices::DeviceControlError&) {
                Log("N driver lost control");
            } catch (const DeviceErrorState&) {
                Log("N driver saw the error");
                try { ReleaseDeviceControl(); } catch (const PluginServices::DeviceControlError&) {}
            }
        });
    }
    ~Driver() override
    {
        // whoever ends the device instead tells it the states
        if (t.joinable()) { t.join(); }
        UnsubscribeFromDeviceStateChange();
    }
};
}   // namespace
REGISTER_FAIRMQ_PLUGIN(Observer, observer, (Plugin::Version{1, 0, 0}), "m", "h", Plugin::NoProgramOptions)
REGISTER_FAIRMQ_PLUGIN(Thrower, thrower, (Plugin::Version{1, 0, 0}), "m", "h", Plugin::NoProgramOptions)
REGISTER_FAIRMQ_PLUGIN(Driver, driver, (Plugin::Version{1, 0, 0}), "m", "h", Plugin::NoProgramOptions)

namespace {
[[noreturn]] void ChildMain()
{
    fair::Logger::LastConfig().clear();
    fair::Logger::Level() = static_cast<int>(fair::Severity::info);
    fair::Logger::Sink() = [](fair::Severity, const string& t) { if (t.find("data-") != string::npos || t.find("ersion") != string::npos) { Log("L " + t); } };
    gDelaySeed = gSpec.seed;
    gDelayPercent = gSpec.delayPercent;
    int code = 77;
    {
        vector<char*> argv;
        vector<string> a = gSpec.args;
        a.insert(a.begin(), "device");
        for (auto& s : a) { argv.push_back(s.data()); }
        argv.push_back(nullptr);
        try {
            DeviceRunner r(static_cast<int>(a.size()), argv.data(), false);
            auto hook = [](const string& n) {
                Log("K " + n);
                if (gSpec.failHook == n) { throw std::runtime_error("hook"); }
            };
            if (gSpec.hooks.count("LoadPlugins")) {
                r.AddHook<hooks::LoadPlugins>([&](DeviceRunner& d) {
                    hook("LoadPlugins");
                    if (gSpec.observer) { d.fPluginManager.LoadPlugin("p:observer"); }
                    if (gSpec.driver) { d.fPluginManager.LoadPlugin("p:driver"); }
                });
            }
            if (gSpec.hooks.count("SetCustomCmdLineOptions")) {
                r.AddHook<hooks::SetCustomCmdLineOptions>([&](DeviceRunner& d) {
                    hook("SetCustomCmdLineOptions");
                    if (gSpec.lateThrower) { d.fPluginManager.LoadPlugin("p:thrower"); }
                    if (gSpec.lateDriver) { d.fPluginManager.LoadPlugin("p:driver"); }
                    boost::program_options::options_description o("Custom");
                    o.add_options()("custom", boost::program_options::value<int>()->default_value(3)->notifier([](int v) { Log("N notified " + std::to_string(v)); }), "custom");
                    if (gSpec.required) { o.add_options()("needed", boost::program_options::value<string>()->required(), "needed"); }
                    d.fConfig.AddToCmdLineOptions(o);
                });
            }
            if (gSpec.hooks.count("ModifyRawCmdLineArgs")) {
                r.AddHook<hooks::ModifyRawCmdLineArgs>([&](DeviceRunner& d) {
                    hook("ModifyRawCmdLineArgs");
                    if (gSpec.hooks.count("SetCustomCmdLineOptions")) {
                        d.fRawCmdLineArgs.push_back("--custom");
                        d.fRawCmdLineArgs.push_back("8");
                    }
                });
            }
            if (!gSpec.noInstantiate) {
                r.AddHook<hooks::InstantiateDevice>([&](DeviceRunner& d) {
                    hook("InstantiateDevice");
                    if (gSpec.hooks.count("SetCustomCmdLineOptions")) { Log("V " + std::to_string(d.fConfig.GetProperty<int>("custom"))); }
                    if (gSpec.logConfig) { Log("C " + fair::Logger::LastConfig()); }
                    if (!gSpec.noDevice) { d.fDevice = std::make_unique<Dev>(); }
                });
            }
            code = r.RunWithExceptionHandlers();
            Log("R " + std::to_string(code));
            if (gSpec.logConfig) {   // it no longer listens
                r.fConfig.SetProperty<string>("severity", "late");
                r.fConfig.SetProperty<bool>("color", false);
                Log("E " + fair::Logger::LastConfig());
            }
            fflush(stdout);
        } catch (const std::exception& e) {   // like main() of runDevice.h
            code = 1;
            Log(string("X ") + e.what());
        }
    }
    Log("D");
    _exit(code);
}

// --- the process from outside -------------------------------------------------------------------------------------------
class Proc
{
  public:
    vector<string> lines;
    string outFile;
    Proc(const Spec& spec, bool withInput)
    {
        int lp[2], ip[2] = {-1, -1};
        REQ(pipe2(lp, O_CLOEXEC) == 0, "pipe");
        if (withInput) { REQ(pipe2(ip, O_CLOEXEC) == 0, "pipe"); }
        outFile = pbt::Scratch() + "/out" + std::to_string(pbt::WorkerId());
        fPid = fork();
        if (fPid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            const int out = open(outFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(out, 1);
            if (withInput) {
                dup2(ip[0], 0);
                close(ip[1]);
            } else {
                const int null = open("/dev/null", O_RDONLY);
                dup2(null, 0);
            }
            close(lp[0]);
            gLog = lp[1];
            gSpec = spec;
            signal(SIGINT, SIG_DFL);
            signal(SIGTERM, SIG_DFL);
            ChildMain();
        }
        close(lp[1]);
        if (withInput) {
            close(ip[0]);
            fIn = ip[1];
        }
        fLog = lp[0];
    }
    ~Proc()
    {
        if (fPid > 0) {
            ::kill(fPid, SIGKILL);
            int st;
            waitpid(fPid, &st, 0);
        }
        CloseInput();
        close(fLog);
    }
    // reads the log until the condition holds; false: not within the time, or it ended
    template<typename P>
    bool Until(P&& p, int ms)
    {
        const int64_t end = pbt::NowMs() + ms;
        while (!p()) {
            if (fEof) { return false; }
            const int64_t left = end - pbt::NowMs();
            pollfd f{fLog, POLLIN, 0};
            if (left <= 0 || poll(&f, 1, static_cast<int>(left)) <= 0) { return p(); }
            char buf[4096];
            const ssize_t n = read(fLog, buf, sizeof(buf));
            if (n <= 0) {
                fEof = true;
                continue;
            }
            fBuf.append(buf, static_cast<size_t>(n));
            for (size_t e; (e = fBuf.find('\n')) != string::npos; fBuf.erase(0, e + 1)) { lines.push_back(fBuf.substr(0, e)); }
        }
        return true;
    }
    // the state it was last in
    string State() const
    {
        for (auto it = lines.rbegin(); it != lines.rend(); ++it) { if (it->compare(0, 2, "S ") == 0) { return it->substr(2); } }
        return "";
    }
    size_t Count(const string& l) const { return static_cast<size_t>(std::count(lines.begin(), lines.end(), l)); }
    bool Has(const string& l) const { return Count(l) > 0; }
    void Signal(int s) { ::kill(fPid, s); }
    void Input(const string& t) { (void)!write(fIn, t.data(), t.size()); }
    void CloseInput()
    {
        if (fIn >= 0) { close(fIn); }
        fIn = -1;
    }
    // waits for the end; the exit code, or 1000 + signal
    int End(int ms = 20000)
    {
        Until([] { return false; }, ms);
        REQ(fEof, "the process does not end; it told: " << Show());
        int st = 0;
        for (int64_t t0 = pbt::NowMs(); waitpid(fPid, &st, WNOHANG) == 0; usleep(300)) { REQ(pbt::NowMs() - t0 < 5000, "the process does not exit; it told: " << Show()); }
        fPid = -1;
        return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    }
    string Show() const
    {
        string o;
        for (auto& l : lines) { o += l + " | "; }
        return o;
    }
    string Output() const
    {
        std::ifstream in(outFile);
        std::stringstream o;
        o << in.rdbuf();
        return o.str();
    }

  private:
    pid_t fPid = -1;
    int fLog = -1, fIn = -1;
    bool fEof = false;
    string fBuf;
};

const vector<string> kLife{"S IDLE", "S INITIALIZING DEVICE", "H Init", "S INITIALIZED", "S BINDING", "H Bind", "S BOUND", "S CONNECTING", "H Connect", "S DEVICE READY",
                           "S INITIALIZING TASK", "H InitTask", "S READY", "S RUNNING", "H PreRun", "H Run", "H PostRun", "S READY",
                           "S RESETTING TASK", "H ResetTask", "S DEVICE READY", "S RESETTING DEVICE", "H Reset", "S IDLE", "S EXITING"};
const vector<string> kHooks{"Init", "Bind", "Connect", "InitTask", "PreRun", "Run", "PostRun", "ResetTask", "Reset"};
const std::map<string, std::set<string>> kNext{
    {"", {"IDLE"}},
    {"IDLE", {"INITIALIZING DEVICE", "EXITING"}},
    {"INITIALIZING DEVICE", {"INITIALIZED"}},
    {"INITIALIZED", {"BINDING", "RESETTING DEVICE"}},
    {"BINDING", {"BOUND"}},
    {"BOUND", {"CONNECTING", "RESETTING DEVICE"}},
    {"CONNECTING", {"DEVICE READY"}},
    {"DEVICE READY", {"INITIALIZING TASK", "RESETTING DEVICE"}},
    {"INITIALIZING TASK", {"READY"}},
    {"READY", {"RUNNING", "RESETTING TASK"}},
    {"RUNNING", {"READY"}},
    {"RESETTING TASK", {"DEVICE READY"}},
    {"RESETTING DEVICE", {"IDLE"}},
    {"EXITING", {}},
};
// only the device's own lines
vector<string> Life(const Proc& p)
{
    vector<string> v;
    for (auto& l : p.lines) { if (l[0] == 'S' || l[0] == 'H') { v.push_back(l); } }
    return v;
}
string Join(const vector<string>& v)
{
    string o;
    for (auto& s : v) { o += s + " | "; }
    return o;
}
// the states follow each other as documented, each hook belongs to its state and is called once in it
void CheckLife(const Proc& p)
{
    static const std::map<string, vector<string>> hooksOf{{"INITIALIZING DEVICE", {"Init"}}, {"BINDING", {"Bind"}}, {"CONNECTING", {"Connect"}}, {"INITIALIZING TASK", {"InitTask"}},
                                                          {"RUNNING", {"PreRun", "Run", "PostRun"}}, {"RESETTING TASK", {"ResetTask"}}, {"RESETTING DEVICE", {"Reset"}}};
    string state;
    size_t hook = 0;
    for (auto& l : Life(p)) {
        auto h = hooksOf.find(state);
        if (l[0] == 'H') {
            REQ(h != hooksOf.end() && hook < h->second.size() && h->second[hook] == l.substr(2), "hook " << l.substr(2) << " in " << state << ": " << p.Show());
            ++hook;
        } else {
            const string next = l.substr(2);
            if (next != "ERROR") {
                REQ(kNext.count(state) && kNext.at(state).count(next), next << " after " << state << ": " << p.Show());
                REQ(h == hooksOf.end() || hook == h->second.size(), "left " << state << " without calling all hooks: " << p.Show());
            }
            state = next;
            hook = 0;
        }
    }
}
void AddPlugins(pbt::Src& s, Spec& p, pbt::Case& c)
{
    for (auto* h : {"LoadPlugins", "SetCustomCmdLineOptions", "ModifyRawCmdLineArgs"}) { if (s.flip()) { p.hooks.insert(h); } }
    p.observer = p.hooks.count("LoadPlugins") && s.chance(40);
    c << (p.observer ? " observer" : "");
}
void Delays(pbt::Src& s, Spec& p, pbt::Case& c)
{
    p.delayPercent = s.pick({0, 0, 5, 20, 50});
    p.seed = s.draw(1u << 30) + 1;
    c << " delays " << p.delayPercent;
}
// the hooks came in their order, each once
void CheckHooks(const Proc& p, const Spec& spec)
{
    vector<string> want, got;
    for (auto* h : {"LoadPlugins", "SetCustomCmdLineOptions", "ModifyRawCmdLineArgs", "InstantiateDevice"}) {
        if (spec.hooks.count(h) || (string(h) == "InstantiateDevice" && !spec.noInstantiate)) { want.push_back(string("K ") + h); }
        if (spec.failHook == h) { break; }
    }
    for (auto& l : p.lines) { if (l[0] == 'K') { got.push_back(l); } }
    REQ(want == got, "hooks: " << Join(got) << " expected " << Join(want));
    if (spec.hooks.count("SetCustomCmdLineOptions") && p.Has("K InstantiateDevice") && spec.failHook != "InstantiateDevice") {
        REQ(p.Has(spec.hooks.count("ModifyRawCmdLineArgs") ? "V 8" : "V 3"), "the custom option or the modified command line has no effect: " << p.Show());
    }
}
}   // namespace

// a device that needs nobody: it starts, runs, ends; or something fails on the way
RACY_CASE(alone, 4, 60000)
{
    Spec p;
    AddPlugins(s, p, c);
    const string control = s.pick({"static", "static", "static", "unknown", "driver"});
    p.iterations = static_cast<int>(s.pick({0, 0, 1, 5, 20}));
    p.driver = control == "driver";
    if (p.driver && s.chance(30)) {
        p.driver = false;
        p.lateDriver = true;
        p.hooks.insert("SetCustomCmdLineOptions");
        c << " late";
    } else if (p.driver) {
        p.hooks.insert("LoadPlugins");
    }
    p.args = {"--control", p.lateDriver ? "none" : control == "driver" ? s.pick({"static", "none", "dynamic"}) : control == "unknown" ? "strange" : "static"};
    p.args.push_back("--catch-signals");
    p.args.push_back(s.pick({"0", "0", "1"}));
    if (s.flip()) { p.args.insert(p.args.end(), {"--id", "dev1"}); }
    if (s.chance(20)) { p.args.insert(p.args.end(), {"--not-known", "value"}); }
    if (s.chance(30)) { p.args.insert(p.args.end(), {"--transport", s.pick({"zeromq", "shmem"}), "--session", "verifrunner" + std::to_string(getpid()), "--shm-segment-size", "1000000"}); }
    const size_t fail = s.weighted({40, 25, 10, 6, 6, 5, 4, 4});
    bool expectRun = true;
    switch (fail) {
        case 1:
            p.throwAt = kHooks[s.draw(kHooks.size())];
            p.throwInt = s.chance(25);
            c << " throws" << (p.throwInt ? " int" : "") << " in " << p.throwAt;
            if (std::find(kHooks.begin(), kHooks.end(), p.throwAt) - kHooks.begin() < 7 && control != "driver" && s.chance(40)) { p.args[1] = s.pick({"gui", "dynamic", "interactive"}); }
            break;
        case 2: {
            vector<string> h(p.hooks.begin(), p.hooks.end());
            h.push_back("InstantiateDevice");
            p.failHook = h[s.draw(h.size())];
            c << " hook " << p.failHook << " fails";
            expectRun = false;
            break;
        }
        case 3:
            (s.flip() ? p.noDevice : p.noInstantiate) = true;
            c << " no device";
            expectRun = false;
            break;
        case 4:
            p.hooks.insert("LoadPlugins");
            p.observer = p.observerThrows = true;
            c << " plugin fails";
            expectRun = false;
            break;
        case 5:
            p.hooks.insert("SetCustomCmdLineOptions");
            p.lateThrower = true;
            c << " late plugin fails";
            expectRun = false;
            if (control == "driver") { throw pbt::Discard{}; }   // that plugin of ours would not end
            break;
        case 6: {
            const size_t k = s.draw(4);
            p.hooks.erase("ModifyRawCmdLineArgs");   // it appends an argument
            if (k == 0) { p.args.insert(p.args.end(), {"--io-threads", "many"}); }
            else if (k == 1) { p.args.insert(p.args.end(), {"-P", "p:nothing"}); }
            else if (k == 2) { p.args.push_back("--id"); }
            else { p.args.insert(p.args.end(), {"-S", "/etc/passwd"}); }
            c << " bad line " << k;
            expectRun = false;
            break;
        }
        case 7:
            if (std::count(p.args.begin(), p.args.end(), "--transport")) { throw pbt::Discard{}; }
            p.args.insert(p.args.end(), {"--transport", "strange"});
            p.throwAt = "Init";   // the device itself fails there, after its hook
            c << " bad transport";
            break;
        default: break;
    }
    // an option that has to be given
    p.required = p.hooks.count("SetCustomCmdLineOptions") && s.chance(20);
    if (p.required && s.flip()) {
        p.given = true;
        p.args.insert(p.args.begin(), {"--needed", "x"});
    }
    const bool missing = p.required && !p.given && fail != 2 && fail != 3 && fail != 4 && fail != 5 && fail != 6;
    if (p.required && !p.given && !missing) { p.required = false; }
    if (missing) { expectRun = false; }
    Delays(s, p, c);
    for (auto& a : p.args) { c << " " << a; }
    Proc proc(p, false);
    const int code = proc.End();
    REQ(code < 1000, "the process was ended by signal " << code - 1000 << ": " << proc.Show());
    REQ(proc.Has("D"), "the runner was not destroyed: " << proc.Show());
    CheckLife(proc);
    const auto life = Life(proc);
    if (!expectRun) {
        REQ_EQ(code, 1, "exit code after a failure: " << proc.Show());
        REQ(life.empty(), "the device ran: " << proc.Show());
        if (fail != 6 && !missing) { CheckHooks(proc, p); }
        if (missing) { REQ(!proc.Has("K InstantiateDevice"), "a required option is missing, but it went on: " << proc.Show()); }
    } else {
        CheckHooks(proc, p);
        vector<string> want;
        for (auto& l : kLife) {
            want.push_back(l);
            if (l == "H " + p.throwAt) {
                want.push_back("S ERROR");
                break;
            }
        }
        REQ(life == want, "the device went through " << Join(life) << " expected " << Join(want));
        REQ_EQ(code, fail == 1 || fail == 7 ? 1 : 0, "exit code");
        REQ(!proc.Has("N stopped"), "the device was stopped before it was done: " << proc.Show());
        if (p.hooks.count("SetCustomCmdLineOptions")) { REQ(proc.Has(p.hooks.count("ModifyRawCmdLineArgs") ? "N notified 8" : "N notified 3"), "the notifier of an option was not called: " << proc.Show()); }
        if (control == "driver" && code == 0) {
            auto rel = std::find(proc.lines.begin(), proc.lines.end(), "N released");
            REQ(rel != proc.lines.end() && std::find(rel, proc.lines.end(), "R 0") != proc.lines.end(), "the runner did not wait for the plugin in control: " << proc.Show());
        }
        if (p.observer) {
            vector<string> seen, should;
            for (auto& l : proc.lines) { if (l[0] == 'O') { seen.push_back(l.substr(2)); } }
            for (auto& l : life) { if (l[0] == 'S') { should.push_back(l.substr(2)); } }
            REQ(seen == should, "a plugin saw the states " << Join(seen) << " but the device went through " << Join(should));
        }
    }
    if (p.observer && p.failHook.empty() && fail != 3 && fail != 6 && !missing) { REQ_EQ(proc.Count("P observer"), 1u, "instances of the plugin"); }
    c.nontrivial(fail != 0 || p.observer || p.driver || p.delayPercent > 0);
    c.label(fail == 0 ? "to the end" : "failing");
}

// a request to end at any moment
RACY_CASE(signals, 3, 60000)
{
    Spec p;
    AddPlugins(s, p, c);
    const string control = s.pick({"static", "static", "dynamic", "gui", "none", "driver"});
    p.driver = control == "driver";
    if (p.driver) { p.hooks.insert("LoadPlugins"); }
    p.iterations = s.pick({-1, -1, 0, 3, 40});
    p.args = {"--control", p.driver ? s.pick({"static", "none"}) : control};
    if (s.chance(15)) { p.throwAt = kHooks[s.draw(kHooks.size())]; }
    if (s.chance(30)) {
        p.slowAt = kHooks[s.draw(kHooks.size())];
        p.slowMs = static_cast<int>(s.draw(120));
        c << " " << p.slowAt << " takes " << p.slowMs;
    }
    if (p.observer && s.chance(40)) {
        vector<string> st;
        for (auto& l : kLife) { if (l[0] == 'S') { st.push_back(l.substr(2)); } }
        p.slowState = s.chance(40) ? "INITIALIZING DEVICE" : st[s.draw(st.size())];
        p.slowStateMs = static_cast<int>(s.draw(150));
        c << " observer of " << p.slowState << " takes " << p.slowStateMs;
    }
    const bool stuck = s.chance(5);
    if (stuck) {
        p.slowAt = kHooks[s.draw(6)];
        p.slowMs = 60000;
        c << " stuck";
    }
    Delays(s, p, c);
    const int sig = s.flip() ? SIGTERM : SIGINT;
    const size_t at = control == "none" ? 0 : s.draw(kLife.size() - 1);
    const auto delay = static_cast<useconds_t>(s.pick({0, 0, 200, 1000, 5000, 100000}));
    c << " " << p.args[1] << (p.driver ? " driver" : "") << " iterations " << p.iterations << " " << (sig == SIGTERM ? "TERM" : "INT") << " at " << at << "+" << delay << (p.throwAt.empty() ? "" : " throws in ") << p.throwAt;
    Proc proc(p, true);   // an input that stays silent
    proc.Until([&] { return Life(proc).size() > at || (stuck && proc.Has("H " + p.slowAt)) || proc.State() == "ERROR" || (control == "gui" && proc.State() == "READY" && proc.Has("H PostRun"))
                         || (control == "dynamic" && proc.State() == "READY" && proc.Has("H PostRun")) || (p.iterations < 0 && proc.Has("H Run")); }, 15000);
    REQ(!Life(proc).empty(), "the device does not start: " << proc.Show());
    if (delay > 0) { usleep(delay); }
    proc.Signal(sig);
    if (stuck && control != "none" && proc.Until([&] { return proc.Has("H " + p.slowAt); }, 300)) {
        // the second interrupt ends it at once
        usleep(2000);
        proc.Signal(SIGINT);
        const int code = proc.End(8000);
        REQ_EQ(code, 1000 + SIGABRT, "the second interrupt of a device that hangs: " << proc.Show());
        c.nontrivial(true);
        c.label("stuck");
        return;
    }
    if (stuck && control != "none") { throw pbt::Discard{}; }
    // once more: SIGINT aborts if it still lives, SIGTERM changes nothing
    bool mayAbort = false;
    if (s.chance(25)) {
        const int again = s.flip() ? SIGTERM : SIGINT;
        const auto after = static_cast<useconds_t>(s.pick({0, 1000, 20000, 100000, 150000}));
        c << " again " << again << " after " << after;
        usleep(after);
        mayAbort = again == SIGINT;
        proc.Signal(again);
    }
    const int code = proc.End();
    if (mayAbort && code == 1000 + SIGABRT) {
        CheckLife(proc);
        c.label("aborted");
        c.nontrivial(true);
        return;
    }
    const bool thrown = !p.throwAt.empty() && proc.Has("H " + p.throwAt);
    REQ(proc.Has("D"), "the process was ended with " << code << ": " << proc.Show());
    CheckLife(proc);
    REQ_EQ(proc.State(), thrown ? "ERROR" : "EXITING", "the last state: " << proc.Show());
    REQ_EQ(code, thrown ? 1 : 0, "exit code: " << proc.Show());
    c.nontrivial(true);
    c.label(thrown ? "failing" : control);
}

// commands for the interactive controller
RACY_CASE(interactive, 3, 60000)
{
    Spec p;
    AddPlugins(s, p, c);
    p.iterations = s.pick({-1, -1, 0, 10});
    const string control = s.pick({"interactive", "dynamic", "external", ""});
    if (!control.empty()) { p.args = {"--control", control}; }
    p.args.insert(p.args.end(), {"--catch-signals", s.pick({"1", "1", "0"})});
    const bool catches = p.args.back() == "1";
    if (s.flip()) { p.args.insert(p.args.end(), {"--color", s.pick({"0", "1"})}); }
    Delays(s, p, c);
    c << " iterations " << p.iterations << " ";
    Proc proc(p, true);
    auto wait = [&](const string& state, const string& why) {
        REQ(proc.Until([&] { return proc.State() == state; }, 10000), why << ": waited for " << state << ", it is in " << proc.State() << ": " << proc.Show());
    };
    REQ(proc.Until([&] { return proc.Has("S RUNNING"); }, 15000), "the device does not run: " << proc.Show());
    const string rest = p.iterations < 0 ? "RUNNING" : "READY";
    wait(rest, "start");
    string state = rest;
    // command -> from -> to (final)
    struct Cmd { char key; const char* from; string to; };
    const vector<Cmd> cmds{{'i', "IDLE", "INITIALIZED"}, {'b', "INITIALIZED", "BOUND"}, {'x', "BOUND", "DEVICE READY"}, {'j', "DEVICE READY", "READY"}, {'r', "READY", rest},
                           {'s', "RUNNING", "READY"}, {'t', "READY", "DEVICE READY"}, {'d', "DEVICE READY", "IDLE"}, {'d', "BOUND", "IDLE"}, {'d', "INITIALIZED", "IDLE"}};
    const size_t n = s.size(10);
    bool ended = false;
    for (size_t i = 0; i < n && !ended; ++i) {
        string in;
        // what changes nothing first, in the same breath
        for (size_t k = s.weighted({60, 20, 20}); k > 0; --k) { in += s.pick({'c', 'h', 'k', 'l', 'n', 'm', 'p', '\n', ' ', '?'}); }
        vector<Cmd> can;
        for (auto& x : cmds) { if (x.from == state) { can.push_back(x); } }
        if (s.chance(20)) {   // refused here
            string no;
            for (auto& x : cmds) { if (x.from != state && std::none_of(can.begin(), can.end(), [&](auto& y) { return y.key == x.key; })) { no += x.key; } }
            in += no[s.draw(no.size())];
        }
        const auto cmd = can[s.draw(can.size())];
        in += cmd.key;
        ended = i + 1 == n && s.chance(40);   // the end is asked for at once
        if (ended) { in += 'q'; }
        c << "[" << in << "]";
        const size_t runs = proc.Count("S RUNNING");
        if (s.flip()) {
            proc.Input(in);
        } else {
            for (char ch : in) {
                proc.Input(string(1, ch));
                usleep(static_cast<useconds_t>(s.draw(3) * 300));
            }
        }
        if (ended) { break; }
        if (cmd.key == 'r') { REQ(proc.Until([&] { return proc.Count("S RUNNING") == runs + 1; }, 10000), "command r has no effect: " << proc.Show()); }
        wait(cmd.to, string("command ") + cmd.key);
        state = cmd.to;
    }
    if (ended) {
    } else if (!catches || s.chance(50)) {
        c << "q";
        proc.Input("q");
    } else if (s.flip()) {
        // the end of the input must not be taken for a command
        c << " end of input";
        proc.CloseInput();
        auto states = [&] { return std::count_if(proc.lines.begin(), proc.lines.end(), [](auto& l) { return l[0] == 'S'; }); };
        const auto before = states();
        proc.Until([] { return false; }, 350);
        REQ_EQ(states(), before, "the device goes on by itself after the end of the input: " << proc.Show());
        proc.Signal(SIGTERM);
    } else {
        c << " signal";
        proc.Signal(s.flip() ? SIGTERM : SIGINT);
    }
    const int code = proc.End();
    REQ(proc.Has("D"), "the process was ended with " << code << ": " << proc.Show());
    CheckLife(proc);
    REQ_EQ(proc.State(), "EXITING", "the last state: " << proc.Show());
    REQ_EQ(code, 0, "exit code: " << proc.Show());
    c.nontrivial(n > 0);
    c.label("interactive");
}

// options that only ask for something, and those about the log
RACY_CASE(options, 2, 60000)
{
    Spec p;
    AddPlugins(s, p, c);
    p.iterations = 0;
    p.logConfig = true;
    p.args = {"--control", "static", "--catch-signals", "0"};
    const string ask = s.pick({"", "", "", "--help", "-h", "--print-options", "--print-channels", "--version"});
    if (!ask.empty()) { p.args.insert(p.args.begin() + static_cast<long>(s.draw(2)) * 2, ask); }
    if (ask == "--print-channels" || ask == "--version") {}
    string sev = "", fileSev = "debug", verb = "medium", file = "", color = "1";
    unsetenv("FAIRMQ_SEVERITY");
    string env;
    if (s.flip()) { p.args.insert(p.args.end(), {"--severity", sev = s.pick({"debug", "warn", "trace", "nolog"})}); }
    if (s.flip()) { p.args.insert(p.args.end(), {"--verbosity", verb = s.pick({"low", "veryhigh", "user1"})}); }
    if (s.flip()) { p.args.insert(p.args.end(), {"--color", color = s.pick({"0", "1"})}); }
    if (s.chance(30)) { p.args.insert(p.args.end(), {"--log-to-file", file = "/tmp/verif-none"}); }
    if (s.chance(30)) { p.args.insert(p.args.end(), {"--file-severity", fileSev = s.pick({"error", "debug"})}); }
    if (s.chance(30)) { setenv("FAIRMQ_SEVERITY", (env = s.pick({"alarm", "info"})).c_str(), 1); }
    const size_t change = ask.empty() ? s.draw(6) : 0;
    if (change > 0) {
        p.setInInit = vector<string>{"", "severity", "file-severity", "verbosity", "log-to-file", "color"}[change];
        p.setValue = change == 5 ? (color == "1" ? "0" : "1") : "changed";
    }
    for (auto& a : p.args) { c << " " << a; }
    c << " env " << env << " sets " << p.setInInit;
    Proc proc(p, false);
    const int code = proc.End();
    unsetenv("FAIRMQ_SEVERITY");
    REQ_EQ(code, 0, "exit code: " << proc.Show());
    REQ(proc.Has("D"), "the process did not end well: " << proc.Show());
    const auto life = Life(proc);
    if (ask == "--help" || ask == "-h" || ask == "--print-options") {
        REQ(life.empty() && !proc.Has("K InstantiateDevice"), "it did more than print: " << proc.Show());
        const string out = proc.Output();
        for (auto* o : {"severity", "transport", "control", "catch-signals", "plugin-search-path", "channel-config"}) { REQ(out.find(o) != string::npos, "option " << o << " is not printed by " << ask); }
        if (p.hooks.count("SetCustomCmdLineOptions")) { REQ(out.find("custom") != string::npos, "the custom option is not printed by " << ask); }
    } else if (!ask.empty()) {
        REQ(life.empty(), "the device ran: " << proc.Show());
        CheckHooks(proc, p);
        string told;
        for (auto& l : proc.lines) { if (l[0] == 'L') { told += l + "\n"; } }
        const string all = told + proc.Output();
        if (ask == "--print-channels") { REQ(all.find("data-in:1:10") != string::npos && all.find("data-out:2:3") != string::npos, "the channels are not printed: " << all); }
        else { REQ(all.find("ersion") != string::npos, "no version is printed"); }
    } else {
        REQ(life == kLife, "the device went through " << Join(life));
        string want = "verbosity=" + verb + ";";
        if (!file.empty()) { want += "file-sink=" + fileSev + ":" + file + ";console-severity=nolog;"; }
        else {
            want += "color=" + color + ";";
            if (!env.empty()) { sev = env; }
            if (!sev.empty()) { want += "console-severity=" + sev + ";"; }
        }
        vector<string> got;
        for (auto& l : proc.lines) { if (l[0] == 'C') { got.push_back(l.substr(2)); } }
        REQ(!got.empty(), "no device");
        if (sev.empty() && file.empty() && env.empty()) {
            // the documented default
            const string d = want + "console-severity=";
            REQ(got[0] == want || got[0].compare(0, d.size(), d) == 0, "log settings " << got[0] << " expected " << want);
            want = got[0];
        }
        REQ_EQ(got[0], want, "log settings");
        if (change > 0) {
            REQ_EQ(got.size(), 2u, "no Init");
            want += change == 1 ? "console-severity=changed;" : change == 2 ? "file-severity=changed;" : change == 3 ? "verbosity=changed;" : change == 4 ? "file-sink=" + fileSev + ":changed;" : "color=" + p.setValue + ";";
            REQ_EQ(got[1], want, "log settings after a change of " << p.setInInit);
        }
        for (auto& l : proc.lines) { if (l[0] == 'E') { REQ_EQ(l.substr(2), want, "log settings after the run"); } }
    }
    c.nontrivial(!ask.empty() || change > 0 || p.args.size() > 4);
    c.label(ask.empty() ? "log" : ask);
}
