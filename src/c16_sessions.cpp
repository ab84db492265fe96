// C16: shared memory sessions clean up after themselves, also after a crash.
#include "msgworld.h"
#include <boost/interprocess/sync/named_mutex.hpp>
#include <dirent.h>
#include <dlfcn.h>
#include <fairmq/UnmanagedRegion.h>
#include <fairmq/shmem/Segment.h>
#include <fairmq/shmem/UnmanagedRegion.h>
#include <poll.h>
#include <set>
#include <sys/prctl.h>
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

// --- points at which a process may be killed ------------------------------------------------------------------------
namespace {
std::atomic<long> gPoints{0};   // interposed calls left until the process is killed; 0: never
inline void Point()
{
    if (gPoints.load(std::memory_order_relaxed) > 0 && gPoints.fetch_sub(1) == 1) { raise(SIGKILL); for (;;) { pause(); } }
}
template<typename F>
F Real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}   // namespace
#define POINTS(ret, name, sig, args)                          \
    extern "C" ret name sig                                   \
    {                                                         \
        static auto real = Real<ret(*) sig>(#name);           \
        Point();                                              \
        ret r = real args;                                    \
        const int e = errno;                                  \
        Point();                                              \
        errno = e;                                            \
        return r;                                             \
    }
POINTS(int, shm_open, (const char* n, int f, mode_t m), (n, f, m))
POINTS(int, shm_unlink, (const char* n), (n))
POINTS(int, ftruncate, (int fd, off_t l), (fd, l))
POINTS(int, ftruncate64, (int fd, off64_t l), (fd, l))
POINTS(int, posix_fallocate, (int fd, off_t o, off_t l), (fd, o, l))
POINTS(int, posix_fallocate64, (int fd, off64_t o, off64_t l), (fd, o, l))
POINTS(int, unlink, (const char* n), (n))
POINTS(int, fchmod, (int fd, mode_t m), (fd, m))
extern "C" int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    static auto real = Real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
    int shared = PTHREAD_PROCESS_PRIVATE;
    if (a) { pthread_mutexattr_getpshared(a, &shared); }
    if (shared == PTHREAD_PROCESS_SHARED) { Point(); }
    return real(m, a);
}
// locks shared between processes: around every operation on the management segment
static bool Shared(pthread_mutex_t* m) { return (m->__data.__kind & 128) != 0; }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (gPoints.load(std::memory_order_relaxed) > 0 && Shared(m)) { Point(); }
    return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (gPoints.load(std::memory_order_relaxed) > 0 && Shared(m)) { Point(); }
    return real(m);
}

namespace {
string ShmId(const string& session) { return shmem::makeShmIdStr(session); }
string RegionDir() { return pbt::Scratch() + "/rg" + std::to_string(pbt::WorkerId()) + "_"; }

std::set<string> List(const string& id)
{
    std::set<string> r;
    auto scan = [&](const string& dir, const string& strip) {
        if (DIR* d = opendir(dir.c_str())) {
            while (dirent* e = readdir(d)) {
                const string n = e->d_name;
                if (n.compare(0, strip.size(), strip) != 0) { continue; }
                const string m = n.substr(strip.size());
                for (const char* pre : {"fmq_", "sem.fmq_"}) {
                    if (m.compare(0, strlen(pre) + id.size() + 1, pre + id + "_") == 0) { r.insert(strip.empty() ? n : dir + "/" + n); }
                }
            }
            closedir(d);
        }
    };
    scan("/dev/shm", "");
    scan(pbt::Scratch(), "rg" + std::to_string(pbt::WorkerId()) + "_");
    return r;
}
string Join(const std::set<string>& v)
{
    string r;
    for (auto& x : v) { r += " " + x; }
    return r.empty() ? " (nothing)" : r;
}

// --- processes ------------------------------------------------------------------------------------------------------
enum Op : int { opDevice, opMessage, opDropMessage, opRegion, opRegionMessages, opDropRegion, opList, opSubscribe, opEnd, opEndAll, opManager, opQuery, opMonitor };
struct Cmd
{
    Op op;
    long kill;   // at this point, 0: not
    int dev;     // index within the process
    int a, b, c, d;
    uint64_t size;
    char text[256];
};
struct Rep
{
    int ok;   // 0: refused
    uint64_t v;
    char text[1500];
};

struct Device16
{
    ProgOptions cfg;
    std::shared_ptr<TransportFactory> f;
    std::map<int, UnmanagedRegionPtr> regions;
    vector<MessagePtr> messages;
    std::map<int, vector<MessagePtr>> regionMessages;
    bool subscribed = false;
    void End(int order)
    {
        // regions and messages in either order, then the device
        if (order & 1) { messages.clear(); }
        if (order & 2) { regionMessages.clear(); }
        if (order & 4) {
            while (!regions.empty()) { regions.erase(std::prev(regions.end())); }
        }
        regions.clear();
        regionMessages.clear();
        messages.clear();
        if (subscribed && (order & 8)) { f->UnsubscribeFromRegionEvents(); }
        f.reset();
    }
};

void Handle(const Cmd& q, Rep& r, std::map<int, std::unique_ptr<Device16>>& devs, vector<std::unique_ptr<shmem::Segment>>& segs, vector<std::unique_ptr<shmem::UnmanagedRegion>>& rgs)
{
    r.ok = 1;
    switch (q.op) {
        case opDevice: {
            auto dp = std::make_unique<Device16>();
            auto& d = *dp;
            d.cfg.SetProperty<string>("session", q.text);
            d.cfg.SetProperty<size_t>("shm-segment-size", q.size);
            d.cfg.SetProperty<uint16_t>("shm-segment-id", static_cast<uint16_t>(q.a));
            d.cfg.SetProperty<string>("shm-allocation", q.b == 0 ? "rbtree_best_fit" : q.b == 1 ? "simple_seq_fit" : "no_such");
            if (q.c) { d.cfg.SetProperty<bool>("shm-no-cleanup", true); }
            d.f = TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(q.dev), &d.cfg);
            // of which size is the segment
            for (auto& i : d.f->GetRegionInfo()) {
                if (i.managed && i.id == q.a) { r.v = i.size; }
            }
            devs.emplace(q.dev, std::move(dp));
            break;
        }
        case opMessage: {
            auto m = devs.at(q.dev)->f->CreateMessage(q.size);
            memset(m->GetData(), 0x5a, q.size);
            devs.at(q.dev)->messages.push_back(std::move(m));
            break;
        }
        case opDropMessage:
            if (!devs.at(q.dev)->messages.empty()) { devs.at(q.dev)->messages.erase(devs.at(q.dev)->messages.begin()); }
            break;
        case opRegion: {
            RegionConfig cfg;
            if (q.a >= 0) { cfg.id = static_cast<uint16_t>(q.a); }
            cfg.size = q.size;
            cfg.removeOnDestruction = (q.b & 1) == 0;
            cfg.zero = (q.b & 2) != 0;
            if (q.b & 4) { cfg.rcSegmentSize = 100000; }
            cfg.linger = 20;
            if (q.b & 16) { cfg.path = q.text; }
            auto& d = *devs.at(q.dev);
            auto g = q.b & 8 ? d.f->CreateUnmanagedRegion(q.size, [](void*, size_t, void*) {}, cfg) : d.f->CreateUnmanagedRegion(q.size, RegionBulkCallback{}, cfg);
            memset(g->GetData(), 0x77, q.size);
            r.v = g->GetId();
            if (g->GetSize() != q.size) { throw std::runtime_error("the size of the region is " + std::to_string(g->GetSize())); }
            const int id = g->GetId();
            d.regions.emplace(id, std::move(g));
            break;
        }
        case opRegionMessages: {
            auto& d = *devs.at(q.dev);
            auto& g = d.regions.at(q.a);
            for (int i = 0; i < q.b; ++i) {
                d.regionMessages[q.a].push_back(d.f->CreateMessage(g, static_cast<char*>(g->GetData()) + i * 8, 8, nullptr));
                if (q.c) {
                    auto m = d.f->CreateMessage();
                    m->Copy(*d.regionMessages[q.a].back());
                    d.regionMessages[q.a].push_back(std::move(m));
                }
            }
            if (q.d) { d.regionMessages[q.a].clear(); }
            break;
        }
        case opDropRegion:
            devs.at(q.dev)->regionMessages.erase(q.a);
            devs.at(q.dev)->regions.erase(q.a);
            break;
        case opList: {
            string t;
            std::set<string> s;
            for (auto& i : devs.at(q.dev)->f->GetRegionInfo()) {
                s.insert(std::to_string(i.id) + (i.managed ? "m" : "u") + (i.event == RegionEvent::destroyed ? "-" : "+" + std::to_string(i.size)));
            }
            for (auto& x : s) { t += x + " "; }
            snprintf(r.text, sizeof(r.text), "%s", t.c_str());
            break;
        }
        case opSubscribe:
            devs.at(q.dev)->f->SubscribeToRegionEvents([](RegionInfo) {});
            devs.at(q.dev)->subscribed = true;
            break;
        case opEnd:
            devs.at(q.dev)->End(q.a);
            devs.erase(q.dev);
            break;
        case opEndAll:
            while (!devs.empty()) {
                auto it = q.a & 16 ? std::prev(devs.end()) : devs.begin();
                it->second->End(q.a);
                devs.erase(it);
            }
            rgs.clear();
            segs.clear();
            break;
        case opManager:   // like an external program that prepares the memory for the devices
            if (q.b < 2) {
                if (q.b == 0) {
                    segs.push_back(std::make_unique<shmem::Segment>(ShmId(q.text), static_cast<uint16_t>(q.a), q.size, shmem::rbTreeBestFit));
                } else {
                    segs.push_back(std::make_unique<shmem::Segment>(ShmId(q.text), static_cast<uint16_t>(q.a), q.size, shmem::simpleSeqFit));
                }
                r.v = segs.back()->GetFreeMemory();
            } else {
                RegionConfig cfg;
                cfg.id = static_cast<uint16_t>(q.a);
                cfg.size = q.size;
                cfg.removeOnDestruction = false;
                if (q.c) { cfg.rcSegmentSize = 100000; }
                rgs.push_back(std::make_unique<shmem::UnmanagedRegion>(ShmId(q.text), q.size, cfg));
            }
            break;
        case opQuery: {
            const shmem::SessionId id{q.text};
            if (q.b == 0) {
                r.v = shmem::Monitor::SegmentIsPresent(id, static_cast<uint16_t>(q.a)) ? 1 : 0;
            } else if (q.b == 1) {
                r.v = shmem::Monitor::RegionIsPresent(id, static_cast<uint16_t>(q.a)) ? 1 : 0;
            } else {
                r.v = shmem::Monitor::GetFreeMemory(id, static_cast<uint16_t>(q.a));
            }
            break;
        }
        case opMonitor: {
            shmem::Monitor m(ShmId(q.text), q.a != 0, false, false, static_cast<unsigned>(q.b), 100, true, q.c != 0);
            m.Run();
            break;
        }
    }
}

struct Proc
{
    pid_t pid = -1;
    int in = -1, out = -1;   // of the parent
    bool alive = false;
    bool subscribed = false;
    bool armed = false;      // another thread may be the one that is killed, right after the answer
    std::map<int, int> devs;   // device -> session
    int next = 0;

    explicit Proc(bool = true)
    {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) != 0 || pipe2(b, O_CLOEXEC) != 0) { throw pbt::Discard{}; }
        const pid_t parent = getpid();
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent) { _exit(0); }
            close(a[1]);
            close(b[0]);
            Serve(a[0], b[1]);
            _exit(0);
        }
        close(a[0]);
        close(b[1]);
        in = b[0];
        out = a[1];
        alive = true;
    }
    Proc(const Proc&) = delete;
    Proc& operator=(const Proc&) = delete;
    static void Serve(int in, int out)
    {
        std::map<int, std::unique_ptr<Device16>> devs;
        vector<std::unique_ptr<shmem::Segment>> segs;
        vector<std::unique_ptr<shmem::UnmanagedRegion>> rgs;
        Cmd q;
        while (read(in, &q, sizeof(q)) == static_cast<ssize_t>(sizeof(q))) {
            Rep r{};
            gPoints = q.kill;
            try {
                Handle(q, r, devs, segs, rgs);
            } catch (const std::exception& e) {
                r.ok = 0;
                snprintf(r.text, sizeof(r.text), "%s", e.what());
            }
            gPoints = 0;
            if (write(out, &r, sizeof(r)) != static_cast<ssize_t>(sizeof(r))) { break; }
        }
        _exit(0);
    }
    // 0: died, -1: no answer in time, 1: answered
    int Call(const Cmd& q, Rep& r, int ms = 20000)
    {
        armed |= q.kill > 0;
        if (!Send(q)) { return 0; }
        return Answer(r, ms);
    }
    bool Send(const Cmd& q) { return write(out, &q, sizeof(q)) == static_cast<ssize_t>(sizeof(q)); }
    int Answer(Rep& r, int ms)
    {
        pollfd p{in, POLLIN, 0};
        if (poll(&p, 1, ms) <= 0) { return -1; }
        size_t n = 0;
        while (n < sizeof(r)) {
            const ssize_t k = read(in, reinterpret_cast<char*>(&r) + n, sizeof(r) - n);
            if (k <= 0) { return 0; }
            n += static_cast<size_t>(k);
        }
        return 1;
    }
    int Reap()
    {
        if (!alive) { return 0; }
        alive = false;
        int st = 0;
        waitpid(pid, &st, 0);
        close(in);
        close(out);
        return st;
    }
    void Kill()
    {
        if (alive) { kill(pid, SIGKILL); }
        Reap();
    }
    ~Proc() { Kill(); }
};

struct Session16
{
    string name, id;
    int live = 0;            // devices
    bool killed = false;     // a process with a device in it was killed
    bool stuck = false;      // ... possibly with a lock held
    bool exists = false;     // there is something to clean up
    std::map<int, int> segs;                    // id -> algorithm
    std::map<int, uint64_t> segSize;
    struct R { bool alive; bool keep; bool file; uint64_t size; };
    std::map<int, R> regions;
    int nextId = 1;
};
struct World16
{
    pbt::Src& s;
    pbt::Case& c;
    Session16 ses[2];
    vector<std::unique_ptr<Proc>> procs;
    int kills = 0, cleanups = 0, devices = 0;

    World16(pbt::Src& s_, pbt::Case& c_) : s(s_), c(c_)
    {
        signal(SIGPIPE, SIG_IGN);
        for (auto& x : ses) {
            x.name = NewSession();
            x.id = ShmId(x.name);
        }
    }
    ~World16()
    {
        procs.clear();
        for (auto& x : ses) {
            for (auto& n : List(x.id)) { ::unlink((n[0] == '/' ? n : "/dev/shm/" + n).c_str()); }
        }
        std::remove(SessionFile().c_str());
    }
    static Cmd Make(Op op, const string& text = "")
    {
        Cmd q{};
        q.op = op;
        snprintf(q.text, sizeof(q.text), "%s", text.c_str());
        return q;
    }
    void Died(Proc& p, const char* what, bool expected)
    {
        const int st = p.Reap();
        REQ(expected && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, "the process ended during '" << what << "' (status " << st << ")");
    }
    // end the devices of a process in the model
    void Forget(Proc& p)
    {
        for (auto& [d, k] : p.devs) {
            --ses[k].live;
            ses[k].killed = true;
        }
        p.devs.clear();
    }
    void KillProc(Proc& p)
    {
        if (!p.alive) { return; }
        const bool held = p.subscribed;
        std::set<int> k;
        for (auto& d : p.devs) { k.insert(d.second); }
        p.Kill();
        Forget(p);
        ++kills;
        for (int x : k) { ses[x].stuck |= held; }
    }
    void KillAllIn(int k)
    {
        for (auto& p : procs) {
            bool in = false;
            for (auto& d : p->devs) { in |= d.second == k; }
            if (in) { KillProc(*p); }
        }
    }
    // run a command; false: the process is gone (killed as armed)
    bool Do(Proc& p, int k, Cmd q, Rep& r, const char* what, int ms = 20000)
    {
        const int res = p.Call(q, r, ms);
        // a process that was killed may have held a lock that this one needs
        const bool locked = res == 1 && !r.ok && ses[k].killed && strstr(r.text, "lock_exception");
        if (res == 1 && !locked) { return true; }
        if (res == 0) {
            Died(p, what, p.armed);
            c << " killed!";
            ++kills;
            ses[k].exists = true;   // perhaps
            ses[k].killed = true;
            // perhaps with a lock held
            Forget(p);
            KillAllIn(k);
            CleanupSession(k);
            return false;
        }
        REQ(ses[k].killed, "'" << what << "' does not end");
        c << (locked ? " locked after the kill" : " hangs after the kill");
        KillProc(p);
        KillAllIn(k);
        ses[k].exists = true;
        CleanupSession(k);
        return false;
    }
    // the last one has ended, without cleaning up or killed
    void CleanupSession(int k)
    {
        Session16& x = ses[k];
        const auto other = List(ses[1 - k].id);
        ++cleanups;
        // (a monitor waits for the first heartbeat)
        bool beat = false;
        if (!x.segs.empty()) {
            using namespace boost::interprocess;
            try {
                managed_shared_memory m(open_read_only, ("fmq_" + x.id + "_mng").c_str());
                auto* hb = m.find<shmem::Heartbeat>(unique_instance).first;
                beat = hb && hb->fCount > 0;
            } catch (const interprocess_exception&) {}
        }
        const int how = static_cast<int>(s.draw(beat ? 5 : 4));
        c << " cleanup" << how << "(" << k << ")";
        vector<std::pair<string, bool>> res;
        bool reported = true;
        if (how == 2 && s.flip()) {   // a monitor has been killed, too
            boost::interprocess::named_mutex ms(boost::interprocess::open_or_create, ("fmq_" + x.id + "_ms").c_str());
        }
        const auto before = List(x.id);
        switch (how) {
            case 0: res = shmem::Monitor::Cleanup(shmem::SessionId{x.name}, s.flip()); break;
            case 1: res = shmem::Monitor::Cleanup(shmem::ShmId{x.id}, false); break;
            case 2: res = shmem::Monitor::CleanupFull(shmem::SessionId{x.name}, false); break;
            case 3: {
                shmem::Monitor m(x.id, false, false, false, 1000, 100, true, true);
                REQ_THROWS(shmem::Monitor::DaemonPresent, shmem::Monitor(x.id, false, false, false, 1000, 100, true, true), "a second monitor");
                reported = false;
                break;
            }
            default: {   // a monitor that ends when it has seen the end of the session
                Proc p;
                Cmd q = Make(opMonitor, x.name);
                q.a = 1;
                q.b = 300;
                Rep r{};
                REQ_EQ(p.Call(q, r, 30000), 1, "the monitor ends when the session is over");
                REQ(r.ok, "the monitor failed: " << r.text);
                reported = false;
                break;
            }
        }
        const auto after = List(x.id);
        REQ(after.empty(), "after the cleanup there is left of the session:" << Join(after) << " of" << Join(before));
        if (reported) {
            std::set<string> removed;
            for (auto& [n, ok] : res) {
                if (ok) { removed.insert(n.size() > 3 && n.substr(n.size() - 3) == "_ms" ? "sem." + n : n); }
            }
            REQ_EQ(Join(removed), Join(before), "what the cleanup reports as removed");
        }
        REQ_EQ(Join(List(ses[1 - k].id)), Join(other), "the objects of the other session");
        Session16 y;
        y.name = x.name;
        y.id = x.id;
        x = y;
        Again(k);
    }
    // a new session under the same name
    void Again(int k)
    {
        Session16& x = ses[k];
        Proc p;
        Cmd q = Make(opDevice, x.name);
        q.size = 30000 + s.draw(40) * 1000;
        q.a = s.pick({0, 0, 1});
        q.b = static_cast<int>(s.draw(2));
        c << " again";
        Rep r{};
        auto run = [&](const char* what) {
            REQ_EQ(p.Call(q, r, 20000), 1, what << " in a new session");
            REQ(r.ok, what << " in a new session failed: " << r.text);
        };
        run("a device");
        REQ(r.v <= q.size && r.v + 64 >= q.size, "the segment of the new session has " << r.v << " bytes, not " << q.size);
        const uint64_t seg = r.v;
        const int segId = q.a;
        q = Make(opMessage);
        q.size = seg / 2;
        run("a message of half the segment");
        q = Make(opRegion);
        q.a = 1 + static_cast<int>(s.draw(4));
        q.b = 8;
        q.size = 5000;
        run("a region");
        const int id = q.a;
        q = Make(opList);
        run("listing");
        REQ_EQ(string(r.text), (std::set<string>{std::to_string(segId) + "m", std::to_string(id) + "u"}, std::to_string(segId) < std::to_string(id) || (segId == id) ?
            std::to_string(segId) + "m+" + std::to_string(seg) + " " + std::to_string(id) + "u+5000 " : std::to_string(id) + "u+5000 " + std::to_string(segId) + "m+" + std::to_string(seg) + " "),
            "what a new session lists");
        q = Make(opEndAll);
        q.a = static_cast<int>(s.draw(32));
        run("the end");
        REQ_EQ(Join(List(x.id)), Join({}), "what is left of the new session");
        kill(p.pid, SIGKILL);
    }
    void Check()
    {
        for (int k = 0; k < 2; ++k) {
            Session16& x = ses[k];
            const auto l = List(x.id);
            if (x.exists) {
                REQ(l.count("fmq_" + x.id + "_mng"), "the management segment of a session in use is gone, there is" << Join(l));
                for (auto& g : x.segs) { REQ(l.count("fmq_" + x.id + "_m_" + std::to_string(g.first)), "segment " << g.first << " of a session in use is gone, there is" << Join(l)); }
                for (auto& g : x.regions) {
                    const string n = (g.second.file ? RegionDir() : string()) + "fmq_" + x.id + "_rg_" + std::to_string(g.first);
                    if (g.second.alive || g.second.keep) {
                        REQ(l.count(n), "region " << g.first << " in use is gone, there is" << Join(l));
                    } else {
                        REQ(!l.count(n), "the destroyed region " << g.first << " is left");
                        bool subscribed = false;   // somebody may be making a view of it
                        for (auto& p : procs) { subscribed |= p->subscribed; }
                        if (!subscribed) {
                            for (const char* q : {"_rrc_", "_rgq_"}) {
                                REQ(!l.count("fmq_" + x.id + q + std::to_string(g.first)), q << " of the destroyed region " << g.first << " is left");
                            }
                        }
                    }
                }
            } else {
                REQ(l.empty(), "no device uses the session, but there is left" << Join(l));
            }
        }
    }
    // a device of the session ended as it should
    void Ended(int k, bool noCleanup)
    {
        Session16& x = ses[k];
        --x.live;
        if (x.live == 0 && !x.killed && !noCleanup) {
            Session16 y;
            y.name = x.name;
            y.id = x.id;
            x = y;
        }
    }
    struct DevInfo { Proc* p; int dev; int k; };
    vector<DevInfo> Devs()
    {
        vector<DevInfo> v;
        for (auto& p : procs) {
            if (!p->alive) { continue; }
            for (auto& d : p->devs) { v.push_back({p.get(), d.first, d.second}); }
        }
        return v;
    }
    std::map<std::pair<Proc*, int>, bool> noClean;
    std::map<std::pair<Proc*, int>, std::set<int>> owned;   // regions
    std::map<std::pair<Proc*, int>, int> segOf;

    void RegionsGone(Proc* p, int dev, int k)
    {
        for (int id : owned[{p, dev}]) {
            auto it = ses[k].regions.find(id);
            if (it != ses[k].regions.end()) { it->second.alive = false; }
        }
        owned.erase({p, dev});
    }
    void Step()
    {
        auto devs = Devs();
        long killAt = s.chance(100 / 5) ? static_cast<long>(s.size(s.flip() ? 12 : 150)) + 1 : 0;
        const size_t what = devs.empty() ? 0 : s.weighted({4, 3, 1, 4, 2, 2, 2, 1, 4, 2, 2, 2});
        Rep r{};
        if (killAt) { c << " [kill " << killAt << "]"; }
        switch (what) {
            case 0: {   // a device
                size_t alive = 0;
                for (auto& p : procs) { alive += p->alive; }
                if (alive == 0 || (alive < 3 && s.chance(100 / 2))) { procs.push_back(std::make_unique<Proc>()); }
                vector<Proc*> v;
                for (auto& p : procs) {
                    if (p->alive) { v.push_back(p.get()); }
                }
                Proc& p = *v[s.draw(v.size())];
                if (p.devs.size() > 2) { return; }
                const int k = s.chance(100 / 4) ? 1 : 0;
                Session16& x = ses[k];
                Cmd q = Make(opDevice, x.name);
                q.kill = killAt;
                q.dev = p.next++;
                q.a = s.pick({0, 0, 1, 7});
                q.b = static_cast<int>(s.draw(2));
                q.size = 20000 + s.draw(100) * 1111;
                q.c = s.chance(100 / 8) ? 1 : 0;
                bool fails = false;
                const bool known = x.segs.count(q.a) != 0;
                if (s.chance(100 / 6)) {
                    switch (s.draw(3)) {
                        case 0: q.size = 1ull << 50; fails = !known; break;
                        case 1: q.size = 1; fails = true; break;
                        default:
                            q.b = 2;
                            fails = true;
                    }
                }
                if (!x.exists && s.chance(10)) { q.kill = killAt = 1 + static_cast<long>(s.draw(14)); }
                c << " device" << q.dev << "@" << p.pid % 1000 << "(ses" << k << " seg" << q.a << " " << q.size << " alg" << q.b << (q.c ? " noclean" : "") << (fails ? " fails)" : ")");
                if (!Do(p, k, q, r, "start a device")) { return; }
                if (fails) {
                    REQ(!r.ok, "a device with an impossible segment was started");
                    if (q.b == 2) {
                        // refused before it uses the session
                    } else if (x.exists && x.live == 0 && !x.killed && !q.c) {
                        // it was the last user
                        Session16 y;
                        y.name = x.name;
                        y.id = x.id;
                        x = y;
                    } else if (q.c && x.live == 0 && !x.exists) {
                        x.exists = true;   // nobody may remove the management segment
                    }
                    break;
                }
                REQ(r.ok, "a device could not be started: " << r.text);
                if (!known) {
                    REQ(r.v <= q.size && r.v + 64 >= q.size, "the segment has " << r.v << " bytes, not " << q.size);
                    x.segs[q.a] = q.b;
                    x.segSize[q.a] = r.v;
                } else {
                    REQ_EQ(r.v, x.segSize[q.a], "the size of the present segment " << q.a);
                }
                x.exists = true;
                ++x.live;
                ++devices;
                p.devs[q.dev] = k;
                noClean[{&p, q.dev}] = q.c != 0;
                segOf[{&p, q.dev}] = q.a;
                break;
            }
            case 1:
            case 2: {
                auto d = devs[s.draw(devs.size())];
                Cmd q = Make(what == 1 ? opMessage : opDropMessage);
                q.kill = killAt;
                q.dev = d.dev;
                q.size = 1 + s.draw(3000);
                c << (what == 1 ? " message" : " drop") << d.dev;
                if (!Do(*d.p, d.k, q, r, "message")) { return; }
                break;
            }
            case 3: {
                auto d = devs[s.draw(devs.size())];
                Session16& x = ses[d.k];
                Cmd q = Make(opRegion, RegionDir());
                q.kill = killAt;
                q.dev = d.dev;
                q.a = s.flip() ? -1 : x.nextId++;
                q.b = static_cast<int>(s.draw(16)) | (s.chance(100 / 4) ? 16 : 0);
                if (!s.chance(100 / 4)) { q.b &= ~1; }
                q.size = 1 + s.draw(s.flip() ? 10000 : 100);
                if (q.size < 100) { q.size = 100; }
                const bool fails = s.chance(10);
                if (fails) {
                    if (q.b & 16) {
                        snprintf(q.text, sizeof(q.text), "%s", (pbt::Scratch() + "/no/such/directory/").c_str());
                    } else {
                        q.size = 1ull << 50;
                    }
                    c << " impossible";
                }
                c << " region" << d.dev << "(" << q.a << " " << q.b << " " << q.size << ")";
                if (!Do(*d.p, d.k, q, r, "create a region")) { return; }
                if (fails) {
                    REQ(!r.ok, "an impossible region was created");
                    if (q.a >= 0 && s.flip()) { --x.nextId; }   // the id is still free
                    break;
                }
                REQ(r.ok, "a region could not be created: " << r.text);
                x.regions[static_cast<int>(r.v)] = {true, (q.b & 1) != 0, (q.b & 16) != 0, q.size};
                owned[{d.p, d.dev}].insert(static_cast<int>(r.v));
                break;
            }
            case 4:
            case 5: {
                auto d = devs[s.draw(devs.size())];
                auto& o = owned[{d.p, d.dev}];
                if (o.empty()) { return; }
                const int id = *std::next(o.begin(), static_cast<long>(s.draw(o.size())));
                Cmd q = Make(what == 4 ? opRegionMessages : opDropRegion);
                q.kill = killAt;
                q.dev = d.dev;
                q.a = id;
                q.b = 1 + static_cast<int>(s.draw(5));
                q.c = s.flip();
                q.d = s.flip();
                c << (what == 4 ? " rgmsg" : " rgdrop") << id;
                if (!Do(*d.p, d.k, q, r, "use a region")) { return; }
                REQ(r.ok, "using a region failed: " << r.text);
                if (what == 5) {
                    ses[d.k].regions[id].alive = false;
                    o.erase(id);
                }
                break;
            }
            case 6: {
                auto d = devs[s.draw(devs.size())];
                Cmd q = Make(opList);
                q.kill = killAt;
                q.dev = d.dev;
                c << " list" << d.dev;
                if (!Do(*d.p, d.k, q, r, "list the regions")) { return; }
                REQ(r.ok, "listing the regions failed: " << r.text);
                std::set<string> want;
                for (auto& g : ses[d.k].segSize) { want.insert(std::to_string(g.first) + "m+" + std::to_string(g.second)); }
                for (auto& g : ses[d.k].regions) { want.insert(std::to_string(g.first) + "u" + (g.second.alive || g.second.keep ? "+" + std::to_string(g.second.size) : "-")); }
                if (!ses[d.k].killed) {
                    string t;
                    for (auto& w : want) { t += w + " "; }
                    REQ_EQ(string(r.text), t, "the list of regions");
                }
                break;
            }
            case 7: {
                auto d = devs[s.draw(devs.size())];
                Cmd q = Make(opSubscribe);
                q.kill = killAt;
                q.dev = d.dev;
                c << " subscribe" << d.dev;
                d.p->subscribed = true;
                if (!Do(*d.p, d.k, q, r, "subscribe")) { return; }
                break;
            }
            case 8: {
                auto d = devs[s.draw(devs.size())];
                Cmd q = Make(opEnd);
                q.kill = killAt;
                q.dev = d.dev;
                q.a = static_cast<int>(s.draw(16));
                c << " end" << d.dev;
                if (!Do(*d.p, d.k, q, r, "end a device")) { return; }
                RegionsGone(d.p, d.dev, d.k);
                d.p->devs.erase(d.dev);
                Ended(d.k, noClean[{d.p, d.dev}]);
                break;
            }
            case 9: {
                auto d = devs[s.draw(devs.size())];
                c << " kill@" << d.p->pid % 1000;
                std::map<int, int> had = d.p->devs;
                KillProc(*d.p);
                for (auto& h : had) {
                    for (int id : owned[{d.p, h.first}]) { ses[h.second].regions[id].keep = true; }   // nobody destroys it
                    owned.erase({d.p, h.first});
                }
                break;
            }
            case 10: {   // everything of one process
                auto d = devs[s.draw(devs.size())];
                EndProc(*d.p, killAt);
                break;
            }
            default: {   // queries
                const int k = s.chance(100 / 4) ? 1 : 0;
                Session16& x = ses[k];
                const int seg = s.pick({0, 1, 7, 9});
                c << " query";
                REQ_EQ(shmem::Monitor::SegmentIsPresent(shmem::SessionId{x.name}, static_cast<uint16_t>(seg)), x.segs.count(seg) != 0, "SegmentIsPresent(" << seg << ")");
                REQ_EQ(shmem::Monitor::SegmentIsPresent(shmem::ShmId{x.id}, static_cast<uint16_t>(seg)), x.segs.count(seg) != 0, "SegmentIsPresent(" << seg << ")");
                for (auto& g : x.regions) {
                    if (!g.second.file) {
                        REQ_EQ(shmem::Monitor::RegionIsPresent(shmem::SessionId{x.name}, static_cast<uint16_t>(g.first)), g.second.alive || g.second.keep, "RegionIsPresent(" << g.first << ")");
                    }
                }
                REQ_EQ(shmem::Monitor::PrintShm(shmem::ShmId{x.id}), x.exists, "PrintShm");
                REQ(!shmem::Monitor::RegionIsPresent(shmem::ShmId{x.id}, 999), "RegionIsPresent of an unknown region");
                if (!x.killed) {
                    if (x.segs.count(seg)) {
                        bool sane = true;
                        REQ_EQ(shmem::Monitor::GetFreeMemory(shmem::SessionId{x.name}, static_cast<uint16_t>(seg)), FreeProbe::Get(x.name, static_cast<uint16_t>(seg), x.segs[seg] == 0, sane), "GetFreeMemory");
                    } else {
                        REQ_THROWS(shmem::Monitor::MonitorError, shmem::Monitor::GetFreeMemory(shmem::SessionId{x.name}, static_cast<uint16_t>(seg)), "free memory of an unknown segment");
                    }
                }
            }
        }
        Check();
    }
    void EndProc(Proc& p, long killAt)
    {
        if (!p.alive) { return; }
        Cmd q = Make(opEndAll);
        q.kill = killAt;
        q.a = static_cast<int>(s.draw(32));
        c << " endall@" << p.pid % 1000;
        Rep r{};
        const int res = p.Call(q, r, 20000);
        bool killed = false;
        for (auto& d : p.devs) { killed |= ses[d.second].killed; }
        const bool locked = res == 1 && !r.ok && killed && strstr(r.text, "lock_exception");
        if (res == 1 && !locked) {
            REQ(r.ok, "ending the devices failed: " << r.text);
            // in the order of the process
            vector<std::pair<int, int>> order(p.devs.begin(), p.devs.end());
            if (q.a & 16) { std::reverse(order.begin(), order.end()); }
            p.devs.clear();
            for (auto& [d, k] : order) {
                RegionsGone(&p, d, k);
                Ended(k, noClean[{&p, d}]);
            }
            return;
        }
        if (res == 0) {
            Died(p, "end all devices", p.armed);
            c << " killed!";
        } else {
            REQ(killed, "ending all devices does not end");
        }
        ++kills;
        std::set<int> k;
        for (auto& d : p.devs) { k.insert(d.second); }
        p.Kill();
        Forget(p);
        for (int x : k) { KillAllIn(x); }
        for (int x : k) { CleanupSession(x); }
    }
    void Finish()
    {
        // everyone leaves, in any order, some killed
        for (;;) {
            vector<Proc*> v;
            for (auto& p : procs) {
                if (p->alive && !p->devs.empty()) { v.push_back(p.get()); }
            }
            if (v.empty()) { break; }
            Proc& p = *v[s.draw(v.size())];
            if (s.chance(100 / 5)) {
                c << " kill@" << p.pid % 1000;
                std::map<int, int> had = p.devs;
                KillProc(p);
                for (auto& h : had) {
                    for (int id : owned[{&p, h.first}]) { ses[h.second].regions[id].keep = true; }
                    owned.erase({&p, h.first});
                }
            } else {
                EndProc(p, s.chance(100 / 6) ? static_cast<long>(s.size(80)) + 1 : 0);
            }
            Check();
        }
        for (int k = 0; k < 2; ++k) {
            if (ses[k].exists) { CleanupSession(k); }
        }
        Check();
    }
};
}   // namespace

RACY_CASE(crash, 10, 90000)
{
    World16 w(s, c);
    const int n = static_cast<int>(s.size(25)) + 2;
    for (int i = 0; i < n; ++i) { w.Step(); }
    w.Finish();
    if (w.devices > 1 && (w.kills > 0 || w.devices > 2)) { c.nontrivial(); }
}

// an external program prepares segments and regions, devices come, go and are killed, the content is reset in between
RACY_CASE(managed, 4, 90000)
{
    World16 w(s, c);
    Session16& x = w.ses[0];
    Proc mgr;
    auto call = [&](Proc& p, const Cmd& q, const char* what) {
        Rep r{};
        REQ_EQ(p.Call(q, r, 20000), 1, what);
        REQ(r.ok, what << ": " << r.text);
        return r;
    };
    std::map<int, std::pair<int, uint64_t>> segs;   // algorithm, size
    std::map<int, uint64_t> freeMem, regions;
    const int nseg = 1 + static_cast<int>(s.draw(3));
    for (int i = 0; i < nseg; ++i) {
        Cmd q = World16::Make(opManager, x.name);
        q.a = i;
        q.b = static_cast<int>(s.draw(2));
        q.size = 20000 + s.draw(100) * 1111;
        freeMem[i] = call(mgr, q, "create a segment").v;
        segs[i] = {q.b, q.size};
        c << " seg" << i << "(" << q.size << ")";
    }
    const int nreg = static_cast<int>(s.draw(4));
    for (int i = 0; i < nreg; ++i) {
        Cmd q = World16::Make(opManager, x.name);
        q.a = 10 + i;
        q.b = 2;
        q.c = s.flip();
        q.size = 100 + s.draw(100) * 77;
        call(mgr, q, "create a region");
        regions[q.a] = q.size;
        c << " rg" << q.a << "(" << q.size << ")";
    }
    auto listing = [&]() {
        std::set<string> v;
        for (auto& g : segs) { v.insert(std::to_string(g.first) + "m+" + std::to_string(g.second.second)); }
        for (auto& g : regions) { v.insert(std::to_string(g.first) + "u+" + std::to_string(g.second)); }
        string t;
        for (auto& e : v) { t += e + " "; }
        return t;
    };
    const bool keepMgr = s.flip();
    if (!keepMgr) { mgr.Kill(); }
    const int rounds = 1 + static_cast<int>(s.draw(3));
    bool crashed = false;
    for (int round = 0; round < rounds; ++round) {
        c << " round";
        vector<std::unique_ptr<Proc>> ps;
        const int n = 1 + static_cast<int>(s.draw(3));
        vector<std::set<int>> mine(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i) {
            ps.push_back(std::make_unique<Proc>());
            Cmd q = World16::Make(opDevice, x.name);
            q.a = static_cast<int>(s.draw(static_cast<uint64_t>(nseg)));
            q.b = static_cast<int>(s.draw(2));   // whatever is configured, the present segment is used
            q.size = 12345;
            q.c = 1;
            Rep r = call(*ps.back(), q, "start a device in prepared memory");
            const int seg = q.a;
            q = World16::Make(opList);
            r = call(*ps.back(), q, "list");
            REQ_EQ(string(r.text), listing(), "what a device finds in prepared memory");
            q = World16::Make(opRegion);
            for (auto& g : regions) {   // the device controls the prepared regions
                if (!s.flip()) { continue; }
                bool taken = false;
                for (auto& m : mine) { taken |= m.count(g.first) != 0; }
                if (taken) { continue; }
                q.a = g.first;
                q.b = 1 | (s.flip() ? 8 : 0);
                q.size = g.second;
                r = call(*ps.back(), q, "use a prepared region");
                mine[static_cast<size_t>(i)].insert(g.first);
                Cmd m = World16::Make(opRegionMessages);
                m.a = g.first;
                m.b = 3;
                m.c = s.flip();
                call(*ps.back(), m, "messages in a prepared region");
            }
            q = World16::Make(opMessage);
            q.size = 1 + s.draw(3000);
            const int k = static_cast<int>(s.draw(4));
            for (int j = 0; j < k; ++j) { call(*ps.back(), q, "message"); }
            c << " dev(seg" << seg << " " << k << "x" << q.size << ")";
        }
        const auto before = List(x.id);
        bool stuck = false;
        for (auto& p : ps) {
            if (s.chance(40)) {
                p->Kill();
                c << " kill";
                crashed = stuck = true;
                ++w.kills;
            } else {
                Cmd q = World16::Make(opEndAll);
                q.a = static_cast<int>(s.draw(32));
                Rep r{};
                const int res = p->Call(q, r, 20000);
                REQ(stuck || res == 1, "the end of a device");
                REQ(stuck || r.ok, "the end of a device failed: " << r.text);
                c << " end";
            }
        }
        ps.clear();
        const auto after = List(x.id);
        for (auto& g : segs) { REQ(after.count("fmq_" + x.id + "_m_" + std::to_string(g.first)), "segment " << g.first << " is gone though there is no cleanup"); }
        for (auto& g : regions) { REQ(after.count("fmq_" + x.id + "_rg_" + std::to_string(g.first)), "region " << g.first << " is gone though it is to be kept"); }
        REQ(after.count("fmq_" + x.id + "_mng"), "the management segment is gone though there is no cleanup");
        // reset
        if (s.flip() && !stuck) {
            c << " reset";
            shmem::Monitor::ResetContent(shmem::SessionId{x.name}, s.flip());
        } else {
            c << " reset+";
            vector<shmem::SegmentConfig> sc;
            for (auto& g : segs) { sc.push_back({static_cast<uint16_t>(g.first), g.second.second, g.second.first == 0 ? "rbtree_best_fit" : "simple_seq_fit"}); }
            vector<RegionConfig> rc;
            for (auto& g : regions) {
                RegionConfig cfg;
                cfg.id = static_cast<uint16_t>(g.first);
                cfg.size = g.second;
                rc.push_back(cfg);
            }
            shmem::Monitor::ResetContent(shmem::ShmId{x.id}, sc, rc, s.flip());
        }
        for (auto& g : segs) {
            REQ(shmem::Monitor::SegmentIsPresent(shmem::SessionId{x.name}, static_cast<uint16_t>(g.first)), "segment " << g.first << " is not present after the reset");
            bool sane = true;
            REQ_EQ(FreeProbe::Get(x.name, static_cast<uint16_t>(g.first), g.second.first == 0, sane), freeMem[g.first], "free memory of segment " << g.first << " after the reset");
            REQ(sane, "segment " << g.first << " is not sane after the reset");
            REQ_EQ(shmem::Monitor::GetFreeMemory(shmem::SessionId{x.name}, static_cast<uint16_t>(g.first)), freeMem[g.first], "GetFreeMemory of segment " << g.first << " after the reset");
        }
        for (auto& g : regions) {
            REQ(shmem::Monitor::RegionIsPresent(shmem::SessionId{x.name}, static_cast<uint16_t>(g.first)), "region " << g.first << " is not present after the reset");
        }
        const auto reset = List(x.id);
        for (auto& g : regions) {
            REQ(!reset.count("fmq_" + x.id + "_rgq_" + std::to_string(g.first)), "the queue of region " << g.first << " is left after the reset");
            REQ(!reset.count("fmq_" + x.id + "_rrc_" + std::to_string(g.first)), "the counters of region " << g.first << " are left after the reset");
        }
    }
    if (keepMgr) { mgr.Kill(); }
    w.CleanupSession(0);
    if (crashed || rounds > 1) { c.nontrivial(); }
}

// the last device leaves while others come
RACY_CASE(turnover, 3, 60000)
{
    World16 w(s, c);
    Session16& x = w.ses[0];
    const int n = 2 + static_cast<int>(s.draw(3));
    vector<std::unique_ptr<Proc>> ps;
    for (int i = 0; i < n; ++i) { ps.push_back(std::make_unique<Proc>()); }
    vector<bool> in(static_cast<size_t>(n), false);
    const int rounds = 3 + static_cast<int>(s.size(12));
    c << n << " processes";
    for (int r = 0; r < rounds; ++r) {
        // some enter or leave at the same time
        vector<size_t> v;
        for (size_t i = 0; i < ps.size(); ++i) {
            if (s.chance(70)) { v.push_back(i); }
        }
        c << " |";
        for (size_t i : v) {
            Cmd q = World16::Make(in[i] ? opEndAll : opDevice, x.name);
            q.size = 50000;
            c << (in[i] ? " -" : " +") << i;
            REQ(ps[i]->Send(q), "send");
        }
        for (size_t i : v) {
            Rep rep{};
            REQ_EQ(ps[i]->Answer(rep, 20000), 1, "a device " << (in[i] ? "leaves" : "comes") << " while others come and go");
            REQ(rep.ok, "a device " << (in[i] ? "leaves" : "comes") << " while others come and go: " << rep.text);
            in[i] = !in[i];
        }
        const auto l = List(x.id);
        bool any = false;
        for (bool b : in) { any |= b; }
        if (any) {
            REQ(l.count("fmq_" + x.id + "_mng") && l.count("fmq_" + x.id + "_m_0"), "the session is in use, but there is only" << Join(l));
            // all of them use the same one
            size_t use = 0;
            for (bool b : in) { use += b; }
            using namespace boost::interprocess;
            managed_shared_memory m(open_only, ("fmq_" + x.id + "_mng").c_str());
            auto* dc = m.find<shmem::DeviceCounter>(unique_instance).first;
            REQ(dc, "no device counter");
            REQ_EQ(static_cast<size_t>(dc->fCount), use, "devices in the session that has the name");
        } else {
            REQ(l.empty(), "all devices left, but there is" << Join(l));
        }
    }
    c.nontrivial();
}
