// C06: region information, events and bounds describe the regions that exist.
#include "msgworld.h"
#include <sys/stat.h>
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
string Show(const RegionInfo& i)
{
    std::ostringstream o;
    o << (i.managed ? "segment " : "region ") << i.id << " " << i.event << " size " << i.size << " flags " << i.flags << (i.ptr ? "" : " null");
    return o.str();
}
// what the callback of a device was told
struct EventLog
{
    std::mutex mtx;
    std::vector<RegionInfo> v;
    TransportFactory* f = nullptr;
    bool query = false;
    void operator()(const RegionInfo& i)
    {
        if (query) { f->GetRegionInfo(); }
        std::lock_guard<std::mutex> l(mtx);
        v.push_back(i);
    }
};
struct Model
{
    bool managed = false;
    uint64_t id = 0;
    size_t size = 0;
    int64_t flags = 0;
    bool alive = true;      // as the information has it
    bool controlled = false;
    string path;
    int seen = 0;           // bit k: device k must have seen it created
};
struct Held
{
    UnmanagedRegionPtr p;
    int f = 0;
    uint64_t id = 0;
    size_t size = 0;
    bool remove = true;
    unsigned char tag = 0;
};
struct Device
{
    ProgOptions cfg;
    std::shared_ptr<TransportFactory> f;
    std::unique_ptr<EventLog> log = std::make_unique<EventLog>();
    bool subscribed = false;
};
struct World6
{
    pbt::Src& s;
    pbt::Case& c;
    bool shm;
    string session, dir;
    std::map<std::pair<bool, uint64_t>, Model> model;
    std::vector<uint64_t> order;    // zeromq: expected events: id*2 (created), id*2+1 (destroyed)
    std::map<uint64_t, Model> past; // zeromq
    std::vector<std::unique_ptr<Device>> devs;
    std::vector<Held> held;
    std::map<uint64_t, uint64_t> used;
    std::set<uint64_t> ids;
    int created = 0, destroyed = 0, queries = 0, refusals = 0, quiet = 0;

    World6(pbt::Src& src, pbt::Case& cs, bool sh) : s(src), c(cs), shm(sh)
    {
        session = NewSession();
        dir = pbt::Scratch() + "/r" + std::to_string(pbt::WorkerId()) + "/";
        mkdir(dir.c_str(), 0777);
        NewDevice();
        if (s.flip()) { NewDevice(); }
    }
    void NewDevice()
    {
        if (devs.size() >= (shm ? 4u : 1u)) { return; }
        auto d = std::make_unique<Device>();
        const uint16_t seg = shm ? static_cast<uint16_t>(s.pick({0, 0, 0, 1, 7})) : 0;
        const size_t size = s.pick({100000u, 1u << 20, 65536u});
        d->cfg.SetProperty<string>("session", session);
        d->cfg.SetProperty<size_t>("shm-segment-size", size);
        d->cfg.SetProperty<uint16_t>("shm-segment-id", seg);
        c << "dev" << devs.size() << (shm ? " seg " + std::to_string(seg) + " " + std::to_string(size) : "") << "; ";
        d->f = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "d" + std::to_string(devs.size()), &d->cfg);
        d->log->f = d->f.get();
        if (shm && model.count({true, seg}) == 0) {
            Model m;
            m.managed = true;
            m.id = seg;
            m.size = size;
            model[{true, seg}] = m;
        }
        devs.push_back(std::move(d));
    }
    int Dev()
    {
        std::vector<int> v;
        for (size_t i = 0; i < devs.size(); ++i) {
            if (devs[i]->f) { v.push_back(static_cast<int>(i)); }
        }
        return v[s.draw(v.size())];
    }
    void EndDevice()
    {
        int alive = 0;
        for (auto& d : devs) { alive += d->f ? 1 : 0; }
        if (alive < 2) { return; }
        const int k = Dev();
        for (size_t i = held.size(); i-- > 0;) {
            if (held[i].f == k) { Destroy(static_cast<int>(i)); }
        }
        c << "end-dev" << k << " ";
        devs[k]->f.reset();
        devs[k]->subscribed = false;
    }
    UnmanagedRegionPtr Make(int k, size_t size, RegionConfig cfg)
    {
        auto& f = *devs[k]->f;
        RegionCallback one;
        RegionBulkCallback many;
        if (s.flip()) { one = [](void*, size_t, void*) {}; }
        if (s.flip()) { many = [](const std::vector<RegionBlock>&) {}; }
        const auto path = cfg.path;
        const auto fl = cfg.userFlags;
        switch (s.draw(6)) {
            case 0: return f.CreateUnmanagedRegion(size, one, cfg);
            case 1: return f.CreateUnmanagedRegion(size, many, cfg);
            case 2: cfg.path = "x"; cfg.userFlags = 99; return f.CreateUnmanagedRegion(size, fl, one, path, 0, cfg);
            case 3: cfg.path = "x"; cfg.userFlags = 99; return f.CreateUnmanagedRegion(size, fl, many, path, 0, cfg);
            case 4:
                if (!shm && fl != 0) { return f.CreateUnmanagedRegion(size, one, cfg); }
                cfg.path = "x";
                return f.CreateUnmanagedRegion(size, one, path, 0, cfg);
            default:
                if (!shm && fl != 0) { return f.CreateUnmanagedRegion(size, many, cfg); }
                cfg.path = "x";
                return f.CreateUnmanagedRegion(size, many, path, 0, cfg);
        }
    }
    void Create()
    {
        if (held.size() >= 8) { return; }
        const int k = Dev();
        size_t size = 1 + s.draw(s.flip() ? 200000 : 5000);
        RegionConfig cfg;
        cfg.userFlags = s.chance(70) ? static_cast<int64_t>(s.u64()) : 0;
        cfg.linger = 0;
        cfg.rcSegmentSize = s.pick({100000u, 0u});
        cfg.removeOnDestruction = !s.chance(20);
        cfg.zero = s.chance(30);
        if (s.chance(15)) { cfg.path = dir; }
        const bool explicitId = shm && s.chance(40);
        uint64_t id = 0;
        bool fails = false, attach = false;
        if (explicitId) {
            id = 1 + s.draw(6);
            cfg.id = static_cast<uint16_t>(id);
            auto it = model.find({false, id});
            if (it != model.end()) {
                auto& m = it->second;
                if (!m.alive) {
                    fails = true;   // destroyed, and ids are unique in a session
                } else if (m.controlled) {
                    // refused if it is the same device; with another one it is the user's error
                    bool same = false;
                    for (auto& h : held) { same = same || (h.id == id && h.f == k); }
                    if (!same) { return; }
                    fails = true;
                } else {
                    // left behind on purpose: attach to it
                    attach = true;
                    if (m.path.empty() != cfg.path.empty()) { return; }
                    if (!m.path.empty()) { return; }
                    size = m.size;
                }
            }
        }
        c << "create" << (explicitId ? " " + std::to_string(id) : "") << "@" << k << "(" << size << (cfg.path.empty() ? "" : " file") << (cfg.removeOnDestruction ? "" : " keep") << (attach ? " attach" : "") << ") ";
        UnmanagedRegionPtr p;
        if (fails) {
            ++refusals;
            bool refused = false;
            try {
                p = Make(k, size, cfg);
            } catch (const TransportError&) {
                refused = true;
            }
            REQ(refused, "a second region with id " << id << " was created");
            return;
        }
        p = Make(k, size, cfg);
        ++created;
        Held h;
        h.f = k;
        h.id = p->GetId();
        h.size = size;
        h.remove = cfg.removeOnDestruction;
        h.tag = static_cast<unsigned char>(1 + s.draw(255));
        c << "=" << h.id << " ";
        if (explicitId) { REQ_EQ(h.id, id, "id of the region"); }
        if (!attach) { REQ(ids.insert(h.id).second, "region id " << h.id << " was given out before"); }
        REQ_EQ(p->GetSize(), size, "size of region " << h.id);
        REQ(p->GetData() != nullptr, "region " << h.id << " has no memory");
        REQ(p->GetType() == devs[k]->f->GetType(), "type of the region");
        REQ(p->GetTransport() == devs[k]->f.get(), "transport of the region");
        auto* d = static_cast<unsigned char*>(p->GetData());
        if (cfg.zero && !attach) {
            for (size_t i = 0; i < size; ++i) { REQ(d[i] == 0, "byte " << i << " of a region that should be zeroed is " << int(d[i])); }
        }
        memset(d, h.tag, size);
        if (shm) {
            const uint32_t l = static_cast<uint32_t>(s.draw(3));
            p->SetLinger(l);
            REQ_EQ(p->GetLinger(), l, "linger");
        }
        auto& m = model[{false, h.id}];
        if (!attach) {
            m.id = h.id;
            m.size = size;
            m.flags = cfg.userFlags;
            m.path = cfg.path;
        }
        m.alive = true;
        m.controlled = true;
        if (!shm) {
            order.push_back(h.id * 2);
            past[h.id] = m;
        }
        h.p = std::move(p);
        held.push_back(std::move(h));
    }
    void Destroy(int i)
    {
        Held h = std::move(held[i]);
        held.erase(held.begin() + i);
        c << "destroy" << h.id << " ";
        ++destroyed;
        const bool file = !model[{false, h.id}].path.empty();
        h.p.reset();
        auto it = model.find({false, h.id});
        if (!shm) {
            model.erase(it);
            order.push_back(h.id * 2 + 1);
        } else {
            it->second.controlled = false;
            if (h.remove) {
                it->second.alive = false;
                it->second.size = 0;
                if (file) { Exists(h.id, false); }
            } else if (file) {
                Exists(h.id, true);
            }
        }
    }
    void Exists(uint64_t id, bool want)
    {
        const string n = dir + shmem::MakeShmName(shmem::makeShmIdStr(session), "rg", static_cast<int>(id));
        struct stat st {};
        REQ_EQ(stat(n.c_str(), &st) == 0, want, "existence of the file of region " << id);
    }
    void Same(const RegionInfo& i, const Model& m, const char* what)
    {
        REQ_EQ(i.flags, m.flags, what << ": flags of region " << m.id);
        REQ_EQ(i.managed, m.managed, what << ": managed");
        if (i.event == RegionEvent::created) {
            REQ(i.ptr != nullptr, what << ": region " << m.id << " has no address");
        } else if (shm) {
            REQ(i.ptr == nullptr && i.size == 0, what << ": " << Show(i));
        }
    }
    void Query(int k)
    {
        ++queries;
        c << "info" << k << " ";
        auto infos = devs[k]->f->GetRegionInfo();
        std::set<std::pair<bool, uint64_t>> got;
        std::ostringstream all;
        for (auto& i : infos) { all << Show(i) << ", "; }
        for (auto& i : infos) {
            REQ(got.insert({i.managed, i.id}).second, "listed twice: " << Show(i));
            auto it = model.find({i.managed, i.id});
            REQ(it != model.end(), "listed, but does not exist: " << Show(i));
            auto& m = it->second;
            REQ_EQ(i.event == RegionEvent::created, m.alive, "is it listed as existing: " << Show(i));
            REQ_EQ(i.size, m.size, "size of " << Show(i));
            Same(i, m, "info");
            for (auto& h : held) {
                if (!i.managed && h.id == i.id) {
                    if (h.f == k) { REQ(i.ptr == h.p->GetData(), "address of region " << h.id << " in its own device"); }
                    auto* p = static_cast<unsigned char*>(i.ptr);
                    REQ(p[0] == h.tag && p[h.size - 1] == h.tag && p[h.size / 2] == h.tag, "what device " << k << " sees in region " << h.id);
                }
            }
        }
        REQ_EQ(got.size(), model.size(), "number of regions listed: " << all.str());
    }
    void Subscribe()
    {
        const int k = Dev();
        auto& d = *devs[k];
        if (d.subscribed && s.flip()) {
            c << "unsubscribe" << k << " ";
            d.f->UnsubscribeFromRegionEvents();
            d.subscribed = false;
        } else {
            d.log->query = s.chance(40);
            c << "subscribe" << k << (d.log->query ? " querying " : " ");
            auto* l = d.log.get();
            d.f->SubscribeToRegionEvents([l](RegionInfo i) { (*l)(i); });
            d.subscribed = true;
        }
        REQ_EQ(d.f->SubscribedToRegionEvents(), d.subscribed, "subscribed");
    }
    // what device k must have been told by now, or an empty text
    string Lacks(int k)
    {
        auto& d = *devs[k];
        std::lock_guard<std::mutex> l(d.log->mtx);
        auto& v = d.log->v;
        std::ostringstream o;
        if (!shm) {
            if (v.size() < order.size() + 1) {
                o << "told " << v.size() << " events of " << order.size() + 1;
            }
            return o.str();
        }
        for (auto& [key, m] : model) {
            int cr = 0, de = 0;
            for (auto& i : v) {
                if (i.managed == key.first && i.id == key.second) { (i.event == RegionEvent::created ? cr : de)++; }
            }
            if (m.alive && cr == 0) { o << "not told about " << (key.first ? "segment " : "region ") << key.second; }
            if (!m.alive && cr == 1 && de == 0) { o << "not told about the end of region " << key.second; }
        }
        return o.str();
    }
    void CheckLog(int k)
    {
        auto& d = *devs[k];
        std::lock_guard<std::mutex> l(d.log->mtx);
        auto& v = d.log->v;
        if (!shm) {
            for (size_t i = 0; i < v.size(); ++i) {
                if (i == 0) {
                    REQ(v[0].event == RegionEvent::local_only && v[0].managed && v[0].id == 0, "the first event: " << Show(v[0]));
                    continue;
                }
                REQ(i <= order.size(), "told more events than there were: " << Show(v[i]));
                const auto e = order[i - 1];
                REQ(v[i].id == e / 2 && v[i].event == (e % 2 ? RegionEvent::destroyed : RegionEvent::created), "event " << i << " is " << Show(v[i]) << " instead of " << (e % 2 ? "destroyed " : "created ") << e / 2);
                REQ_EQ(v[i].size, past[e / 2].size, "size in event " << Show(v[i]));
                Same(v[i], past[e / 2], "event");
            }
            return;
        }
        std::map<std::pair<bool, uint64_t>, int> state;
        for (auto& i : v) {
            auto key = std::make_pair(i.managed, i.id);
            auto it = model.find(key);
            REQ(it != model.end(), "told about what does not exist: " << Show(i));
            int& st = state[key];
            if (i.event == RegionEvent::created) {
                REQ_EQ(st, 0, "told again: " << Show(i));
                if (it->second.alive) { REQ_EQ(i.size, it->second.size, "size in event " << Show(i)); }
                st = 1;
            } else {
                REQ(i.event == RegionEvent::destroyed, "strange event " << Show(i));
                REQ(!it->second.alive, "told about the end of an existing region: " << Show(i));
                REQ_EQ(st, 1, "told about the end of a region it was not told about, or twice: " << Show(i));
                st = 2;
            }
            Same(i, it->second, "event");
        }
        for (auto& [key, m] : model) {
            if (m.seen & (1 << k)) { REQ(state[key] > 0, "it was told about region " << key.second << " before"); }
        }
    }
    void Quiesce()
    {
        c << "quiet ";
        ++quiet;
        for (size_t k = 0; k < devs.size(); ++k) {
            if (!devs[k]->f || !devs[k]->subscribed) { continue; }
            const auto t0 = pbt::NowMs();
            while (!Lacks(static_cast<int>(k)).empty() && pbt::NowMs() - t0 < 10000) { usleep(1000); }
            const auto m = Lacks(static_cast<int>(k));
            REQ(m.empty(), "device " << k << " was " << m);
            CheckLog(static_cast<int>(k));
            for (auto& [key, mm] : model) {
                if (mm.alive) { mm.seen |= 1 << k; }
            }
        }
    }
    void Message()
    {
        if (held.empty()) { return; }
        Held& h = held[s.draw(held.size())];
        const size_t n = h.size;
        auto* b = static_cast<char*>(h.p->GetData());
        // [off, off + size)
        int64_t off = 0;
        size_t size = 0;
        switch (s.draw(6)) {
            case 0: off = static_cast<int64_t>(s.draw(n + 1)); size = s.draw(n - static_cast<size_t>(off) + 1); break;
            case 1: off = static_cast<int64_t>(s.draw(n + 1)); size = n - static_cast<size_t>(off); break;
            case 2: off = static_cast<int64_t>(s.draw(n + 1)); size = n - static_cast<size_t>(off) + 1 + s.draw(3); break;
            case 3: off = -1 - static_cast<int64_t>(s.draw(100)); size = s.draw(200); break;
            case 4: off = static_cast<int64_t>(n + 1 + s.draw(100)); size = s.draw(200); break;
            case 5: off = static_cast<int64_t>(s.draw(n + 1)); size = SIZE_MAX - s.draw(n + 10); break;
        }
        const bool inside = off >= 0 && static_cast<size_t>(off) <= n && size <= n - static_cast<size_t>(off);
        c << "msg" << h.id << "[" << off << "," << size << ") ";
        bool made = false;
        try {
            auto m = devs[h.f]->f->CreateMessage(h.p, b + off, size, nullptr);
            made = true;
            if (inside) {
                REQ_EQ(m->GetSize(), size, "message size");
                if (size) { REQ(memcmp(m->GetData(), b + off, size) == 0, "message content"); }
                if (shm) { REQ(m->GetData() == b + off, "message address"); }
            }
        } catch (const TransportError&) {
        }
        REQ_EQ(made, inside, "a message over [" << off << ", " << off << " + " << size << ") of a region of " << n << " bytes could be made");
    }
    void Run()
    {
        const size_t n = 3 + s.size(40);
        for (size_t i = 0; i < n; ++i) {
            switch (s.weighted({26, 16, 14, 10, shm ? 3u : 8u, 12, shm ? 3u : 0u, shm ? 2u : 0u})) {
                case 0: Create(); break;
                case 1: if (!held.empty()) { Destroy(static_cast<int>(s.draw(held.size()))); } break;
                case 2: Query(Dev()); break;
                case 3: Subscribe(); break;
                case 4: Quiesce(); break;
                case 5: Message(); break;
                case 6: NewDevice(); break;
                case 7: EndDevice(); break;
            }
        }
        Quiesce();
        for (size_t k = 0; k < devs.size(); ++k) {
            if (devs[k]->f) { Query(static_cast<int>(k)); }
        }
        while (!held.empty()) { Destroy(static_cast<int>(s.draw(held.size()))); }
        Quiesce();
        c.nontrivial(created > 1 && queries > 0);
        c.label("destroyed", destroyed > 0);
        c.label("refused id", refusals > 0);
        c.label("events awaited", quiet > 0);
        c.count("regions", created);
    }
    ~World6()
    {
        held.clear();
        for (auto& d : devs) { d->f.reset(); }
        if (shm) { std::remove(SessionFile().c_str()); }
        system(("rm -rf '" + dir + "'").c_str());
    }
};
}   // namespace

CASE(regions_shm, 4) { World6(s, c, true).Run(); }
CASE(regions_zmq, 1) { World6(s, c, false).Run(); }

// several threads of one or two devices create and destroy regions and ask for information, while others are told
RACY_CASE(threads, 1, 25000)
{
    const bool shm = s.chance(70);
    const string session = NewSession();
    const int nd = shm ? 1 + static_cast<int>(s.draw(2)) : 1;
    ProgOptions cfg[2];
    std::shared_ptr<TransportFactory> f[2];
    for (int i = 0; i < nd; ++i) {
        cfg[i].SetProperty<string>("session", session);
        cfg[i].SetProperty<size_t>("shm-segment-size", 1 << 20);
        f[i] = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "d" + std::to_string(i), &cfg[i]);
    }
    const int nt = 1 + static_cast<int>(s.draw(3));
    const int per = 10 + static_cast<int>(s.draw(shm ? 30 : 200));
    const int nq = static_cast<int>(s.draw(3));
    const bool sub = s.chance(70);
    const bool views = nd == 2 && s.flip();   // messages over new regions of one device, looked at by the other
    const uint64_t seed = s.u64();
    c << (shm ? "shmem " : "zeromq ") << nd << " devices, " << nt << " threads, " << per << " regions each, " << nq << " asking" << (sub ? ", subscribed" : "") << (views ? ", looking" : "");
    c.nontrivial(views || nt + nq > 1 || sub);
    EventLog log[2];
    if (sub) {
        for (int i = 0; i < nd; ++i) { f[i]->SubscribeToRegionEvents([&, i](RegionInfo x) { log[i](x); }); }
    }
    std::mutex mtx;
    string err;
    std::map<uint64_t, std::pair<size_t, int64_t>> kept;   // alive at the end
    std::vector<uint64_t> ids;
    std::vector<UnmanagedRegionPtr> keep;
    std::atomic<int> running{nt};
    std::vector<std::thread> ts;
    auto guard = [&](auto&& fn) {
        try {
            fn();
        } catch (const std::exception& e) {
            std::lock_guard<std::mutex> l(mtx);
            if (err.empty()) { err = e.what(); }
        }
    };
    for (int t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            guard([&] {
                for (int i = 0; i < per; ++i) {
                    const uint64_t r = pbt::Mix(seed + t * 1000 + i);
                    const size_t size = 1 + r % 5000;
                    RegionConfig rc;
                    rc.linger = 0;
                    rc.rcSegmentSize = 0;
                    rc.userFlags = static_cast<int64_t>(r);
                    auto p = f[t % nd]->CreateUnmanagedRegion(size, RegionCallback(nullptr), rc);
                    std::lock_guard<std::mutex> l(mtx);
                    ids.push_back(p->GetId());
                    if (r % 10 == 0 && keep.size() < 6) {
                        kept[p->GetId()] = {size, rc.userFlags};
                        keep.push_back(std::move(p));
                    }
                }
            });
            --running;
        });
    }
    for (int t = 0; t < nq; ++t) {
        ts.emplace_back([&, t] {
            guard([&] {
                while (running > 0) {
                    auto v = f[t % nd]->GetRegionInfo();
                    std::set<std::pair<bool, uint64_t>> once;
                    for (auto& i : v) {
                        if (!once.insert({i.managed, i.id}).second) { throw std::runtime_error("listed twice: " + Show(i)); }
                        if (!i.managed && i.event == RegionEvent::created && (i.size != 1 + static_cast<uint64_t>(i.flags) % 5000)) { throw std::runtime_error("size and flags do not belong together: " + Show(i)); }
                    }
                }
            });
        });
    }
    if (views) {
        ts.emplace_back([&] {
            guard([&] {
                while (running > 0) {
                    RegionConfig rc;
                    rc.linger = 0;
                    rc.rcSegmentSize = 0;
                    rc.userFlags = 77;
                    auto p = f[0]->CreateUnmanagedRegion(78, RegionCallback(nullptr), rc);
                    memset(p->GetData(), 5, 78);
                    auto a = f[0]->CreateMessage(p, p->GetData(), 50, nullptr);
                    auto b = f[1]->CreateMessage();
                    b->Copy(*a);
                    auto* d = static_cast<const char*>(b->GetData());
                    if (!d || d[0] != 5 || d[49] != 5) { throw std::runtime_error("another device sees something else in a region"); }
                    b.reset();
                    a.reset();
                    std::lock_guard<std::mutex> l(mtx);
                    ids.push_back(p->GetId());
                }
            });
        });
    }
    for (auto& t : ts) { t.join(); }
    REQ(err.empty(), "a thread ended with: " << err);
    std::sort(ids.begin(), ids.end());
    for (size_t i = 1; i < ids.size(); ++i) { REQ(ids[i] != ids[i - 1], "two regions got id " << ids[i]); }
    for (int k = 0; k < nd; ++k) {
        std::map<uint64_t, std::pair<size_t, int64_t>> got;
        for (auto& i : f[k]->GetRegionInfo()) {
            if (!i.managed && i.event == RegionEvent::created) { got[i.id] = {i.size, i.flags}; }
        }
        REQ(got == kept, "device " << k << " lists " << got.size() << " regions, " << kept.size() << " exist");
        if (!sub) { continue; }
        auto told = [&] {
            std::lock_guard<std::mutex> l(log[k].mtx);
            std::map<uint64_t, int> st;
            std::map<uint64_t, std::pair<size_t, int64_t>> alive;
            for (auto& i : log[k].v) {
                if (i.managed) { continue; }
                int& x = st[i.id];
                if (i.event == RegionEvent::created) {
                    REQ_EQ(x, 0, "told again: " << Show(i));
                    x = 1;
                    alive[i.id] = {i.size, i.flags};
                } else {
                    REQ_EQ(x, 1, "told about the end first or twice: " << Show(i));
                    x = 2;
                    alive.erase(i.id);
                }
            }
            return alive;
        };
        const auto t0 = pbt::NowMs();
        while (told() != kept && pbt::NowMs() - t0 < 10000) { usleep(1000); }
        REQ(told() == kept, "device " << k << " was told of " << told().size() << " regions that exist, there are " << kept.size());
    }
    keep.clear();
    for (auto& x : f) { x.reset(); }
    std::remove(SessionFile().c_str());
}
