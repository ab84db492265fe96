// C05: every block of an unmanaged region is acknowledged exactly once, after its last use.
#include "msgworld.h"
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
struct Region;
struct Usage
{
    Region* r = nullptr;
    size_t off = 0, size = 0;
    int block = -1;
    std::atomic<int> refs{1};
    std::atomic<int> acks{0};
    int releasedBy = 0;     // device
    bool flushed = true;    // the release has reached the owner's queue for sure
};
struct Region
{
    UnmanagedRegionPtr p;
    char* base = nullptr;
    int n = 0;
    bool bulk = false;
    bool dead = false;
    size_t blockSize = 0;
    int slowUs = 0;
    std::mutex mtx;
    std::vector<int> freeBlocks;
};
struct Ledger
{
    std::mutex mtx;
    std::vector<std::unique_ptr<Usage>> all;   // hint - 1 is the index
    string error;
    size_t received = 0;

    void Fail(const string& e)
    {
        std::lock_guard<std::mutex> l(mtx);
        if (error.empty()) { error = e; }
    }
    Usage* Get(void* hint)
    {
        std::lock_guard<std::mutex> l(mtx);
        size_t i = reinterpret_cast<size_t>(hint);
        return i >= 1 && i <= all.size() ? all[i - 1].get() : nullptr;
    }
    void Ack(Region* r, void* ptr, size_t size, void* hint)
    {
        std::ostringstream o;
        Usage* u = Get(hint);
        if (!u) {
            o << "acknowledged with unknown hint " << hint;
            return Fail(o.str());
        }
        o << "usage " << reinterpret_cast<size_t>(hint) << " (block " << u->block << "): ";
        if (r->dead) { return Fail(o.str() + "acknowledged after its region was destroyed"); }
        if (u->r != r) { return Fail(o.str() + "acknowledged to another region"); }
        if (ptr != r->base + u->off || size != u->size) {
            o << "acknowledged at offset " << (static_cast<char*>(ptr) - r->base) << " with size " << size << " instead of " << u->off << ", " << u->size;
            return Fail(o.str());
        }
        if (u->refs > 0) {
            o << "acknowledged while " << u->refs << " messages refer to it";
            return Fail(o.str());
        }
        if (++u->acks > 1) {
            o << "acknowledged " << u->acks << " times";
            return Fail(o.str());
        }
        std::lock_guard<std::mutex> l(r->mtx);
        if (u->block >= 0) { r->freeBlocks.push_back(u->block); }
    }
};
struct Msg
{
    MessagePtr m;
    int f = 0;
    Usage* u = nullptr;
    bool sent = false;
};
struct Chan
{
    int from, to;
    SocketPtr tx, rx;
    std::vector<std::vector<Usage*>> q;   // nullptr: an empty message
    std::vector<bool> parts;
};

struct World5
{
    pbt::Src& s;
    pbt::Case& c;
    bool shm;
    string session;
    Ledger led;
    std::vector<std::unique_ptr<Region>> regions;
    ProgOptions cfg[3];
    std::shared_ptr<TransportFactory> f[3];
    int nf = 1;
    std::vector<Msg> ms;
    std::vector<Chan> chans;
    int ops = 0, copies = 0, moved = 0, crossed = 0;

    World5(pbt::Src& src, pbt::Case& cs, bool sh) : s(src), c(cs), shm(sh)
    {
        session = NewSession();
        nf = shm ? 1 + static_cast<int>(s.draw(3)) : 1 + static_cast<int>(s.draw(2));
        for (int i = 0; i < nf; ++i) {
            cfg[i].SetProperty<string>("session", session);
            cfg[i].SetProperty<size_t>("shm-segment-size", 1 << 20);
            if (i == 2 && s.flip()) { cfg[i].SetProperty<uint16_t>("shm-segment-id", 3); }
            f[i] = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "dev" + std::to_string(i), &cfg[i]);
        }
        c << (shm ? "shmem " : "zeromq ") << nf << " devices; ";
        const int nr = 1 + static_cast<int>(s.draw(2));
        for (int i = 0; i < nr; ++i) { NewRegion(); }
        AddChan(0, 0);
        if (nf > 1) { AddChan(0, 1); AddChan(1, 0); }
        if (nf > 2) { AddChan(1, 2); AddChan(2, 0); }
    }
    void AddChan(int from, int to)
    {
        Chan ch{from, to, nullptr, nullptr, {}, {}};
        const string a = from == to ? "inproc://i" : "ipc://@" + session + "_" + std::to_string(chans.size());
        ch.tx = f[from]->CreateSocket("push", "t");
        ch.rx = f[to]->CreateSocket("pull", "r");
        ch.tx->SetLinger(0);
        ch.rx->SetLinger(0);
        REQ(ch.tx->Bind(a) && ch.rx->Connect(a), "sockets");
        chans.push_back(std::move(ch));
    }
    void NewRegion()
    {
        auto r = std::make_unique<Region>();
        r->n = static_cast<int>(regions.size());
        r->bulk = s.flip();
        r->blockSize = s.pick({64u, 1u, 1000u, 4096u});
        if (s.chance(15)) { r->slowUs = 1 + static_cast<int>(s.draw(500)); }
        RegionConfig rc;
        rc.linger = static_cast<uint32_t>(s.pick({10, 0, 50, 100}));
        rc.rcSegmentSize = s.pick({400000u, 0u, 100000u});
        if (shm && s.chance(20)) { rc.id = static_cast<uint16_t>(10 + regions.size()); }
        rc.zero = s.chance(20);
        const int blocks = 24;
        string path;
        auto* rp = r.get();
        RegionCallback one = [this, rp](void* p, size_t n, void* h) {
            if (rp->slowUs) { usleep(rp->slowUs); }
            led.Ack(rp, p, n, h);
        };
        RegionBulkCallback many = [this, rp](const std::vector<RegionBlock>& v) {
            if (rp->slowUs) { usleep(rp->slowUs); }
            if (v.empty()) { led.Fail("empty bulk acknowledgement"); }
            for (auto& b : v) { led.Ack(rp, b.ptr, b.size, b.hint); }
        };
        c << "region" << r->n << (r->bulk ? " bulk" : "") << " linger " << rc.linger << " rc " << rc.rcSegmentSize << (r->slowUs ? " slow" : "") << "; ";
        if (r->bulk) { r->p = f[0]->CreateUnmanagedRegion(r->blockSize * blocks, many, rc); } else { r->p = f[0]->CreateUnmanagedRegion(r->blockSize * blocks, one, rc); }
        REQ(r->p->GetSize() >= r->blockSize * blocks, "region size");
        r->base = static_cast<char*>(r->p->GetData());
        for (int i = 0; i < blocks; ++i) { r->freeBlocks.push_back(i); }
        regions.push_back(std::move(r));
    }
    void Checked()
    {
        std::lock_guard<std::mutex> l(led.mtx);
        REQ(led.error.empty(), led.error);
    }
    Usage* NewUsage(Region* r, int block, size_t off, size_t size)
    {
        std::lock_guard<std::mutex> l(led.mtx);
        led.all.push_back(std::make_unique<Usage>());
        auto* u = led.all.back().get();
        u->r = r;
        u->off = off;
        u->size = size;
        u->block = block;
        if (!shm) { u->refs = 0; }   // zeromq copies the block
        return u;
    }
    void* HintOf(Usage* u)
    {
        std::lock_guard<std::mutex> l(led.mtx);
        for (size_t i = 0; i < led.all.size(); ++i) {
            if (led.all[i].get() == u) { return reinterpret_cast<void*>(i + 1); }
        }
        return nullptr;
    }
    int Tag(Usage* u) { return static_cast<int>(reinterpret_cast<size_t>(HintOf(u)) % 251); }
    // a message over a block shows the block
    void CheckContent(const Msg& m)
    {
        if (m.sent || !m.u || m.u->r->dead) { return; }
        REQ_EQ(m.m->GetSize(), m.u->size, "size of a message over block " << m.u->block);
        auto* p = static_cast<const unsigned char*>(m.m->GetData());
        REQ(p != nullptr || m.u->size == 0, "a message over block " << m.u->block << " has no data");
        for (size_t i = 0; i < m.u->size; ++i) { REQ(p[i] == Tag(m.u), "byte " << i << " of a message over block " << m.u->block << " of region " << m.u->r->n << " is different"); }
    }
    // the message is about to stop referring to its block
    void Unref(Usage* u, int factory)
    {
        if (!u || !shm) { return; }
        if (u->refs == 1) {
            u->releasedBy = factory;
            u->flushed = factory == 0;
        }
        --u->refs;
    }
    Region* Alive()
    {
        std::vector<Region*> v;
        for (auto& r : regions) {
            if (!r->dead) { v.push_back(r.get()); }
        }
        return v.empty() ? nullptr : v[s.draw(v.size())];
    }
    int TakeBlock(Region* r)
    {
        std::lock_guard<std::mutex> l(r->mtx);
        if (r->freeBlocks.empty()) { return -1; }
        int b = r->freeBlocks.back();
        r->freeBlocks.pop_back();
        return b;
    }
    void Create()
    {
        Region* r = Alive();
        if (!r || ms.size() >= 14) { return; }
        const int b = TakeBlock(r);
        if (b < 0) { return; }
        const size_t off0 = b * r->blockSize;
        const size_t lead = s.chance(20) ? s.draw(r->blockSize) : 0;
        size_t size = s.draw(r->blockSize - lead + 1);
        c << "new" << ms.size() << "(r" << r->n << " b" << b << "+" << lead << " " << size << ") ";
        Usage* u = NewUsage(r, b, off0 + lead, size);
        Msg m;
        m.u = u;
        memset(r->base + u->off, Tag(u), size);
        m.m = f[0]->CreateMessage(r->p, r->base + u->off, size, HintOf(u));
        if (!shm) { REQ_EQ(u->acks.load(), 1, "acknowledgements of a block by zeromq on message creation"); }
        ms.push_back(std::move(m));
    }
    // many short-lived messages: more than fit into one acknowledgement message
    void Burst()
    {
        Region* r = Alive();
        if (!r) { return; }
        const size_t n = s.pick({10u, 255u, 256u, 257u, 300u, 700u});
        c << "burst" << n << "(r" << r->n << ") ";
        for (size_t i = 0; i < n; ++i) {
            Usage* u = NewUsage(r, -1, i % r->blockSize, 1);
            void* h = nullptr;
            {
                std::lock_guard<std::mutex> l(led.mtx);
                h = reinterpret_cast<void*>(led.all.size());
            }
            auto m = f[0]->CreateMessage(r->p, r->base + u->off, 1, h);
            Unref(u, 0);
            m.reset();
        }
        c.label("burst");
    }
    int Pick(std::function<bool(const Msg&)> p)
    {
        std::vector<int> v;
        for (size_t i = 0; i < ms.size(); ++i) {
            if (p(ms[i])) { v.push_back(static_cast<int>(i)); }
        }
        return v.empty() ? -1 : v[s.draw(v.size())];
    }
    bool Usable(const Msg& m) { return !m.sent && (!m.u || !m.u->r->dead); }
    void Copy()
    {
        const int j = Pick([&](const Msg& m) { return Usable(m); });
        if (j < 0) { return; }
        int i = s.chance(40) ? Pick([](const Msg&) { return true; }) : -1;
        if (i == j) { return; }
        if (i < 0) {
            if (ms.size() >= 14) { return; }
            Msg m;
            std::vector<int> fs;
            for (int k = 0; k < nf; ++k) {
                if (f[k]) { fs.push_back(k); }
            }
            m.f = fs[s.draw(fs.size())];
            m.m = f[m.f]->CreateMessage();
            ms.push_back(std::move(m));
            i = static_cast<int>(ms.size()) - 1;
        }
        c << "copy" << j << "->" << i << " ";
        ++copies;
        Drop(ms[i], false);
        if (shm && ms[j].u) { ++ms[j].u->refs; }
        try {
            ms[i].m->Copy(*ms[j].m);
            ms[i].u = ms[j].u;
            ms[i].sent = false;
        } catch (const RefCountBadAlloc&) {
            if (shm && ms[j].u) { --ms[j].u->refs; }
        }
    }
    // account for what the message held; the caller overwrites or destroys it
    void Drop(Msg& m, bool destroy)
    {
        Unref(m.sent ? nullptr : m.u, m.f);
        m.u = nullptr;
        m.sent = false;
        if (destroy) { m.m.reset(); }
    }
    void Send()
    {
        std::vector<int> cs;
        for (size_t i = 0; i < chans.size(); ++i) {
            if (chans[i].tx && chans[i].q.size() < 6) { cs.push_back(static_cast<int>(i)); }
        }
        if (cs.empty()) { return; }
        Chan& ch = chans[cs[s.draw(cs.size())]];
        const bool parts = s.chance(35);
        std::vector<int> which;
        if (parts) {
            for (size_t i = 0; i < ms.size() && which.size() < 3; ++i) {
                if (Usable(ms[i]) && ms[i].f == ch.from && s.chance(60)) { which.push_back(static_cast<int>(i)); }
            }
        } else {
            int i = Pick([&](const Msg& m) { return Usable(m) && m.f == ch.from; });
            if (i >= 0) { which.push_back(i); }
        }
        if (which.empty()) { return; }
        c << (parts ? "parts" : "send");
        std::vector<Usage*> us;
        for (int i : which) {
            c << " " << i;
            us.push_back(ms[i].u);
            ms[i].u = nullptr;
            ms[i].sent = true;
        }
        c << ":" << ch.from << ch.to << " ";
        int64_t rc = 0;
        if (parts) {
            Parts::container v;
            for (int i : which) { v.push_back(std::move(ms[i].m)); }
            rc = ch.tx->Send(v, 5000);
            for (size_t k = 0; k < which.size(); ++k) { ms[which[k]].m = std::move(v[k]); }
        } else {
            rc = ch.tx->Send(ms[which[0]].m, 5000);
        }
        REQ(rc >= 0, "sending failed: " << rc);
        ++moved;
        if (ch.from != ch.to) { ++crossed; }
        ch.q.push_back(us);
        ch.parts.push_back(parts);
    }
    void Receive(int which = -1)
    {
        std::vector<int> cs;
        for (size_t i = 0; i < chans.size(); ++i) {
            if (chans[i].rx && !chans[i].q.empty()) { cs.push_back(static_cast<int>(i)); }
        }
        if (cs.empty()) { return; }
        Chan& ch = chans[which >= 0 ? which : cs[s.draw(cs.size())]];
        auto us = ch.q.front();
        const bool parts = ch.parts.front();
        ch.q.erase(ch.q.begin());
        ch.parts.erase(ch.parts.begin());
        c << "recv:" << ch.from << ch.to << " ";
        if (parts) {
            Parts::container v;
            auto rc = ch.rx->Receive(v, 5000);
            REQ(rc >= 0 && v.size() == us.size(), "receiving parts: " << rc << ", " << v.size() << " parts");
            for (size_t k = 0; k < v.size(); ++k) {
                Msg m;
                m.m = std::move(v[k]);
                m.f = ch.to;
                m.u = us[k];
                ms.push_back(std::move(m));
            }
        } else {
            int i = s.chance(50) ? Pick([&](const Msg& m) { return m.f == ch.to; }) : -1;
            if (i < 0) {
                Msg m;
                m.f = ch.to;
                m.m = f[ch.to]->CreateMessage();
                ms.push_back(std::move(m));
                i = static_cast<int>(ms.size()) - 1;
            }
            Drop(ms[i], false);
            auto rc = ch.rx->Receive(ms[i].m, 5000);
            REQ(rc >= 0, "receiving: " << rc);
            ms[i].u = us[0];
            ms[i].sent = false;
        }
        // look at the data: the receiver attaches to the region
        if (s.flip() && !ms.empty() && Usable(ms.back())) { ms.back().m->GetData(); }
    }
    void Rebuild()
    {
        int i = Pick([](const Msg&) { return true; });
        if (i < 0) { return; }
        c << "rebuild" << i << " ";
        Drop(ms[i], false);
        if (s.flip()) { ms[i].m->Rebuild(); } else { ms[i].m->Rebuild(s.draw(100)); }
    }
    void Kill(int i)
    {
        Msg m = std::move(ms[i]);
        ms.erase(ms.begin() + i);
        Drop(m, true);
    }
    void Destroy()
    {
        int i = Pick([](const Msg&) { return true; });
        if (i < 0) { return; }
        c << "del" << i << " ";
        Kill(i);
    }
    void KillFactory(int k)
    {
        c << "end-device" << k << " ";
        for (size_t i = ms.size(); i-- > 0;) {
            if (ms[i].f == k) { Kill(static_cast<int>(i)); }
        }
        for (auto& ch : chans) {
            if (ch.from == k || ch.to == k) {
                // what is in flight is lost
                ch.q.clear();
                ch.parts.clear();
                ch.tx.reset();
                ch.rx.reset();
            }
        }
        f[k].reset();
        for (auto& u : led.all) {
            if (u->refs == 0 && u->releasedBy == k) { u->flushed = true; }
        }
    }
    void KillRegion(Region* r)
    {
        c << "end-region" << r->n << " ";
        r->p.reset();
        r->dead = true;
        Checked();
        Settled(r, false);
    }
    // all blocks that are due have been acknowledged
    string Missing(Region* r, bool waited)
    {
        std::ostringstream o;
        for (size_t i = 0; i < led.all.size(); ++i) {
            auto& u = *led.all[i];
            if (u.r == r && u.refs == 0 && u.acks == 0 && (u.flushed || waited)) {
                o << "usage " << i + 1 << " (block " << u.block << " of region " << r->n << ") was never acknowledged";
                return o.str();
            }
        }
        return "";
    }
    void Settled(Region* r, bool waited)
    {
        string m = Missing(r, waited);
        REQ(m.empty(), m);
    }
    void Wait()
    {
        c << "wait ";
        for (auto& r : regions) {
            if (r->dead) { continue; }
            const auto t0 = pbt::NowMs();
            while (!Missing(r.get(), true).empty() && pbt::NowMs() - t0 < 8000) { usleep(2000); }
            Checked();
            Settled(r.get(), true);
        }
        c.label("waited");
    }
    void Run()
    {
        const size_t n = 3 + s.size(40);
        for (size_t i = 0; i < n; ++i) {
            ++ops;
            switch (s.weighted({30, 14, 16, 16, 6, 16, 2, 1, 1, 1, 1})) {
                case 0: Create(); break;
                case 1: Copy(); break;
                case 2: Send(); break;
                case 3: Receive(); break;
                case 4: Rebuild(); break;
                case 5: Destroy(); break;
                case 6: Burst(); break;
                case 7: if (s.chance(50)) { Wait(); } break;
                case 8: {
                    const int k = nf - 1;
                    if (k > 0 && f[k]) { KillFactory(k); }
                    break;
                }
                case 9: {
                    Region* r = Alive();
                    if (r && s.chance(60)) { KillRegion(r); }
                    break;
                }
                case 10: if (regions.size() < 3) { NewRegion(); } break;
            }
            Checked();
            if (!ms.empty() && s.flip()) { CheckContent(ms[s.draw(ms.size())]); }
        }
        c.nontrivial(ops > 4 && moved + copies > 0);
        c.label("copied", copies > 0);
        c.label("crossed devices", crossed > 0);
        c.count("operations", ops);
        c.count("blocks", led.all.size());
        c << "| ";
        if (s.flip()) {
            for (size_t i = 0; i < chans.size(); ++i) {
                while (chans[i].rx && !chans[i].q.empty()) { Receive(static_cast<int>(i)); }
            }
        }
        if (s.chance(15)) { Wait(); }
        // end of the regions, before or after the messages
        const bool regionsFirst = s.chance(25);
        if (!regionsFirst) {
            while (!ms.empty()) { Kill(static_cast<int>(s.draw(ms.size()))); }
            for (int k = nf - 1; k > 0; --k) {
                if (f[k] && s.chance(70)) { KillFactory(k); }
            }
        }
        for (auto& r : regions) {
            if (!r->dead) { KillRegion(r.get()); }
        }
        c.label("regions end first", regionsFirst && !ms.empty());
        while (!ms.empty()) { Kill(static_cast<int>(s.draw(ms.size()))); }
        Checked();
        End();
        Checked();
        for (auto& u : led.all) { REQ(u->acks <= 1, "acknowledged " << u->acks << " times"); }
    }
    void End()
    {
        ms.clear();
        chans.clear();
        for (auto& r : regions) { r->p.reset(); }
        for (auto& x : f) { x.reset(); }
    }
    ~World5()
    {
        End();
        if (shm) { std::remove(SessionFile().c_str()); }
    }
};
}   // namespace

CASE(acks_shm, 8) { World5(s, c, true).Run(); }
CASE(acks_zmq, 1) { World5(s, c, false).Run(); }

// several threads make, copy and release messages over the same region, while others come and go
RACY_CASE(threads_shm, 1, 30000)
{
    World5 w(s, c, true);
    struct Plan { std::vector<int> copies; std::vector<uint64_t> order; };
    const int nt = 2 + static_cast<int>(s.draw(3));
    const int per = 20 + static_cast<int>(s.draw(300));
    const bool churn = s.flip();
    const int other = w.nf - 1;
    std::vector<Plan> plans(nt);
    for (auto& p : plans) {
        const uint64_t seed = s.u64();
        for (int i = 0; i < per; ++i) {
            p.copies.push_back(static_cast<int>(pbt::Mix(seed + i) % 4));
            p.order.push_back(pbt::Mix(seed + 1000000 + i));
        }
    }
    c << nt << " threads, " << per << " messages each" << (churn ? ", regions come and go" : "");
    c.nontrivial();
    Region* r = w.regions[0].get();
    std::vector<std::vector<Usage*>> us(nt);
    std::vector<std::vector<void*>> hints(nt);
    for (int t = 0; t < nt; ++t) {
        for (int i = 0; i < per; ++i) {
            us[t].push_back(w.NewUsage(r, -1, (t * per + i) % r->blockSize, 1));
            us[t].back()->refs = 1 + plans[t].copies[i];
            hints[t].push_back(reinterpret_cast<void*>(w.led.all.size()));
        }
    }
    std::atomic<bool> go{false}, stop{false};
    std::mutex errMtx;
    string err;
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            while (!go) { std::this_thread::yield(); }
            try {
                for (int i = 0; i < per; ++i) {
                    Usage* u = us[t][i];
                    std::vector<MessagePtr> v;
                    v.push_back(w.f[0]->CreateMessage(r->p, r->base + u->off, 1, hints[t][i]));
                    for (int k = 0; k < plans[t].copies[i]; ++k) {
                        v.push_back(w.f[(plans[t].order[i] >> k) & 1 ? other : 0]->CreateMessage());
                        try {
                            v.back()->Copy(*v[(plans[t].order[i] >> (8 + k)) % (v.size() - 1)]);
                        } catch (const RefCountBadAlloc&) {
                            --u->refs;
                            v.pop_back();
                        }
                    }
                    while (!v.empty()) {
                        const size_t k = plans[t].order[i] % v.size();
                        --u->refs;
                        v.erase(v.begin() + static_cast<long>(k));
                    }
                }
            } catch (const std::exception& e) {
                std::lock_guard<std::mutex> l(errMtx);
                err = e.what();
            }
        });
    }
    std::thread churner;
    if (churn) {
        churner = std::thread([&] {
            while (!stop) {
                auto x = w.f[0]->CreateUnmanagedRegion(100, RegionCallback(nullptr));
                x.reset();
            }
        });
    }
    go = true;
    for (auto& t : ts) { t.join(); }
    stop = true;
    if (churner.joinable()) { churner.join(); }
    REQ(err.empty(), "a thread ended with: " << err);
    if (other > 0) { w.KillFactory(other); }
    for (auto& v : us) {
        for (auto* u : v) { u->flushed = true; }
    }
    for (auto& x : w.regions) { w.KillRegion(x.get()); }
    w.Checked();
}

// acknowledgement callbacks may use the transport, also while their region is being destroyed
RACY_CASE(callbacks, 1, 12000)
{
    const bool shm = s.chance(80);
    const string session = NewSession();
    ProgOptions cfg;
    cfg.SetProperty<string>("session", session);
    cfg.SetProperty<size_t>("shm-segment-size", 1 << 20);
    auto f = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "dev", &cfg);
    const int nr = 2 + static_cast<int>(s.draw(2));
    struct Item { int region; std::vector<int> then; int extra; std::atomic<int> acks{0}; MessagePtr held; };
    std::vector<std::unique_ptr<Item>> items;
    std::mutex errMtx;
    string err;
    auto fail = [&](const string& e) {
        std::lock_guard<std::mutex> l(errMtx);
        if (err.empty()) { err = e; }
    };
    std::vector<UnmanagedRegionPtr> rs(nr);
    auto act = [&](int region, void* h) {
        const size_t i = reinterpret_cast<size_t>(h) - 1;
        if (i >= items.size() || items[i]->region != region) { return fail("acknowledged with a wrong hint"); }
        Item& it = *items[i];
        ++it.acks;
        try {
            if (it.extra == 1) { auto m = f->CreateMessage(10); auto k = f->CreateMessage(); k->Copy(*m); }
            if (it.extra == 2) { f->GetRegionInfo(); }
            if (it.extra == 3) { f->CreateUnmanagedRegion(100, RegionCallback(nullptr)).reset(); }
            for (int t : it.then) {
                if (it.extra == 4) { auto k = f->CreateMessage(); k->Copy(*items[t]->held); }
                items[t]->held.reset();
            }
        } catch (const std::exception& e) {
            fail(string("a callback failed with: ") + e.what());
        }
    };
    for (int i = 0; i < nr; ++i) {
        RegionConfig rc;
        rc.linger = static_cast<uint32_t>(s.pick({0, 1, 10, 50}));
        if (s.flip()) {
            rs[i] = f->CreateUnmanagedRegion(10000, [&act, i](void*, size_t, void* h) { act(i, h); }, rc);
        } else {
            rs[i] = f->CreateUnmanagedRegion(10000, [&act, i](const std::vector<RegionBlock>& v) { for (auto& b : v) { act(i, b.hint); } }, rc);
        }
    }
    c << (shm ? "shmem " : "zeromq ") << nr << " regions: ";
    // the callback for an item of region i releases items of region i + 1
    std::vector<std::vector<int>> of(nr);
    const int n = 1 + static_cast<int>(s.draw(12));
    for (int k = 0; k < n; ++k) {
        auto it = std::make_unique<Item>();
        it->region = k == 0 ? 0 : static_cast<int>(s.draw(nr));
        it->extra = static_cast<int>(s.draw(5));
        of[it->region].push_back(k);
        items.push_back(std::move(it));
    }
    for (int k = 0; k < n; ++k) {
        const int r = items[k]->region;
        string by = "main";
        if (r > 0 && !of[r - 1].empty() && s.chance(70)) {
            const int p = of[r - 1][s.draw(of[r - 1].size())];
            items[p]->then.push_back(k);
            by = std::to_string(p);
            c.nontrivial();
        }
        c << "item" << k << " in r" << r << " does " << items[k]->extra << ", released by " << by << "; ";
        if (by == "main") { items[k]->then.push_back(-1); }
    }
    std::vector<bool> byMain(n, false);
    for (int k = 0; k < n; ++k) {
        auto& t = items[k]->then;
        auto it = std::find(t.begin(), t.end(), -1);
        if (it != t.end()) { byMain[k] = true; t.erase(it); }
    }
    if (!shm) {
        // zeromq acknowledges at creation: the items to be released have to be there first
        for (int k = n; k-- > 0;) { items[k]->held = f->CreateMessage(); }
    }
    for (int r = nr; r-- > 0;) {
        for (int k : of[r]) {
            items[k]->held = f->CreateMessage(rs[r], static_cast<char*>(rs[r]->GetData()) + k * 10, 10, reinterpret_cast<void*>(static_cast<size_t>(k + 1)));
        }
    }
    for (int k = 0; k < n; ++k) {
        if (byMain[k]) { items[k]->held.reset(); }
    }
    if (s.flip()) { usleep(static_cast<useconds_t>(s.draw(3000))); }
    for (int r = 0; r < nr; ++r) { rs[r].reset(); }
    REQ(err.empty(), err);
    for (int k = 0; k < n; ++k) { REQ_EQ(items[k]->acks.load(), 1, "acknowledgements of item " << k); }
    f.reset();
    if (shm) { std::remove(SessionFile().c_str()); }
}
