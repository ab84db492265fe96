// C01: messages arrive exactly once, unmodified, in order, with their boundaries.
#include "msgworld.h"
#include <fairmq/Channel.h>
#include <sys/mman.h>
#include <thread>
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
using Bytes = std::vector<unsigned char>;

Bytes Content(uint64_t seed, size_t n)
{
    Bytes b(n);
    uint64_t x = 0;
    for (size_t i = 0; i < n; ++i) {
        if (i % 8 == 0) { x = pbt::Mix(seed + i); }
        b[i] = static_cast<unsigned char>(x >> (8 * (i % 8)));
    }
    return b;
}

struct PartSpec
{
    uint64_t seed = 0;
    size_t size = 0;
    int kind = 0;
};
struct Spec
{
    bool parts = false;
    std::vector<PartSpec> p;
    size_t Bytes() const
    {
        size_t n = 0;
        for (auto& x : p) { n += x.size; }
        return n;
    }
    string Str() const
    {
        string s = parts ? "[" : "";
        for (auto& x : p) { s += std::to_string(x.size) + "/" + std::to_string(x.kind) + " "; }
        return s + (parts ? "]" : "");
    }
};
// what a receiver got
struct Got
{
    std::vector<Bytes> p;
    int64_t rc = 0;
};
bool Same(const Spec& a, const Got& b)
{
    if (a.p.size() != b.p.size()) { return false; }
    for (size_t i = 0; i < a.p.size(); ++i) {
        if (a.p[i].size != b.p[i].size() || Content(a.p[i].seed, a.p[i].size) != b.p[i]) { return false; }
    }
    return true;
}
string Str(const Got& g)
{
    string s = "(";
    for (auto& x : g.p) { s += std::to_string(x.size()) + " "; }
    return s + ")";
}

// messages go from the senders to the receivers: each to one of them, or to all (fan)
struct Group
{
    std::vector<int> tx, rx;
    bool fan = false;
    std::vector<std::vector<Spec>> log;               // per sender
    std::vector<std::vector<int>> taken;              // per sender and message: how many have received it
    std::vector<std::vector<size_t>> next;            // per sender and receiver
    size_t Outstanding() const
    {
        size_t n = 0;
        for (size_t i = 0; i < log.size(); ++i) {
            for (size_t k = 0; k < log[i].size(); ++k) { n += (fan ? rx.size() : 1) - taken[i][k]; }
        }
        return n;
    }
    void Init(bool f, std::vector<int> t, std::vector<int> r)
    {
        fan = f;
        tx = std::move(t);
        rx = std::move(r);
        log.resize(tx.size());
        taken.resize(tx.size());
        next.assign(tx.size(), std::vector<size_t>(rx.size(), 0));
    }
    void Sent(size_t i, const Spec& s)
    {
        log[i].push_back(s);
        taken[i].push_back(0);
    }
    // the sender the message is from
    int Match(size_t r, const Got& g)
    {
        const bool strict = fan || rx.size() == 1;
        for (size_t i = 0; i < tx.size(); ++i) {
            for (size_t k = next[i][r]; k < log[i].size(); ++k) {
                if (!fan && taken[i][k]) {
                    if (strict) { break; }
                    continue;
                }
                if (Same(log[i][k], g)) {
                    ++taken[i][k];
                    next[i][r] = k + 1;
                    return static_cast<int>(i);
                }
                if (strict) { break; }
            }
        }
        string why = "not a message that is due";
        for (size_t i = 0; i < tx.size(); ++i) {
            for (size_t k = 0; k < log[i].size(); ++k) {
                if (Same(log[i][k], g)) { why = "message " + std::to_string(k) + " of sender " + std::to_string(i) + (k < next[i][r] ? ", which is late or a duplicate" : ", before an earlier one or again"); }
            }
        }
        string due;
        for (size_t i = 0; i < tx.size(); ++i) {
            if (next[i][r] < log[i].size()) { due += " " + log[i][next[i][r]].Str(); }
        }
        REQ(false, "received by " << r << ": " << Str(g) << ": " << why << "; due:" << due);
        return -1;
    }
};

struct End
{
    std::unique_ptr<Channel> c;
    int f = 0;
    std::atomic<uint64_t> tx{0}, rx{0}, ntx{0}, nrx{0};
    uint64_t tx0 = 0, rx0 = 0, ntx0 = 0, nrx0 = 0;
};

struct World1
{
    pbt::Src& s;
    pbt::Case& c;
    bool shm;
    string session;
    ProgOptions cfg[2];
    std::shared_ptr<TransportFactory> f[2];
    int nf = 1;
    UnmanagedRegionPtr region[2];
    std::atomic<size_t> regionUsed[2];
    std::vector<std::unique_ptr<End>> ends;
    std::vector<Group> groups;
    int hwm = 1000;
    string pattern, addr;
    bool small = false;       // one sender and one receiver: messages need no identity
    bool partsOnly = false, singleOnly = false;
    uint64_t nextSeed = 0;

    World1(pbt::Src& src, pbt::Case& cs, bool sh, const std::vector<string>& patterns) : s(src), c(cs), shm(sh)
    {
        session = NewSession();
        pattern = patterns[s.draw(patterns.size())];
        addr = s.pick<string>({"inproc", "ipc", "tcp"});
        nf = addr == "inproc" ? 1 : 1 + static_cast<int>(s.draw(2));
        const size_t metaSize = s.chance(20) ? s.draw(1000) : 0;
        const bool rbtree = s.flip();
        for (int i = 0; i < nf; ++i) {
            cfg[i].SetProperty<string>("session", session);
            cfg[i].SetProperty<size_t>("shm-segment-size", 24 << 20);
            cfg[i].SetProperty<string>("shm-allocation", rbtree ? "rbtree_best_fit" : "simple_seq_fit");
            if (metaSize) { cfg[i].SetProperty<size_t>("shm-metadata-msg-size", metaSize); }
            f[i] = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "dev" + std::to_string(i), &cfg[i]);
            region[i] = f[i]->CreateUnmanagedRegion(1 << 20, RegionCallback(nullptr));
            regionUsed[i] = 0;
        }
        hwm = s.pick({1000, 1000, 2, 5, 10, 50});
        nextSeed = s.u64();
    }
    ~World1()
    {
        for (auto& e : ends) {
            if (e) { e->c.reset(); }
        }
        for (auto& r : region) { r.reset(); }
        for (auto& x : f) { x.reset(); }
        if (shm) { std::remove(SessionFile().c_str()); }
    }
    int NewEnd(const string& type)
    {
        auto e = std::make_unique<End>();
        e->f = nf > 1 ? static_cast<int>(s.draw(2)) : 0;
        const string name = pattern != "req" && s.chance(20) ? "same" : type + std::to_string(ends.size());
        e->c = std::make_unique<Channel>(name, type, f[e->f]);
        e->c->GetSocket().SetLinger(0);
        e->c->GetSocket().SetSndBufSize(hwm);
        e->c->GetSocket().SetRcvBufSize(hwm);
        ends.push_back(std::move(e));
        return static_cast<int>(ends.size()) - 1;
    }
    void Link(const std::vector<int>& binders, const std::vector<int>& connectors)
    {
        for (int b : binders) {
            string a;
            if (addr == "inproc") {
                a = "inproc://a" + std::to_string(b);
            } else if (addr == "ipc") {
                a = "ipc://@" + session + "_" + std::to_string(b);
                const string file = pbt::Scratch() + "/s" + std::to_string(pbt::WorkerId()) + "_" + std::to_string(b);
                if (s.chance(20) && file.size() < 100) { a = "ipc://" + file; }
            } else {
                a = "tcp://127.0.0.1:" + std::to_string(20000 + pbt::Mix(nextSeed + static_cast<uint64_t>(getpid())) % 10000);
            }
            REQ(ends[b]->c->BindEndpoint(a), "bind to " << a);
            for (int k : connectors) { REQ(ends[k]->c->ConnectEndpoint(a), "connect to " << a); }
        }
    }
    void Build()
    {
        std::vector<int> l, r;
        string lt, rt;
        int nl = 1, nr = 1;
        if (pattern == "pair") {
            lt = rt = "pair";
        } else if (pattern == "push") {
            lt = "push";
            rt = "pull";
            nl = 1 + static_cast<int>(s.draw(3));
            nr = 1 + static_cast<int>(s.draw(3));
        } else if (pattern == "pub") {
            lt = "pub";
            rt = "sub";
            nl = 1 + static_cast<int>(s.draw(2));
            nr = 1 + static_cast<int>(s.draw(3));
            hwm = 1000;
        } else {
            lt = "req";
            rt = "rep";
            hwm = 1000;   // libzmq drops replies at the limit
            nl = 1 + static_cast<int>(s.draw(3));
        }
        for (int i = 0; i < nl; ++i) { l.push_back(NewEnd(lt)); }
        for (int i = 0; i < nr; ++i) { r.push_back(NewEnd(rt)); }
        c << (shm ? "shmem " : "zeromq ") << pattern << " " << nl << "x" << nr << " " << addr << " " << nf << " factories hwm " << hwm << ": ";
        c.label(pattern + " " + addr);
        if (s.flip()) { Link(l, r); } else { Link(r, l); }
        small = nl == 1 && nr == 1;
        Group g;
        g.Init(pattern == "pub", l, r);
        groups.push_back(g);
        if (pattern == "pair") {
            Group h;
            h.Init(false, r, l);
            groups.push_back(h);
        }
        if (pattern == "req") {
            for (int q : l) {
                Group h;
                h.Init(false, r, {q});
                groups.push_back(h);
            }
        }
        if (shm && !small) {
            // the receiver has to know what comes
            (s.flip() ? partsOnly : singleOnly) = true;
        }
        if (pattern == "pub") { Subscribe(); }
        for (auto& e : ends) {
            e->tx0 = e->c->GetBytesTx();
            e->rx0 = e->c->GetBytesRx();
            e->ntx0 = e->c->GetMessagesTx();
            e->nrx0 = e->c->GetMessagesRx();
        }
    }
    // wait until every publisher reaches every subscriber
    void Subscribe()
    {
        Group& g = groups[0];
        std::vector<std::vector<bool>> seen(g.tx.size(), std::vector<bool>(g.rx.size(), false));
        std::vector<std::vector<bool>> ended = seen;
        const int64_t end = pbt::NowMs() + 20000;
        auto drain = [&] {
            for (size_t r = 0; r < g.rx.size(); ++r) {
                auto m = f[ends[g.rx[r]]->f]->CreateMessage();
                while (ends[g.rx[r]]->c->Receive(m, 0) >= 0) {
                    REQ_EQ(m->GetSize(), 2u, "size of a first message");
                    const auto* d = static_cast<const unsigned char*>(m->GetData());
                    seen[d[0]][r] = true;
                    if (d[1]) { ended[d[0]][r] = true; }
                }
            }
        };
        auto all = [](const std::vector<std::vector<bool>>& v) {
            for (auto& x : v) {
                for (bool b : x) {
                    if (!b) { return false; }
                }
            }
            return true;
        };
        auto send = [&](unsigned char last) {
            for (size_t i = 0; i < g.tx.size(); ++i) {
                auto m = f[ends[g.tx[i]]->f]->CreateMessage(2);
                static_cast<unsigned char*>(m->GetData())[0] = static_cast<unsigned char>(i);
                static_cast<unsigned char*>(m->GetData())[1] = last;
                ends[g.tx[i]]->c->Send(m);
            }
        };
        while (!all(seen)) {
            REQ(pbt::NowMs() < end, "a subscriber gets nothing");
            send(0);
            usleep(2000);
            drain();
        }
        send(1);
        while (!all(ended)) {
            REQ(pbt::NowMs() < end, "a subscriber does not get the last message");
            drain();
            usleep(200);
        }
    }
    Spec NewSpec(size_t maxBytes)
    {
        Spec m;
        m.parts = partsOnly || (!singleOnly && s.chance(45));
        const size_t n = m.parts ? s.pick({2u, 1u, 3u, 5u, 1u, 20u}) : 1;
        for (size_t i = 0; i < n; ++i) {
            PartSpec p;
            p.seed = ++nextSeed;
            const auto k = s.draw(10);
            p.size = k < 4 ? s.draw(40) : k < 7 ? s.draw(300) : k < 9 ? s.draw(5000) : s.draw(200000);
            p.size = std::min(p.size, maxBytes);
            if (i == 0 && !small) { p.size = std::max<size_t>(p.size, 8); }
            p.kind = static_cast<int>(s.draw(6));
            m.p.push_back(p);
        }
        return m;
    }
    static void FreeIt(void*, void* hint) { delete static_cast<Bytes*>(hint); }
    MessagePtr Make(const PartSpec& p, int fi)
    {
        auto& t = f[fi];
        Bytes b = Content(p.seed, p.size);
        int kind = p.kind;
        size_t off = 0;
        if (kind == 3) {
            off = regionUsed[fi].fetch_add(p.size);
            if (off + p.size > (1 << 20)) { kind = 0; }
        }
        MessagePtr m;
        auto fill = [&](void* d) {
            if (p.size) { memcpy(d, b.data(), p.size); }
        };
        switch (kind) {
            case 1: {
                auto* h = new Bytes(b);
                h->reserve(1);
                m = t->CreateMessage(h->data(), p.size, FreeIt, h);
                break;
            }
            case 2: {
                auto k = t->CreateMessage(p.size);
                fill(k->GetData());
                m = t->CreateMessage();
                m->Copy(*k);
                break;
            }
            case 3:
                fill(static_cast<char*>(region[fi]->GetData()) + off);
                m = t->CreateMessage(region[fi], static_cast<char*>(region[fi]->GetData()) + off, p.size);
                break;
            case 4:
                m = t->CreateMessage(7);
                m->Rebuild(p.size);
                fill(m->GetData());
                break;
            case 5:
                m = t->CreateMessage(p.size + 1 + p.seed % 50);
                fill(m->GetData());
                REQ(m->SetUsedSize(p.size), "resize");
                break;
            default:
                m = t->CreateMessage(p.size);
                fill(m->GetData());
        }
        return m;
    }
    static Bytes Take(Message& m)
    {
        const auto* d = static_cast<const unsigned char*>(m.GetData());
        return Bytes(d, d + m.GetSize());
    }
    // the result of the send; the message is kept if it failed
    struct Pending
    {
        Spec spec;
        MessagePtr m;
        Parts ps;
    };
    void Prepare(Pending& p, int e)
    {
        if (p.spec.parts) {
            for (auto& x : p.spec.p) { p.ps.AddPart(Make(x, ends[e]->f)); }
        } else {
            p.m = Make(p.spec.p[0], ends[e]->f);
        }
    }
    int64_t Send(Pending& p, int e, int timeout)
    {
        const int64_t rc = p.spec.parts ? ends[e]->c->Send(p.ps, timeout) : ends[e]->c->Send(p.m, timeout);
        if (rc >= 0) {
            ends[e]->tx += p.spec.Bytes();
            ++ends[e]->ntx;
        }
        return rc;
    }
    bool Receive(int e, Got& g, int timeout, bool asParts, bool used)
    {
        g.p.clear();
        if (asParts) {
            Parts ps;
            const size_t before = used ? 2 : 0;
            for (size_t i = 0; i < before; ++i) { ps.AddPart(f[ends[e]->f]->CreateMessage(3 + i)); }
            g.rc = ends[e]->c->Receive(ps, timeout);
            if (g.rc < 0) {
                REQ_EQ(ps.Size(), before, "parts after a failed reception");
                return false;
            }
            REQ(ps.Size() >= before, "received parts replaced the ones that were there");
            for (size_t i = before; i < ps.Size(); ++i) { g.p.push_back(Take(ps[i])); }
        } else {
            auto m = used ? f[ends[e]->f]->CreateMessage(13) : f[ends[e]->f]->CreateMessage();
            g.rc = ends[e]->c->Receive(m, timeout);
            if (g.rc < 0) { return false; }
            g.p.push_back(Take(*m));
        }
        size_t n = 0;
        for (auto& b : g.p) { n += b.size(); }
        REQ_EQ(g.rc, static_cast<int64_t>(n), "result of a reception");
        ends[e]->rx += n;
        ++ends[e]->nrx;
        return true;
    }
    void Counters()
    {
        for (size_t i = 0; i < ends.size(); ++i) {
            auto& e = *ends[i];
            REQ_EQ(e.c->GetBytesTx() - e.tx0, e.tx.load(), "bytes sent by end " << i);
            REQ_EQ(e.c->GetBytesRx() - e.rx0, e.rx.load(), "bytes received by end " << i);
            REQ_EQ(e.c->GetMessagesTx() - e.ntx0, e.ntx.load(), "messages sent by end " << i);
            REQ_EQ(e.c->GetMessagesRx() - e.nrx0, e.nrx.load(), "messages received by end " << i);
        }
    }
    // what the next message for receiver r has to be received as
    bool NextAsParts(Group& g)
    {
        if (shm) {
            if (partsOnly) { return true; }
            if (singleOnly) { return false; }
            return g.log[0][g.next[0][0]].parts;
        }
        if (small) {
            const Spec& m = g.log[0][g.next[0][0]];
            return m.p.size() > 1 || s.flip();
        }
        return true;
    }
    bool TryReceive(Group& g, size_t r, int timeout, int& from)
    {
        Got got;
        const bool parts = NextAsParts(g);
        if (!Receive(g.rx[r], got, timeout, parts, s.chance(30))) { return false; }
        from = g.Match(r, got);
        return true;
    }
    // receive one of the outstanding messages
    void ReceiveOne(Group& g, int& from, size_t& by)
    {
        const int64_t end = pbt::NowMs() + 15000;
        std::vector<size_t> order(g.rx.size());
        const size_t start = s.draw(g.rx.size());
        while (true) {
            for (size_t i = 0; i < g.rx.size(); ++i) {
                by = (start + i) % g.rx.size();
                if (g.fan || g.rx.size() == 1) {
                    bool due = false;
                    for (size_t k = 0; k < g.tx.size(); ++k) { due = due || g.next[k][by] < g.log[k].size(); }
                    if (!due) { continue; }
                    if (TryReceive(g, by, s.chance(50) ? 0 : 100, from)) { return; }
                } else if (TryReceive(g, by, 0, from)) {
                    return;
                }
            }
            REQ(pbt::NowMs() < end, g.Outstanding() << " messages that were sent do not arrive");
            usleep(100);
        }
    }
    void NothingLeft()
    {
        for (auto& g : groups) {
            REQ_EQ(g.Outstanding(), 0u, "messages not received");
            if (pattern == "req") { continue; }
            for (int r : g.rx) {
                Got got;
                REQ(!Receive(r, got, 0, shm ? partsOnly : true, false), "received " << Str(got) << ", which was not sent");
            }
        }
    }
    // one thread does everything
    void Sequential()
    {
        Build();
        const int steps = 3 + static_cast<int>(s.draw(60));
        int sends = 0;
        size_t bytes = 0;
        std::vector<int> reqState(pattern == "req" ? groups[0].tx.size() : 0, 0);   // 0 idle, 1 sent, 2 replied
        int asked = -1;                                                             // whom the rep has to reply to
        for (int i = 0; i < steps; ++i) {
            // pick an action: a group and whether to send
            size_t gi = s.draw(groups.size());
            bool send = s.chance(60);
            size_t tx = 0;
            if (pattern == "req") {
                std::vector<int> can;   // q: request, 100: serve, 200: reply, 300 + q: receive the reply
                bool sent = false;
                for (size_t q = 0; q < reqState.size(); ++q) {
                    if (reqState[q] == 0) { can.push_back(static_cast<int>(q)); }
                    if (reqState[q] == 1) { sent = true; }
                    if (reqState[q] == 2) { can.push_back(300 + static_cast<int>(q)); }
                }
                if (asked < 0 && groups[0].Outstanding() > 0 && sent) { can.push_back(100); }
                if (asked >= 0) { can.push_back(200); }
                const int a = can[s.draw(can.size())];
                if (a < 100) { gi = 0; send = true; tx = static_cast<size_t>(a); }
                else if (a == 100) { gi = 0; send = false; }
                else if (a == 200) { gi = static_cast<size_t>(asked) + 1; send = true; }
                else { gi = static_cast<size_t>(a - 300) + 1; send = false; }
            } else if (send) {
                tx = s.draw(groups[gi].tx.size());
            }
            Group& g = groups[gi];
            if (send) {
                Pending p;
                p.spec = NewSpec(bytes > (4u << 20) ? 100 : 200000);
                const bool room = g.Outstanding() < static_cast<size_t>(hwm) / 2 || pattern == "req";
                int timeout = s.pick({0, -1, 1, 150, 5000});
                if (timeout != 0 && !room) { timeout = s.chance(95) ? 0 : 1; }
                if (g.fan && !room) { continue; }
                if (bytes > (12u << 20)) { continue; }
                c << "s" << gi << "." << tx << p.spec.Str();
                Prepare(p, g.tx[tx]);
                int64_t rc = Send(p, g.tx[tx], timeout);
                if (rc < 0 && room && timeout != 5000 && timeout != -1) {
                    // not connected yet
                    REQ_EQ(rc, static_cast<int64_t>(TransferCode::timeout), "result of a send");
                    rc = Send(p, g.tx[tx], 10000);
                }
                if (rc < 0) {
                    REQ(!room, "a send to an empty queue failed with " << rc);
                    REQ_EQ(rc, static_cast<int64_t>(TransferCode::timeout), "result of a send");
                    c << "! ";
                    c.label("full");
                    continue;
                }
                REQ_EQ(rc, static_cast<int64_t>(p.spec.Bytes()), "result of a send");
                g.Sent(tx, p.spec);
                bytes += p.spec.Bytes();
                ++sends;
                if (pattern == "req") {
                    if (gi == 0) { reqState[tx] = 1; } else { reqState[gi - 1] = 2; asked = -1; }
                }
            } else {
                if (g.Outstanding() == 0) {
                    if (pattern == "req") { continue; }
                    Got got;
                    const size_t r = s.draw(g.rx.size());
                    REQ(!Receive(g.rx[r], got, 0, s.flip(), false), "received " << Str(got) << ", which was not sent");
                    REQ_EQ(got.rc, static_cast<int64_t>(TransferCode::timeout), "result of a reception from an empty queue");
                    continue;
                }
                int from = 0;
                size_t by = 0;
                ReceiveOne(g, from, by);
                c << "r" << gi << "." << by << " ";
                if (pattern == "req") {
                    if (gi == 0) { asked = from; } else { reqState[gi - 1] = 0; }
                }
            }
            if (s.chance(10)) { Counters(); }
        }
        // the rest
        if (pattern == "req") {
            while (true) {
                int from = 0;
                size_t by = 0;
                if (asked < 0 && groups[0].Outstanding() > 0) { ReceiveOne(groups[0], from, by); asked = from; }
                if (asked >= 0) {
                    Pending p;
                    p.spec = NewSpec(100);
                    Prepare(p, groups[asked + 1].tx[0]);
                    REQ_EQ(Send(p, groups[asked + 1].tx[0], 10000), static_cast<int64_t>(p.spec.Bytes()), "result of a reply");
                    groups[asked + 1].Sent(0, p.spec);
                    asked = -1;
                }
                bool more = groups[0].Outstanding() > 0;
                for (size_t q = 1; q < groups.size(); ++q) {
                    if (groups[q].Outstanding() > 0) { ReceiveOne(groups[q], from, by); }
                }
                if (!more) { break; }
            }
        }
        for (auto& g : groups) {
            while (g.Outstanding() > 0) {
                int from = 0;
                size_t by = 0;
                ReceiveOne(g, from, by);
            }
        }
        NothingLeft();
        Counters();
        if (sends > 2) { c.nontrivial(); }
    }
    // a thread per end
    void Threads()
    {
        if (hwm == 1000) { hwm = static_cast<int>(s.pick({1, 3, 20, 1000})); }
        Build();
        if (pattern == "pair") { groups.resize(1); }   // a socket belongs to one thread
        const int per = 5 + static_cast<int>(s.draw(120));
        std::mutex mtx;
        string err;
        std::vector<std::thread> ts;
        std::atomic<bool> go{false}, stop{false};
        std::atomic<size_t> received{0};
        auto guarded = [&](auto fn) {
            ts.emplace_back([&, fn] {
                while (!go) { std::this_thread::yield(); }
                try {
                    fn();
                } catch (const std::exception& e) {
                    std::lock_guard<std::mutex> l(mtx);
                    if (err.empty()) { err = e.what(); }
                    stop = true;
                } catch (const pbt::Failure& e) {
                    std::lock_guard<std::mutex> l(mtx);
                    if (err.empty()) { err = e.msg; }
                    stop = true;
                }
            });
        };
        const int64_t end = pbt::NowMs() + 40000;
        std::vector<std::vector<std::vector<Got>>> got(groups.size());
        size_t total = 0;
        for (size_t gi = 0; gi < groups.size(); ++gi) {
            Group& g = groups[gi];
            got[gi].resize(g.rx.size());
            for (size_t i = 0; i < g.tx.size(); ++i) {
                std::vector<Spec> plan;
                std::vector<int> timeouts;
                for (int k = 0; k < per; ++k) {
                    // mostly derived, to keep the case short
                    Spec m;
                    const uint64_t x = pbt::Mix(nextSeed + 77);
                    m.parts = partsOnly || (!singleOnly && x % 2);
                    const size_t n = m.parts ? 1 + (x >> 8) % 4 : 1;
                    for (size_t q = 0; q < n; ++q) {
                        PartSpec p;
                        p.seed = ++nextSeed;
                        const uint64_t y = pbt::Mix(p.seed + 5);
                        p.size = y % 4 ? (y >> 8) % 60 : (y >> 8) % 4000;
                        if (q == 0) { p.size = std::max<size_t>(p.size, 8); }
                        p.kind = static_cast<int>((y >> 40) % 6);
                        m.p.push_back(p);
                    }
                    plan.push_back(m);
                    timeouts.push_back(static_cast<int>(std::vector<int>{-1, 0, 1, 150}[(x >> 20) % 4]));
                    g.Sent(i, m);
                }
                total += per * (g.fan ? g.rx.size() : 1);
                const int e = g.tx[i];
                const bool late = s.chance(30);       // the receiver waits for longer than one step of the socket
                guarded([this, e, plan, timeouts, end, late, &stop] {
                    for (size_t k = 0; k < plan.size() && !stop; ++k) {
                        if (late && k % 64 == 0) { usleep(130000); }
                        Pending p;
                        p.spec = plan[k];
                        Prepare(p, e);
                        while (!stop) {
                            const int64_t rc = Send(p, e, timeouts[k] == -1 && k + 1 == plan.size() ? 1000 : timeouts[k]);
                            if (rc >= 0) {
                                REQ_EQ(rc, static_cast<int64_t>(p.spec.Bytes()), "result of a send");
                                break;
                            }
                            REQ_EQ(rc, static_cast<int64_t>(TransferCode::timeout), "result of a send");
                            REQ(pbt::NowMs() < end, "a message cannot be sent");
                            std::this_thread::yield();
                        }
                    }
                });
            }
        }
        for (size_t gi = 0; gi < groups.size(); ++gi) {
            Group& g = groups[gi];
            for (size_t r = 0; r < g.rx.size(); ++r) {
                const int e = g.rx[r];
                const bool slow = s.chance(20), late = s.chance(20);
                guarded([this, gi, &g, r, e, slow, late, end, total, &got, &received, &stop] {
                    int n = 0;
                    while (received < total && !stop) {
                        Got x;
                        if (late && n % 100 == 0) { usleep(130000); }
                        const bool parts = shm && !partsOnly && !singleOnly ? g.log[0][std::min(got[gi][r].size(), g.log[0].size() - 1)].parts : shm ? partsOnly : true;
                        ++n;
                        const bool last = g.rx.size() == 1 && got[gi][r].size() + 1 == total && groups.size() == 1;
                        if (Receive(e, x, last ? -1 : n % 3 == 1 ? 0 : n % 7 == 2 ? 450 : 20, parts, n % 2)) {
                            got[gi][r].push_back(x);
                            ++received;
                        }
                        if (slow) { usleep(50); }
                        REQ(pbt::NowMs() < end, "only " << received << " of " << total << " messages arrive");
                    }
                });
            }
        }
        c << per << " messages per sender";
        c.nontrivial();
        go = true;
        for (auto& t : ts) { t.join(); }
        REQ(err.empty(), err);
        for (size_t gi = 0; gi < groups.size(); ++gi) {
            Group& g = groups[gi];
            for (size_t r = 0; r < g.rx.size(); ++r) {
                for (auto& x : got[gi][r]) { g.Match(r, x); }
            }
        }
        NothingLeft();
        Counters();
    }
};
}   // namespace

CASE(history_zmq, 4) { World1(s, c, false, {"push", "pair", "req", "pub"}).Sequential(); }
CASE(history_shm, 5) { World1(s, c, true, {"push", "pair", "req"}).Sequential(); }
RACY_CASE(threads_zmq, 1, 60000) { World1(s, c, false, {"push", "pair"}).Threads(); }
RACY_CASE(threads_shm, 1, 60000) { World1(s, c, true, {"push", "pair"}).Threads(); }

// messages beyond 2 GiB, which cost nothing as nobody touches them
CASE(huge, 1)
{
    auto f = TransportFactory::CreateTransportFactory("zeromq");
    Channel a("a", "pair", f), b("b", "pair", f);
    REQ(a.Bind("inproc://x") && b.Connect("inproc://x"), "sockets");
    const size_t mapped = 5ull << 30;
    void* mem = mmap(nullptr, mapped, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED) { throw pbt::Discard{}; }
    const bool parts = s.chance(70);
    const int n = parts ? 1 + static_cast<int>(s.draw(3)) : 1;
    std::vector<size_t> sizes;
    uint64_t total = 0;
    Parts ps;
    static std::atomic<int> freed;
    freed = 0;
    for (int i = 0; i < n; ++i) {
        const size_t z = s.pick<size_t>({1ull << 31, (1ull << 31) - 1, (1ull << 32), (1ull << 32) - 1, (1ull << 32) + 5, 10, (1ull << 31) + s.draw(1u << 30)});
        sizes.push_back(z);
        total += z;
        c << z << " ";
        ps.AddPart(f->CreateMessage(mem, z, [](void*, void*) { ++freed; }));
    }
    c.nontrivial();
    const int64_t rc = parts ? a.Send(ps, 1000) : a.Send(ps.At(0), 1000);
    REQ_EQ(rc, static_cast<int64_t>(total), "result of the send");
    Parts in;
    MessagePtr one = f->CreateMessage();
    const int64_t rr = parts ? b.Receive(in, 1000) : b.Receive(one, 1000);
    REQ_EQ(rr, static_cast<int64_t>(total), "result of the reception");
    if (!parts) { in.AddPart(std::move(one)); }
    REQ_EQ(in.Size(), sizes.size(), "parts");
    for (int i = 0; i < n; ++i) {
        REQ_EQ(in[i].GetSize(), sizes[i], "size of part " << i);
        REQ_EQ(in[i].GetData(), mem, "data of part " << i);
    }
    REQ_EQ(a.GetBytesTx(), total, "bytes sent");
    REQ_EQ(b.GetBytesRx(), total, "bytes received");
    ps.Clear();
    in.Clear();
    REQ_EQ(freed.load(), n, "released buffers");
    munmap(mem, mapped);
}
