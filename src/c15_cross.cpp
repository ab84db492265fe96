// C15: messages cross transports unchanged and remain owned correctly.
#include "msgworld.h"
#include <deque>
#include <fairmq/Channel.h>
#include <map>
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
using Bytes = std::vector<unsigned char>;
// a buffer that has to be given back exactly once
struct Owned
{
    Bytes storage;
    std::atomic<int> calls{0};
    std::atomic<bool> wrong{false};
};
void Free(void* data, void* hint)
{
    auto* o = static_cast<Owned*>(hint);
    if (data != o->storage.data()) { o->wrong = true; }
    if (++o->calls == 1) { memset(o->storage.data(), 0xee, o->storage.size()); }   // a use after this is seen
}
struct Msg
{
    MessagePtr m;
    Bytes b;
    bool dead = false;   // was sent: only good for being filled again
    bool fixed = false;  // its buffer is not only its own
};
struct Unit
{
    bool parts = false;
    std::vector<Bytes> p;
};
struct Pipe15
{
    bool shm = false, inproc = false;
    std::unique_ptr<Channel> a, b;
    std::deque<Unit> q;
    int cap = 0;
};
struct Region15
{
    bool shm = false;
    size_t next = 0;
    std::mutex mtx;
    std::map<void*, int> acks;          // by hint
    std::map<void*, std::pair<void*, size_t>> due;
    bool wrong = false;
    UnmanagedRegionPtr r;   // last: its callbacks use the others
};
constexpr size_t kBlock = 4096, kBlocks = 64;
}   // namespace

CASE(cross, 1)
{
    const string session = NewSession();
    ProgOptions cfg;
    cfg.SetProperty<string>("session", session);
    cfg.SetProperty<size_t>("shm-segment-size", 6 << 20);
    const bool rb = s.flip();
    cfg.SetProperty<string>("shm-allocation", rb ? "rbtree_best_fit" : "simple_seq_fit");
    if (s.chance(20)) { cfg.SetProperty<size_t>("shm-metadata-msg-size", 2048); }
    std::vector<std::unique_ptr<Owned>> owned;
    std::shared_ptr<TransportFactory> f[2]{TransportFactory::CreateTransportFactory("zeromq", "z", &cfg), TransportFactory::CreateTransportFactory("shmem", "s", &cfg)};
    std::vector<std::unique_ptr<Region15>> regions;
    for (int i = 0; i < 2; ++i) {
        auto r = std::make_unique<Region15>();
        r->shm = i == 1;
        if (r->shm && s.chance(75)) { r->next = kBlocks; }   // giving back blocks of these takes its time
        if (r->next == kBlocks) {
            regions.push_back(std::move(r));
            continue;
        }
        auto* p = r.get();
        p->r = f[i]->CreateUnmanagedRegion(kBlock * kBlocks, [p](void* data, size_t size, void* hint) {
            std::lock_guard<std::mutex> l(p->mtx);
            ++p->acks[hint];
            auto it = p->due.find(hint);
            if (it == p->due.end() || it->second.first != data || it->second.second != size) { p->wrong = true; }
            if (it != p->due.end() && p->acks[hint] == 1) { memset(data, 0xee, size); }
        });
        regions.push_back(std::move(r));
    }
    bool sane = true;
    const size_t freeBefore = FreeProbe::Get(session, 0, rb, sane);
    std::vector<std::unique_ptr<Pipe15>> pipes;
    std::vector<Msg> msgs;
    {
        const size_t n = 2 + s.draw(3);
        for (size_t i = 0; i < n; ++i) {
            auto p = std::make_unique<Pipe15>();
            p->shm = i < 2 ? i == 1 : s.flip();
            p->inproc = s.chance(70);
            const int hwm = 1 + static_cast<int>(s.draw(3));
            p->cap = 2 * hwm;
            const string addr = (p->inproc ? "inproc://" : "ipc://@" + session + "_") + std::to_string(i);
            p->a = std::make_unique<Channel>("a" + std::to_string(i), "push", "bind", addr, f[p->shm]);
            p->b = std::make_unique<Channel>("b" + std::to_string(i), "pull", "connect", addr, f[p->shm]);
            for (auto* ch : {p->a.get(), p->b.get()}) {
                ch->UpdateSndBufSize(hwm);
                ch->UpdateRcvBufSize(hwm);
                ch->UpdateLinger(0);
                ch->Init();
            }
            REQ(p->a->Bind(addr) && p->b->Connect(addr), "sockets");
            c << (p->shm ? "shm" : "zmq") << (p->inproc ? "/inproc " : "/ipc ");
            pipes.push_back(std::move(p));
        }
    }
    c << ": ";
    uint64_t seed = 1;
    auto fill = [&](void* d, size_t n) {
        Bytes b(n);
        const uint64_t k = pbt::Mix(seed++);
        for (size_t i = 0; i < n; ++i) { b[i] = static_cast<unsigned char>(pbt::Mix(k + i / 8) >> (8 * (i % 8))); }
        if (n) { memcpy(d, b.data(), n); }
        return b;
    };
    auto ok = [&](const Message& m, const Bytes& b, const char* what) {
        REQ_EQ(m.GetSize(), b.size(), what << ": size");
        REQ(b.empty() || memcmp(m.GetData(), b.data(), b.size()) == 0, what << ": the content of " << b.size() << " bytes is not what was written");
    };
    auto size = [&]() -> size_t {
        switch (s.draw(6)) {
            case 0: return 0;
            case 1: return 1 + s.draw(40);
            case 2: return s.draw(4000);
            case 3: return 1 + s.draw(70000);
            default: return 1 + s.draw(300);
        }
    };
    auto make = [&](bool shm) {
        auto& fac = f[shm];
        Msg x;
        const auto kind = s.draw(8);
        c << (shm ? "s" : "z");
        switch (kind) {
            case 0:
            case 1: {
                const size_t n = size();
                x.m = s.chance(70) ? fac->CreateMessage(n) : fac->CreateMessage(n, Alignment{static_cast<size_t>(s.pick({16, 64, 256}))});
                x.b = fill(x.m->GetData(), n);
                c << "plain" << n << " ";
                break;
            }
            case 2:
            case 3: {
                const size_t n = std::max<size_t>(1, size());
                auto o = std::make_unique<Owned>();
                o->storage.resize(n);
                x.b = fill(o->storage.data(), n);
                x.m = fac->CreateMessage(o->storage.data(), n, Free, o.get());
                x.fixed = true;
                owned.push_back(std::move(o));
                c << "user" << n << " ";
                break;
            }
            case 4: {
                auto& r = *regions[shm];
                if (r.next == kBlocks) { x.m = fac->CreateMessage(); break; }
                char* d = static_cast<char*>(r.r->GetData()) + kBlock * r.next;
                const size_t n = 1 + s.draw(kBlock);
                x.b = fill(d, n);
                void* hint = reinterpret_cast<void*>(++r.next);
                {
                    std::lock_guard<std::mutex> l(r.mtx);
                    r.due[hint] = {d, n};
                }
                x.m = fac->CreateMessage(r.r, d, n, hint);
                x.fixed = true;
                c << "region" << n << " ";
                break;
            }
            case 5: {
                string t(size(), 'a');
                for (auto& ch : t) { ch = static_cast<char>('a' + s.draw(3)); }
                x.b.assign(t.begin(), t.end());
                x.m = fac->NewSimpleMessage(t);
                x.fixed = true;
                c << "simple" << t.size() << " ";
                break;
            }
            case 6: {
                // a message smaller than its buffer
                const size_t n = 1 + s.draw(5000);
                x.m = fac->CreateMessage(n);
                x.b = fill(x.m->GetData(), n);
                const size_t k = s.draw(n + 1);
                REQ(x.m->SetUsedSize(k), "SetUsedSize");
                x.b.resize(k);
                c << "shrunk" << n << ">" << k << " ";
                break;
            }
            default: {
                // a copy of another
                std::vector<size_t> v;
                for (size_t i = 0; i < msgs.size(); ++i) {
                    if (!msgs[i].dead && msgs[i].m->GetType() == (shm ? Transport::SHM : Transport::ZMQ)) { v.push_back(i); }
                }
                x.m = fac->CreateMessage();
                if (!v.empty()) {
                    auto& y = msgs[v[s.draw(v.size())]];
                    x.m->Copy(*y.m);
                    x.b = y.b;
                    x.fixed = y.fixed = true;
                    c << "copy ";
                } else {
                    c << "empty ";
                }
            }
        }
        ok(*x.m, x.b, "a new message");
        return x;
    };
    auto pick = [&]() -> size_t {
        // a message to be sent
        std::vector<size_t> v;
        for (size_t i = 0; i < msgs.size(); ++i) {
            if (!msgs[i].dead) { v.push_back(i); }
        }
        if (v.empty() || s.chance(30)) {
            msgs.push_back(make(s.flip()));
            return msgs.size() - 1;
        }
        return v[s.draw(v.size())];
    };
    auto receive = [&](Pipe15& p) {
        Unit u = std::move(p.q.front());
        p.q.pop_front();
        const int t = p.inproc ? 0 : 20000;
        int64_t sum = 0;
        for (auto& b : u.p) { sum += static_cast<int64_t>(b.size()); }
        std::vector<Msg> got;
        if (u.parts) {
            Parts ps;
            REQ_EQ(p.b->Receive(ps, t), sum, "result of a reception");
            REQ_EQ(ps.Size(), u.p.size(), "parts received");
            for (auto& m : ps) { got.push_back(Msg{std::move(m), {}, false, true}); }
        } else {
            // into a message of either transport, which may have content
            Msg x;
            if (s.flip()) {
                x = make(s.flip());
                c << "<- ";
            } else {
                x.m = f[s.flip()]->CreateMessage();
            }
            if (!msgs.empty() && s.chance(20)) {
                const size_t k = s.draw(msgs.size());
                x = std::move(msgs[k]);
                msgs.erase(msgs.begin() + static_cast<int>(k));
            }
            x.dead = false;
            x.fixed = true;
            REQ_EQ(p.b->Receive(x.m, t), sum, "result of a reception");
            got.push_back(std::move(x));
        }
        c << "recv" << sum << " ";
        for (size_t i = 0; i < got.size(); ++i) {
            got[i].b = u.p[i];
            REQ(got[i].m->GetType() == (p.shm ? Transport::SHM : Transport::ZMQ), "a received message has the transport of its channel");
            ok(*got[i].m, got[i].b, "a received message");
            if (s.chance(70)) { msgs.push_back(std::move(got[i])); }
        }
    };
    const int steps = 6 + static_cast<int>(s.draw(60));
    bool crossed = false;
    for (int i = 0; i < steps; ++i) {
        const auto op = s.draw(12);
        Pipe15& p = *pipes[s.draw(pipes.size())];
        // libzmq looks at returned places only now and then when sending without waiting
        uint32_t ev = 0;
        p.a->GetSocket().Events(&ev);
        const auto mine = p.shm ? Transport::SHM : Transport::ZMQ;
        if (op <= 1) {
            msgs.push_back(make(s.flip()));
        } else if (op <= 4) {
            const size_t k = pick();
            Msg& x = msgs[k];
            const bool cross = x.m->GetType() != mine;
            const auto tx = p.a->GetBytesTx(), ntx = p.a->GetMessagesTx();
            const auto r = p.a->Send(x.m, 0);
            c << "send(" << x.b.size() << (cross ? " cross" : "") << (r < 0 ? " failed) " : ") ");
            crossed = crossed || cross;
            REQ(x.m != nullptr, "a message object is there after the send");
            REQ(r == static_cast<int64_t>(x.b.size()) || r == static_cast<int64_t>(TransferCode::timeout), "result of a send: " << r);
            REQ_EQ(p.a->GetMessagesTx() - ntx, r >= 0 ? 1u : 0u, "counted messages");
            REQ_EQ(p.a->GetBytesTx() - tx, r >= 0 ? x.b.size() : 0u, "counted bytes");
            if (r < 0) {
                // nothing is lost, and it can be sent again
                ok(*x.m, x.b, "a message that could not be sent");
                REQ(static_cast<int>(p.q.size()) > 0 || !p.inproc, "a send failed with free places");
                if (cross) { c.label("failed cross send"); }
            } else {
                REQ(!p.inproc || static_cast<int>(p.q.size()) < p.cap, "too many messages sent");
                p.q.push_back(Unit{false, {x.b}});
                x.dead = true;
                x.b.clear();
                if (s.chance(60)) { msgs.erase(msgs.begin() + static_cast<int>(k)); }
            }
        } else if (op <= 6) {
            // several, of both transports
            std::vector<Msg> v;
            const size_t n = 1 + s.draw(5);
            for (size_t j = 0; j < n; ++j) {
                const size_t k = pick();
                v.push_back(std::move(msgs[k]));
                msgs.erase(msgs.begin() + static_cast<int>(k));
            }
            Parts ps;
            Unit u;
            u.parts = true;
            int64_t sum = 0;
            bool cross = false;
            for (auto& x : v) {
                cross = cross || x.m->GetType() != mine;
                u.p.push_back(x.b);
                sum += static_cast<int64_t>(x.b.size());
                ps.AddPart(std::move(x.m));
            }
            const auto r = p.a->Send(ps, 0);
            c << "sendParts(" << n << (cross ? " cross" : "") << (r < 0 ? " failed) " : ") ");
            crossed = crossed || cross;
            REQ(r == sum || r == static_cast<int64_t>(TransferCode::timeout), "result of a send of parts: " << r);
            if (r < 0) {
                REQ_EQ(ps.Size(), n, "parts after a failed send");
                for (size_t j = 0; j < n; ++j) {
                    v[j].m = std::move(ps.At(j));
                    ok(*v[j].m, v[j].b, "a part that could not be sent");
                    msgs.push_back(std::move(v[j]));
                }
                if (cross) { c.label("failed cross send"); }
            } else {
                if (n == 1 && !p.shm) { u.parts = s.flip(); }
                p.q.push_back(std::move(u));
            }
        } else if (op <= 9) {
            if (!p.q.empty()) { receive(p); }
        } else if (!msgs.empty()) {
            const size_t k = s.draw(msgs.size());
            Msg& x = msgs[k];
            if (op == 10) {
                // a message is filled again, also one that was sent
                const size_t n = size();
                c << "rebuild" << n << " ";
                x.m->Rebuild(n);
                x.b = fill(x.m->GetData(), n);
                x.dead = x.fixed = false;
                ok(*x.m, x.b, "a message that was built again");
            } else {
                c << "drop ";
                msgs.erase(msgs.begin() + static_cast<int>(k));
            }
        }
        if (s.chance(25)) {
            for (auto& x : msgs) {
                if (!x.dead) { ok(*x.m, x.b, "a message at hand"); }
            }
        }
    }
    for (auto& x : msgs) {
        if (!x.dead) { ok(*x.m, x.b, "a message at hand at the end"); }
    }
    for (auto& p : pipes) {
        while (!p->q.empty() && s.chance(90)) { receive(*p); }
        // the rest is dropped with the channels
        if (!p->inproc) {
            while (!p->q.empty()) { receive(*p); }
        }
    }
    if (crossed) { c.nontrivial(); }
    // everything is given back exactly once; what is left in queues of shared memory channels cannot be
    bool left = false;
    for (auto& p : pipes) { left = left || (p->shm && !p->q.empty()); }
    msgs.clear();
    pipes.clear();
    const int64_t end = pbt::NowMs() + 8000;
    auto settled = [&] {
        for (auto& o : owned) {
            if (o->calls == 0) { return false; }
        }
        for (auto& r : regions) {
            if (r->shm && left) { continue; }
            std::lock_guard<std::mutex> l(r->mtx);
            if (r->acks.size() < r->due.size()) { return false; }
        }
        return left || FreeProbe::Get(session, 0, rb, sane) == freeBefore;
    };
    while (!settled() && pbt::NowMs() < end) { usleep(300); }
    usleep(s.chance(5) ? 20000 : 100);
    for (auto& o : owned) {
        REQ_EQ(o->calls.load(), 1, "calls of the function that gives a user's buffer back");
        REQ(!o->wrong, "a buffer was given back that is not the user's");
    }
    for (auto& r : regions) {
        std::lock_guard<std::mutex> l(r->mtx);
        REQ(!r->wrong, "a block was given back that is not the one that was sent");
        for (auto& a : r->acks) { REQ_EQ(a.second, 1, "times a block of a region was given back"); }
        if (!(r->shm && left)) { REQ_EQ(r->acks.size(), r->due.size(), "blocks of a region given back"); }
    }
    if (!left) { REQ_EQ(FreeProbe::Get(session, 0, rb, sane), freeBefore, "free shared memory, in the end"); }
    REQ(sane, "the shared memory segment is not sane");
    for (auto& r : regions) { r->r.reset(); }
    f[0].reset();
    f[1].reset();
    std::remove(SessionFile().c_str());
}
