// C13: transfer calls return the documented result and lose nothing when they fail.
#include "msgworld.h"
#include <condition_variable>
#include <csignal>
#include <deque>
#include <fairmq/Channel.h>
#include <thread>
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
constexpr int64_t kTimeout = static_cast<int64_t>(TransferCode::timeout);
constexpr int64_t kError = static_cast<int64_t>(TransferCode::error);
constexpr int64_t kInterrupted = static_cast<int64_t>(TransferCode::interrupted);
constexpr int kSlack = 3000;   // ms: how late a call may return on a busy machine

using Bytes = std::vector<unsigned char>;
struct Unit
{
    bool parts = false;
    std::vector<Bytes> p;
    size_t Size() const
    {
        size_t n = 0;
        for (auto& b : p) { n += b.size(); }
        return n;
    }
    string Str() const
    {
        string s = parts ? "[" : "";
        for (auto& b : p) { s += std::to_string(b.size()) + " "; }
        return s + (parts ? "]" : "");
    }
};
struct Object
{
    MessagePtr m;
    Parts ps;
};

struct World13
{
    pbt::Src& s;
    pbt::Case& c;
    bool shm;
    string session;
    ProgOptions cfg[2];
    std::shared_ptr<TransportFactory> f[2];
    std::unique_ptr<Channel> a, b;
    std::deque<Unit> q;
    int hwm = 2;
    bool connected = false, interrupted[2] = {false, false}, full = false;
    string addr, pattern;
    uint64_t seed = 0;
    uint64_t bytes = 0, count = 0, rbytes = 0, rcount = 0;
    std::vector<UnmanagedRegionPtr> regions;
    size_t used = 0, freeMem = 0;
    bool sane = true;

    World13(pbt::Src& src, pbt::Case& cs, bool sh) : s(src), c(cs), shm(sh)
    {
        session = NewSession();
        addr = s.pick<string>({"inproc", "ipc", "tcp"});
        const bool two = addr != "inproc" && s.flip();
        for (int i = 0; i < (two ? 2 : 1); ++i) {
            cfg[i].SetProperty<string>("session", session);
            cfg[i].SetProperty<size_t>("shm-segment-size", 8 << 20);
            f[i] = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "dev" + std::to_string(i), &cfg[i]);
        }
        if (!two) { f[1] = f[0]; }
        regions.push_back(f[0]->CreateUnmanagedRegion(100000, RegionCallback(nullptr)));
        pattern = s.flip() ? "push" : "pair";
        a = std::make_unique<Channel>("a", pattern, f[0]);
        b = std::make_unique<Channel>("b", pattern == "push" ? "pull" : "pair", f[1]);
        hwm = s.pick({2, 1, 5});
        for (auto* x : {a.get(), b.get()}) {
            x->GetSocket().SetLinger(0);
            x->GetSocket().SetSndBufSize(hwm);
            x->GetSocket().SetRcvBufSize(hwm);
            if (addr != "inproc") {
                x->GetSocket().SetSndKernelSize(4096);
                x->GetSocket().SetRcvKernelSize(4096);
            }
        }
        seed = s.u64();
        if (shm) { freeMem = FreeProbe::Get(session, 0, true, sane); }
        c << (shm ? "shmem " : "zeromq ") << pattern << " " << addr << (two ? " 2 factories" : "") << " hwm " << hwm << ": ";
    }
    ~World13()
    {
        a.reset();
        b.reset();
        regions.clear();
        f[0].reset();
        f[1].reset();
        if (shm) { std::remove(SessionFile().c_str()); }
    }
    void Connect()
    {
        string x = addr == "inproc" ? "inproc://a" : addr == "ipc" ? "ipc://@" + session : "tcp://127.0.0.1:" + std::to_string(20000 + pbt::Mix(seed + static_cast<uint64_t>(getpid())) % 10000);
        if (s.flip()) {
            REQ(a->BindEndpoint(x) && b->ConnectEndpoint(x), "connection over " << x);
        } else {
            REQ(b->BindEndpoint(x) && a->ConnectEndpoint(x), "connection over " << x);
        }
        connected = true;
        c << "connect ";
    }
    Unit NewUnit()
    {
        Unit u;
        u.parts = s.chance(45);
        const size_t n = u.parts ? s.pick({2u, 1u, 3u, 6u}) : 1;
        for (size_t i = 0; i < n; ++i) {
            const size_t z = s.chance(20) ? s.draw(20000) : s.draw(60);
            Bytes b(z);
            ++seed;
            for (size_t k = 0; k < z; ++k) { b[k] = static_cast<unsigned char>(pbt::Mix(seed + (k << 32))); }
            u.p.push_back(b);
        }
        return u;
    }
    void Make(const Unit& u, Object& o)
    {
        for (auto& x : u.p) {
            MessagePtr m;
            const auto kind = s.draw(4);
            if (kind == 1) {
                auto* h = new Bytes(x);
                h->reserve(1);
                m = f[0]->CreateMessage(h->data(), x.size(), [](void*, void* hint) { delete static_cast<Bytes*>(hint); }, h);
            } else if (kind == 2 && used + x.size() < 100000) {
                char* d = static_cast<char*>(regions[0]->GetData()) + used;
                used += x.size();
                if (!x.empty()) { memcpy(d, x.data(), x.size()); }
                m = f[0]->CreateMessage(regions[0], d, x.size());
            } else {
                m = f[0]->CreateMessage(x.size());
                if (!x.empty()) { memcpy(m->GetData(), x.data(), x.size()); }
                if (kind == 3) {
                    auto k = f[0]->CreateMessage();
                    k->Copy(*m);
                    m = std::move(k);
                }
            }
            if (u.parts) { o.ps.AddPart(std::move(m)); } else { o.m = std::move(m); }
        }
    }
    static void Intact(const Unit& u, Object& o)
    {
        auto one = [](const Bytes& x, Message& m) {
            REQ_EQ(m.GetSize(), x.size(), "size of a message that was not sent");
            REQ(x.empty() || memcmp(m.GetData(), x.data(), x.size()) == 0, "the content of a message that was not sent changed");
        };
        if (u.parts) {
            REQ_EQ(o.ps.Size(), u.p.size(), "parts after a send that failed");
            for (size_t i = 0; i < u.p.size(); ++i) {
                REQ(o.ps.At(i) != nullptr, "a part that was not sent is gone");
                one(u.p[i], o.ps[i]);
            }
        } else {
            REQ(o.m != nullptr, "a message that was not sent is gone");
            one(u.p[0], *o.m);
        }
    }
    int64_t Send(const Unit& u, Object& o, int timeout) { return u.parts ? a->Send(o.ps, timeout) : a->Send(o.m, timeout); }
    void Sent(const Unit& u)
    {
        q.push_back(u);
        bytes += u.Size();
        ++count;
        Counters();
    }
    bool concurrent = false;
    void Counters()
    {
        if (concurrent) { return; }
        REQ_EQ(a->GetBytesTx(), bytes, "bytes sent");
        REQ_EQ(a->GetMessagesTx(), count, "messages sent");
        REQ_EQ(b->GetBytesRx(), rbytes, "bytes received");
        REQ_EQ(b->GetMessagesRx(), rcount, "messages received");
    }
    // a call that failed took as long as it had to
    template<class Again>
    void Duration(int64_t ms, int timeout, int64_t rc, Again again)
    {
        // late? it may be the machine, not every time though
        const int due = rc == kTimeout ? (timeout + 99) / 100 * 100 : rc == kInterrupted && timeout != 0 ? 100 : 0;
        for (int i = 0; i < 6 && ms > due + 80; ++i) {
            const int64_t t0 = pbt::NowMs();
            if (again() != rc) { return; }
            ms = std::min(ms, pbt::NowMs() - t0);
        }
        REQ(ms <= due + 80, "a call with timeout " << timeout << " and result " << rc << " took " << ms << " ms every time");

        if (rc == kTimeout) { REQ(ms + 3 >= timeout, "a timeout of " << timeout << " ms was reported after " << ms << " ms"); }
    }
    int Timeout()
    {
        const auto k = s.draw(10);
        return k < 5 ? 0 : k < 7 ? 1 + static_cast<int>(s.draw(99)) : k < 9 ? 100 + static_cast<int>(s.draw(100)) : 200 + static_cast<int>(s.draw(150));
    }
    // a send whose result is known
    void SendOp()
    {
        Unit u = NewUnit();
        Object o;
        Make(u, o);
        const int tries = 1 + static_cast<int>(s.draw(2));
        for (int i = 0; i < tries; ++i) {
            const int t = Timeout();
            const bool viaDefault = s.chance(20);
            if (viaDefault) { a->UpdateSndTimeout(t); }
            const int64_t t0 = pbt::NowMs();
            const int64_t rc = viaDefault ? (u.parts ? a->Send(o.ps) : a->Send(o.m)) : Send(u, o, t);
            const int64_t ms = pbt::NowMs() - t0;
            c << "send(" << u.Str() << "," << t << ")=" << rc << " ";
            if (rc >= 0) {
                REQ(connected, "a message was sent without a peer");
                REQ_EQ(rc, static_cast<int64_t>(u.Size()), "result of a send");
                Sent(u);
                return;
            }
            REQ_EQ(rc, interrupted[0] ? kInterrupted : kTimeout, "result of a send that cannot complete");
            // if anything is queued, the limit could have been reached
            REQ(!connected || !q.empty() || t < 2000, "a send failed with an empty queue");
            bool went = false;
            Duration(ms, t, rc, [&] {
                if (went) { return int64_t(0); }
                const int64_t r = Send(u, o, t);
                if (r >= 0) { went = true; }
                return r;
            });
            if (went) { return Sent(u); }
            Intact(u, o);
            Counters();
            if (!connected) { c.label("no peer"); } else { c.label("full"); }
            c.nontrivial();
        }
        if (s.flip()) { return; }   // give up
        // make it possible, and repeat it
        Resume(0);
        if (!connected) { Connect(); }
        while (!q.empty()) { ReceiveDue(); }
        const int64_t rc = Send(u, o, 10000);
        REQ_EQ(rc, static_cast<int64_t>(u.Size()), "result of a repeated send");
        c << "again ";
        Sent(u);
    }
    void Check(const Unit& u, std::vector<Bytes>& got, int64_t rc)
    {
        REQ_EQ(got.size(), u.p.size(), "received parts");
        for (size_t i = 0; i < got.size(); ++i) { REQ(got[i] == u.p[i], "part " << i << " of " << u.Str() << " is different"); }
        REQ_EQ(rc, static_cast<int64_t>(u.Size()), "result of a reception");
    }
    static Bytes Take(Message& m)
    {
        const auto* d = static_cast<const unsigned char*>(m.GetData());
        return Bytes(d, d + m.GetSize());
    }
    int64_t Receive(bool parts, int timeout, std::vector<Bytes>& got, bool viaDefault = false)
    {
        if (viaDefault) { b->UpdateRcvTimeout(timeout); }
        if (parts) {
            Parts ps;
            const int64_t rc = viaDefault ? b->Receive(ps) : b->Receive(ps, timeout);
            if (rc < 0) { REQ_EQ(ps.Size(), 0u, "parts after a failed reception"); }
            for (auto& m : ps) { got.push_back(Take(*m)); }
            return rc;
        }
        auto m = f[1]->CreateMessage(11);
        memset(m->GetData(), 0x5a, 11);
        const int64_t rc = viaDefault ? b->Receive(m) : b->Receive(m, timeout);
        // what the message contains after a failed reception is not specified (libzmq empties it)
        if (rc >= 0) {
            got.push_back(Take(*m));
        }
        return rc;
    }
    void Received(std::vector<Bytes>& got, int64_t rc)
    {
        REQ(!q.empty(), "something was received that was not sent");
        Check(q.front(), got, rc);
        rbytes += q.front().Size();
        ++rcount;
        q.pop_front();
        Counters();
    }
    void ReceiveDue()
    {
        std::vector<Bytes> got;
        const int64_t end = pbt::NowMs() + 10000;
        int64_t rc = 0;
        do {
            rc = Receive(q.front().parts, 100, got);
            if (rc < 0 && interrupted[1]) {
                REQ_EQ(rc, kInterrupted, "result of an interrupted reception");
            } else if (rc < 0) {
                REQ_EQ(rc, kTimeout, "result of a reception");
            }
            REQ(pbt::NowMs() < end, "a message that was sent does not arrive");
        } while (rc < 0);
        c << "receive ";
        Received(got, rc);
    }
    void ReceiveOp()
    {
        const int t = Timeout();
        const bool parts = q.empty() ? s.flip() : q.front().parts;
        std::vector<Bytes> got;
        const int64_t t0 = pbt::NowMs();
        const int64_t rc = Receive(parts, t, got, s.chance(20));
        const int64_t ms = pbt::NowMs() - t0;
        c << "receive(" << t << ")=" << rc << " ";
        if (rc >= 0) { return Received(got, rc); }
        c.nontrivial();
        REQ_EQ(rc, interrupted[1] ? kInterrupted : kTimeout, "result of a reception from an empty queue");
        if (!q.empty()) { return; }   // still on its way
        Duration(ms, t, rc, [&] { return q.empty() ? Receive(parts, t, got) : 0; });
        Counters();
    }
    void Interrupt(int i)
    {
        f[i]->Interrupt();
        interrupted[i] = true;
        if (f[0] == f[1]) { interrupted[1 - i] = true; }
        c << "interrupt" << i << " ";
        c.label("interrupt");
    }
    void Resume(int i)
    {
        f[i]->Resume();
        interrupted[i] = false;
        if (f[0] == f[1]) { interrupted[1 - i] = false; }
        c << "resume" << i << " ";
    }
    // a call without or with a long timeout, ended by an interrupt or by becoming possible
    void Blocked()
    {
        const bool send = s.flip();
        const int timeout = s.chance(70) ? -1 : 20000;
        const int pause = static_cast<int>(s.draw(3)) * 70;
        if (send) {
            if (interrupted[0]) { return; }
            if (!connected && s.flip()) { return; }
            // until nothing goes anymore
            std::vector<Unit> us;
            if (connected) {
                while (true) {
                    Unit u = NewUnit();
                    Object o;
                    Make(u, o);
                    int64_t rc = Send(u, o, 150);
                    if (rc < 0) {
                        REQ_EQ(rc, kTimeout, "result of a send to a full queue");
                        break;
                    }
                    REQ_EQ(rc, static_cast<int64_t>(u.Size()), "result of a send");
                    Sent(u);
                    // connections over the network hold many
                    if (q.size() > 400) { return; }
                }
            }
            Unit u = NewUnit();
            Object o;
            Make(u, o);
            std::atomic<bool> done{false};
            int64_t rc = -100;
            c << "blocked send " << u.Str() << timeout << " ";
            c.label("blocked send");
            c.nontrivial();
            concurrent = true;
            std::thread t([&] {
                rc = Send(u, o, timeout);
                done = true;
            });
            usleep(static_cast<useconds_t>(pause) * 1000);
            const bool was = done;
            const bool end = s.flip() || !connected;
            int64_t t0 = pbt::NowMs();
            try {
                if (end) {
                    f[0]->Interrupt();
                } else {
                    while (!q.empty()) { ReceiveDue(); }
                    t0 = pbt::NowMs();
                }
                while (!done && pbt::NowMs() < t0 + 10000) { usleep(1000); }
            } catch (...) {
                f[0]->Interrupt();
                t.join();
                throw;
            }
            const bool returned = done;
            if (!returned) { f[0]->Interrupt(); }
            t.join();
            concurrent = false;
            f[0]->Resume();
            const int64_t ms = pbt::NowMs() - t0;
            // a network connection could have made room meanwhile
            REQ(!was || rc >= 0, "a blocked send returned " << rc << " before anything happened");
            REQ(returned, "a send remained blocked after it was " << (end ? "interrupted" : "made possible"));
            if (rc >= 0) {
                REQ_EQ(rc, static_cast<int64_t>(u.Size()), "result of a send");
                REQ(connected, "a message was sent without a peer");
                Sent(u);
            } else {
                REQ(end, "a send that became possible returned " << rc);
                REQ_EQ(rc, kInterrupted, "result of an interrupted send");
                REQ(ms < kSlack, "an interrupted send took " << ms << " ms");
                Intact(u, o);
                if (connected && s.flip()) {
                    while (!q.empty()) { ReceiveDue(); }
                    REQ_EQ(Send(u, o, 10000), static_cast<int64_t>(u.Size()), "result of a repeated send");
                    Sent(u);
                }
            }
            Counters();
        } else {
            if (!q.empty() || interrupted[1] || interrupted[0]) { return; }
            Unit u = NewUnit();
            Object o;
            Make(u, o);
            std::atomic<bool> done{false};
            int64_t rc = -100;
            std::vector<Bytes> got;
            string err;
            const bool end = !connected || s.flip();
            c << "blocked receive " << timeout << (end ? " interrupted " : " ") ;
            c.label("blocked receive");
            c.nontrivial();
            std::thread t([&] {
                try {
                    rc = Receive(u.parts, timeout, got);
                } catch (const pbt::Failure& e) {
                    err = e.msg;
                }
                done = true;
            });
            usleep(static_cast<useconds_t>(pause) * 1000);
            const bool was = done;
            const int64_t t0 = pbt::NowMs();
            int64_t sent = 0;
            if (end) { f[1]->Interrupt(); } else { sent = Send(u, o, 10000); }
            while (!done && pbt::NowMs() < t0 + 10000) { usleep(1000); }
            const bool returned = done;
            if (!returned) { f[1]->Interrupt(); }
            t.join();
            f[1]->Resume();
            const int64_t ms = pbt::NowMs() - t0;
            REQ(err.empty(), err);
            REQ(!was, "a blocked reception returned " << rc << " before anything happened");
            REQ(returned, "a reception remained blocked after it was " << (end ? "interrupted" : "made possible"));
            if (end) {
                REQ_EQ(rc, kInterrupted, "result of an interrupted reception");
                REQ(ms < kSlack, "an interrupted reception took " << ms << " ms");
            } else {
                REQ_EQ(sent, static_cast<int64_t>(u.Size()), "result of a send");
                q.push_back(u);
                bytes += u.Size();
                ++count;
                Received(got, rc);
            }
            Counters();
        }
    }
    void Run()
    {
        if (s.chance(80)) { Connect(); }
        const int steps = 2 + static_cast<int>(s.draw(10));
        int blocked = 0;
        for (int i = 0; i < steps; ++i) {
            switch (s.draw(10)) {
                case 0: if (!connected) { Connect(); } break;
                case 1: Interrupt(static_cast<int>(s.draw(2))); break;
                case 2: Resume(static_cast<int>(s.draw(2))); break;
                case 3:
                    if (blocked++ < 2) { Blocked(); }
                    break;
                case 4: case 5: case 6: ReceiveOp(); break;
                default: SendOp();
            }
        }
        Resume(0);
        Resume(1);
        while (!q.empty()) { ReceiveDue(); }
        std::vector<Bytes> got;
        REQ_EQ(Receive(s.flip(), 0, got), kTimeout, "result of a reception from an empty queue");
        Counters();
        if (shm) {
            REQ_EQ(FreeProbe::Get(session, 0, true, sane), freeMem, "free memory when all messages are gone");
            REQ(sane, "the segment is damaged");
        }
    }
};
}   // namespace

CASE(results_zmq, 1) { World13(s, c, false).Run(); }
CASE(results_shm, 1) { World13(s, c, true).Run(); }

// calls that break the rules of the pattern are errors, and do no harm
CASE(errors, 1)
{
    const bool shm = s.flip();
    const string session = NewSession();
    ProgOptions cfg;
    cfg.SetProperty<string>("session", session);
    cfg.SetProperty<size_t>("shm-segment-size", 1 << 20);
    {
        auto f = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "dev", &cfg);
        Channel q("q", "req", f), r("r", "rep", f), p("p", "push", f), l("l", "pull", f);
        for (auto* x : {&q, &r, &p, &l}) { x->GetSocket().SetLinger(0); }
        REQ(r.Bind("inproc://r") && q.Connect("inproc://r") && l.Bind("inproc://l") && p.Connect("inproc://l"), "sockets");
        c << (shm ? "shmem" : "zeromq");
        c.nontrivial();
        auto make = [&](unsigned char x) {
            auto m = f->CreateMessage(5);
            memset(m->GetData(), x, 5);
            return m;
        };
        auto is = [](Message& m, unsigned char x) { return m.GetSize() == 5 && Bytes(5, x) == Bytes(static_cast<unsigned char*>(m.GetData()), static_cast<unsigned char*>(m.GetData()) + 5); };
        const int rounds = 1 + static_cast<int>(s.draw(6));
        for (int i = 0; i < rounds; ++i) {
            const bool parts = s.flip();
            c << (parts ? " parts" : " single");
            // the wrong direction
            auto wrong = [&](Channel& ch, bool send, const char* what) {
                if (!s.chance(70)) { return; }
                const int t = s.pick({0, -1, 100});
                c << " " << what << " " << t;
                auto m = make(9);
                Parts ps;
                ps.AddPart(make(8));
                ps.AddPart(make(9));
                const uint64_t tx = ch.GetMessagesTx(), rx = ch.GetMessagesRx(), bt = ch.GetBytesTx(), br = ch.GetBytesRx();
                int64_t rc = 0;
                if (parts) { rc = send ? ch.Send(ps, t) : ch.Receive(ps, t); } else { rc = send ? ch.Send(m, t) : ch.Receive(m, t); }
                REQ_EQ(rc, kError, "result of " << what);
                REQ((is(*m, 9) || !send) && ps.Size() == 2 && is(ps[0], 8) && is(ps[1], 9), "messages after " << what);
                REQ(ch.GetMessagesTx() == tx && ch.GetMessagesRx() == rx && ch.GetBytesTx() == bt && ch.GetBytesRx() == br, "counters after " << what);
            };
            auto move = [&](Channel& from, Channel& to, unsigned char x) {
                if (parts) {
                    Parts ps(make(x), make(x));
                    REQ_EQ(from.Send(ps, 5000), 10, "result of a send");
                    Parts in;
                    REQ_EQ(to.Receive(in, 5000), 10, "result of a reception");
                    REQ(in.Size() == 2 && is(in[0], x) && is(in[1], x), "received parts");
                } else {
                    auto m = make(x);
                    REQ_EQ(from.Send(m, 5000), 5, "result of a send");
                    auto in = f->CreateMessage();
                    REQ_EQ(to.Receive(in, 5000), 5, "result of a reception");
                    REQ(is(*in, x), "received message");
                }
            };
            wrong(p, false, "receiving from a push channel");
            wrong(l, true, "sending to a pull channel");
            wrong(r, true, "replying without a request");
            wrong(q, false, "receiving a reply without a request");
            move(p, l, 1);
            move(q, r, 2);
            wrong(q, true, "a second request");
            wrong(r, false, "receiving before replying");
            move(r, q, 3);
            if (!parts && s.flip()) {
                Parts none;
                if (!shm) { REQ_EQ(p.GetSocket().Send(none.fParts, 0), kError, "result of sending nothing"); }
            }
        }
    }
    if (shm) { std::remove(SessionFile().c_str()); }
}

// threads that send, receive, interrupt and resume
RACY_CASE(interrupts, 1, 40000)
{
    const bool shm = s.flip();
    const string session = NewSession();
    ProgOptions cfg[2];
    std::shared_ptr<TransportFactory> f[2];
    const bool two = s.flip();
    for (int i = 0; i < (two ? 2 : 1); ++i) {
        cfg[i].SetProperty<string>("session", session);
        cfg[i].SetProperty<size_t>("shm-segment-size", 4 << 20);
        f[i] = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "dev" + std::to_string(i), &cfg[i]);
    }
    if (!two) { f[1] = f[0]; }
    {
        Channel a("a", "push", f[0]), b("b", "pull", f[1]);
        const int hwm = s.pick({1, 3, 10});
        for (auto* x : {&a, &b}) {
            x->GetSocket().SetLinger(0);
            x->GetSocket().SetSndBufSize(hwm);
            x->GetSocket().SetRcvBufSize(hwm);
        }
        const string addr = two ? "ipc://@" + session : "inproc://x";
        REQ(b.Bind(addr) && a.Connect(addr), "sockets");
        const int n = 20 + static_cast<int>(s.draw(150));
        const bool parts = s.flip();
        const int st = s.pick({-1, 0, 50, 300}), rt = s.pick({-1, 0, 50, 300});
        const int every = s.pick({100, 1000, 5000, 20000});
        const bool signals = s.chance(30);
        const bool slow = s.flip();
        c << (shm ? "shmem " : "zeromq ") << (two ? "ipc " : "inproc ") << n << (parts ? " parts" : " messages") << " timeouts " << st << " " << rt << " interrupted every " << every << " us" << (signals ? ", signals" : "") << (slow ? ", slow" : "");
        c.nontrivial();
        std::mutex mtx;
        string err;
        std::atomic<bool> stop{false};
        auto fail = [&](const string& e) {
            std::lock_guard<std::mutex> l(mtx);
            if (err.empty()) { err = e; }
            stop = true;
        };
        std::atomic<int> nInt{0};
        std::thread tx([&] {
            for (int i = 0; i < n && !stop; ++i) {
                if (slow) { usleep(200); }
                auto m = f[0]->CreateMessage(4 + i % 7);
                *static_cast<int*>(m->GetData()) = i;
                Parts ps;
                if (parts) { ps.AddPart(f[0]->CreateMessage(3)); ps.AddPart(std::move(m)); }
                while (!stop) {
                    const int64_t rc = parts ? a.Send(ps, st) : a.Send(m, st);
                    if (rc >= 0) {
                        if (rc != 4 + i % 7 + (parts ? 3 : 0)) { fail("a send returned " + std::to_string(rc)); }
                        break;
                    }
                    if (rc != kInterrupted && !(rc == kTimeout && st >= 0)) { return fail("a send returned " + std::to_string(rc)); }
                    if ((parts ? ps[1] : *m).GetSize() != static_cast<size_t>(4 + i % 7) || *static_cast<int*>((parts ? ps[1] : *m).GetData()) != i) { return fail("a message that was not sent changed"); }
                }
            }
        });
        std::thread rx([&] {
            for (int i = 0; i < n && !stop;) {
                if (slow && i % 10 == 0) { usleep(2000); }
                auto m = f[1]->CreateMessage();
                Parts ps;
                const int64_t rc = parts ? b.Receive(ps, rt) : b.Receive(m, rt);
                if (rc < 0) {
                    if (rc != kInterrupted && !(rc == kTimeout && rt >= 0)) { return fail("a reception returned " + std::to_string(rc)); }
                    if (ps.Size() != 0) { return fail("parts after a failed reception"); }
                    continue;
                }
                if (parts && ps.Size() != 2) { return fail("got " + std::to_string(ps.Size()) + " parts"); }
                auto& x = parts ? ps[1] : *m;
                if (x.GetSize() != static_cast<size_t>(4 + i % 7) || *static_cast<int*>(x.GetData()) != i) { return fail("message " + std::to_string(i) + " is lost, late or changed: got " + std::to_string(*static_cast<int*>(x.GetData()))); }
                if (rc != 4 + i % 7 + (parts ? 3 : 0)) { return fail("a reception returned " + std::to_string(rc)); }
                ++i;
            }
        });
        if (signals) {
            struct sigaction sa {};
            sa.sa_handler = [](int) {};
            sigaction(SIGUSR1, &sa, nullptr);
        }
        std::atomic<bool> txDone{false}, rxDone{false};
        const auto txh = tx.native_handle(), rxh = rx.native_handle();
        std::thread waiter([&] { tx.join(); txDone = true; });
        std::thread waiter2([&] { rx.join(); rxDone = true; });
        const int64_t end = pbt::NowMs() + 30000;
        while (!txDone || !rxDone) {
            usleep(static_cast<useconds_t>(every));
            if (!stop && pbt::NowMs() > end) { fail("the messages do not arrive"); }
            f[nInt % 2]->Interrupt();
            ++nInt;
            (void)txh;
            (void)rxh;
            if (every < 1000) { usleep(30); }
            if (signals) { kill(getpid(), SIGUSR1); }
            if (!stop) { f[0]->Resume(); f[1]->Resume(); }
        }
        waiter.join();
        waiter2.join();
        REQ(err.empty(), err);
        REQ_EQ(a.GetMessagesTx(), static_cast<unsigned long>(n), "messages sent");
        REQ_EQ(b.GetMessagesRx(), static_cast<unsigned long>(n), "messages received");
        REQ_EQ(a.GetBytesTx(), b.GetBytesRx(), "bytes sent and received");
    }
    f[0].reset();
    f[1].reset();
    if (shm) { std::remove(SessionFile().c_str()); }
}
