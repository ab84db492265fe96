// C14: the poller reports exactly the channels that are ready.
#include "msgworld.h"
#include <csignal>
#include <deque>
#include <fairmq/Device.h>
#include <fairmq/zeromq/Socket.h>
#include <map>
#include <sys/time.h>
#include <thread>
#include <zmq.h>
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] {
    CleanPredecessor();
    struct sigaction sa{};
    sa.sa_handler = [](int) {};
    sigaction(SIGUSR1, &sa, nullptr);
}};

namespace {
using Unit = std::vector<string>;   // the parts; one: may have been sent as a single message
struct Sent
{
    bool parts;
    Unit u;
};
// one polled channel and its peer
struct End
{
    string name;   // of the group
    size_t index = 0;
    string type, peerType;
    bool shm = false, inproc = true, connected = false;
    int cap = 0;                 // places in each direction, 0: unlimited
    std::unique_ptr<Channel> peer;
    std::deque<Sent> in, out;    // waiting at the polled channel and at the peer
    bool wasFull = false, read = false;   // it is not known when it becomes writable again
    enum { idle, requested, replying } state = idle;   // REQ and REP
    string address;
    bool CanRead() const { return type != "push" && type != "pub" && type != "xpub"; }
    bool CanWrite() const { return type != "pull" && type != "sub" && type != "xsub"; }
    bool Queues() const { return type == "push" || type == "pair" || type == "dealer"; }
};
struct Polled
{
    PollerPtr p;
    std::vector<int> ends;
    bool byKey = false, byIndex = true;
    bool shm = false;
    std::vector<std::pair<bool, bool>> last;   // last reported
};
}   // namespace

CASE(poller, 1)
{
    const string session = NewSession();
    ProgOptions cfg;
    cfg.SetProperty<string>("session", session);
    cfg.SetProperty<string>("id", "dev");
    cfg.SetProperty<size_t>("shm-segment-size", 2 << 20);
    std::shared_ptr<TransportFactory> f[2];
    const auto use = s.draw(3);   // zeromq, shmem, both
    for (size_t i = 0; i < 2; ++i) {
        if (use == i || use == 2) { f[i] = TransportFactory::CreateTransportFactory(i ? "shmem" : "zeromq", "dev", &cfg); }
    }
    struct Cleanup
    {
        bool on;
        ~Cleanup()
        {
            if (on) { std::remove(SessionFile().c_str()); }
        }
    } cleanup{f[1] != nullptr};
    Device d;
    d.SetConfig(cfg);
    auto& chans = d.GetChannels();

    // groups of channels
    std::vector<End> ends;
    const bool onlyInput = s.chance(40);
    const size_t nGroups = 1 + s.draw(4);
    std::vector<string> names;
    for (size_t g = 0; g < nGroups; ++g) {
        const string name = s.pick<string>({"a", "data", "x[0]", "ab", "a.b"}) + (s.chance(80) ? std::to_string(g) : "");
        if (chans.count(name)) { continue; }
        names.push_back(name);
        const bool shm = use == 2 ? s.flip() : use == 1;
        const size_t subs = 1 + s.draw(4);
        auto& v = chans[name];
        for (size_t i = 0; i < subs; ++i) {
            End e;
            e.name = name;
            e.index = i;
            e.shm = shm;
            std::vector<std::pair<string, string>> types{{"pull", "push"}, {"push", "pull"}, {"pair", "pair"}, {"req", "rep"}, {"rep", "req"}, {"dealer", "dealer"}};
            if (!shm) {
                types.insert(types.end(), {{"sub", "pub"}, {"pub", "sub"}, {"xpub", "sub"}, {"xsub", "pub"}});
            }
            if (onlyInput) {
                types = {{"pull", "push"}, {"rep", "req"}};
                if (!shm) { types.insert(types.end(), {{"sub", "pub"}, {"xsub", "pub"}}); }
            }
            const auto& t = types[s.draw(types.size())];
            e.type = t.first;
            e.peerType = t.second;
            e.inproc = e.type != "xsub" && !s.chance(20);
            const bool pubsub = e.type == "sub" || e.type == "pub" || e.type == "xpub" || e.type == "xsub";
            const int hs = pubsub || s.chance(30) ? 0 : 1 + static_cast<int>(s.draw(3)), hr = hs == 0 ? 0 : 1 + static_cast<int>(s.draw(2));
            e.cap = hs + hr;
            e.address = (e.inproc ? "inproc://" : "ipc://@" + session) + std::to_string(ends.size());
            v.emplace_back(name + "[" + std::to_string(i) + "]", e.type, "bind", e.address, f[shm]);
            e.peer = std::make_unique<Channel>("peer" + std::to_string(ends.size()), e.peerType, "connect", e.address, f[shm]);
            for (auto* ch : {&v.back(), e.peer.get()}) {
                ch->UpdateSndBufSize(hs);
                ch->UpdateRcvBufSize(hr);
                ch->UpdateLinger(0);
            }
            ends.push_back(std::move(e));
        }
        for (auto& ch : v) { ch.Init(); }
    }
    for (auto& e : ends) { e.peer->Init(); }
    auto polled = [&](const End& e) -> Channel& { return chans.at(e.name).at(e.index); };
    auto connect = [&](End& e) {
        bool swap = s.flip();
        if (e.type == "sub" || e.type == "xsub") { swap = true; }
        if (e.type == "pub" || e.type == "xpub") { swap = false; }
        Channel& x = polled(e);
        // the side that publishes is bound first, so that it knows of the subscription
        Channel &b = swap ? *e.peer : x, &k = swap ? x : *e.peer;
        REQ(b.Bind(e.address) && k.Connect(e.address), "bind and connect");
        if (e.type == "xsub") {
            char sub = 1;
            zmq_send(static_cast<zmq::Socket&>(x.GetSocket()).GetSocket(), &sub, 1, 0);
        }
        if (!e.inproc) {
            const int64_t end = pbt::NowMs() + 10000;
            while (x.GetNumberOfConnectedPeers() == 0 || e.peer->GetNumberOfConnectedPeers() == 0) {
                if (pbt::NowMs() > end) { throw pbt::Discard{}; }
                usleep(500);
            }
            // and until the handshake is over
            auto ready = [&](Channel& ch, bool in, bool out) {
                const int64_t t = pbt::NowMs() + 10000;
                uint32_t ev = 0;
                while (true) {
                    ch.GetSocket().Events(&ev);
                    if ((!in || (ev & ZMQ_POLLIN)) && (!out || (ev & ZMQ_POLLOUT))) { break; }
                    if (pbt::NowMs() > t) { throw pbt::Discard{}; }
                    usleep(200);
                }
            };
            if (e.Queues() || e.type == "req") { ready(x, false, true); }
            if (e.peerType == "push" || e.peerType == "pair" || e.peerType == "dealer" || e.peerType == "req") { ready(*e.peer, false, true); }
            if (e.type == "xpub") {
                // its subscription
                ready(x, true, false);
                auto m = f[e.shm]->CreateMessage();
                x.Receive(m, 0);
            }
            if (e.type == "xsub" || e.type == "sub" || e.type == "pub") { usleep(100000); }
        }
        e.connected = true;
    };
    for (auto& e : ends) {
        if (!s.chance(20) || !e.inproc) { connect(e); }
        c << e.name << "[" << e.index << "]:" << e.type << (e.shm ? "/shm" : "") << (e.inproc ? "" : "/ipc") << "/" << e.cap << (e.connected ? " " : "- ");
    }
    c << ": ";

    // what must be reported; -1: not known
    auto readable = [&](const End& e) { return e.CanRead() && !e.in.empty() && e.state != End::replying; };
    auto writable = [&](const End& e) -> int {
        if (!e.CanWrite()) { return 0; }
        if (e.type == "pub" || e.type == "xpub") { return 1; }
        if (e.type == "req") { return e.connected && e.state == End::idle; }
        if (e.type == "rep") { return e.state == End::replying; }
        if (!e.connected) { return 0; }
        if (e.cap == 0) { return 1; }
        if (!e.inproc) { return e.out.empty() && !e.wasFull ? 1 : -1; }
        if (static_cast<int>(e.out.size()) >= e.cap) { return 0; }
        if (!e.read) { return 1; }
        // places are given back in batches
        return static_cast<int>(e.out.size()) + (e.cap + 1) / 2 <= e.cap ? 1 : -1;
    };
    uint64_t seed = 0;
    auto send = [&](Channel& ch, bool shm, bool single, Sent& what) {
        auto& fac = f[shm];
        // libzmq looks at returned places only now and then when sending without waiting
        uint32_t ev = 0;
        ch.GetSocket().Events(&ev);
        const size_t n = single || s.chance(60) ? 1 : 2 + s.draw(3);
        what.parts = n > 1 || (!single && s.chance(20));
        Parts ps;
        for (size_t i = 0; i < n; ++i) {
            string t = std::to_string(seed++);
            t.resize(t.size() + s.draw(20), 'x');
            if (s.chance(10)) { t.clear(); }
            auto m = fac->CreateMessage(t.size());
            memcpy(m->GetData(), t.data(), t.size());
            ps.AddPart(std::move(m));
            what.u.push_back(std::move(t));
        }
        if (what.parts) { return ch.Send(ps, 0) >= 0; }
        return ch.Send(ps.At(0), 0) >= 0;
    };
    auto receive = [&](Channel& ch, bool shm, const Sent& what, const char* who, bool inproc) {
        const int t = inproc ? 0 : 20000;   // what was sent may still be on its way
        Unit got;
        if (what.parts) {
            Parts ps;
            REQ(ch.Receive(ps, t) >= 0, who << ": a reception failed although a message is waiting");
            for (auto& m : ps) { got.emplace_back(static_cast<char*>(m->GetData()), m->GetSize()); }
        } else {
            auto m = f[shm]->CreateMessage();
            REQ(ch.Receive(m, t) >= 0, who << ": a reception failed although a message is waiting");
            got.emplace_back(static_cast<char*>(m->GetData()), m->GetSize());
        }
        REQ(got == what.u, who << ": the message received is not the one that was waiting");
    };
    auto cannotReceive = [&](Channel& ch, bool shm) {
        auto m = f[shm]->CreateMessage();
        return ch.Receive(m, 0) < 0;
    };
    // the peer sends to the polled channel
    auto peerSends = [&](End& e) {
        if (!e.CanRead() || !e.connected) { return false; }
        if (e.type == "rep" && (e.state != End::idle || !e.in.empty())) { return false; }
        if (e.type == "req" && (e.state != End::requested || e.out.empty())) { return false; }
        if (e.in.size() >= 6) { return false; }
        if (e.type == "req") {
            receive(*e.peer, e.shm, e.out.front(), "peer", e.inproc);
            e.out.pop_front();
        }
        Sent m;
        if (!send(*e.peer, e.shm, e.type == "req" || e.type == "rep", m)) {
            REQ(e.cap != 0 && (static_cast<int>(e.in.size()) + (e.cap + 1) / 2 > e.cap || !e.inproc), "sending to a polled channel with free places failed");
            return false;
        }
        e.in.push_back(std::move(m));
        if (!e.inproc) {
            const int64_t end = pbt::NowMs() + 10000;
            uint32_t ev = 0;
            while (!(ev & ZMQ_POLLIN)) {
                polled(e).GetSocket().Events(&ev);
                REQ(pbt::NowMs() < end, "the message that was sent does not arrive");
                usleep(200);
            }
        }
        return true;
    };

    std::vector<Polled> pollers;
    auto check = [&](Polled& p, bool polledNow) {
        for (size_t i = 0; i < p.ends.size(); ++i) {
            End& e = ends[p.ends[i]];
            bool in = false, out = false;
            if (p.byIndex) {
                in = p.p->CheckInput(static_cast<int>(i));
                out = p.p->CheckOutput(static_cast<int>(i));
            }
            if (p.byKey) {
                const bool in2 = p.p->CheckInput(e.name, static_cast<int>(e.index)), out2 = p.p->CheckOutput(e.name, static_cast<int>(e.index));
                REQ(!p.byIndex || (in == in2 && out == out2), "a channel is reported differently by name and by index");
                in = in2;
                out = out2;
            }
            if (polledNow) {
                REQ_EQ(in, readable(e), "readable: " << e.name << "[" << e.index << "] (" << e.type << "), " << e.in.size() << " messages waiting");
                const int w = writable(e);
                if (w >= 0) { REQ_EQ(out, w == 1, "writable: " << e.name << "[" << e.index << "] (" << e.type << "), " << e.out.size() << " of " << e.cap << " messages on the way"); }
                p.last[i] = {in, out};
            } else {
                REQ(p.last[i] == std::make_pair(in, out), "what was reported changed without a poll");
            }
        }
    };
    const int steps = 4 + static_cast<int>(s.draw(40));
    for (int step = 0; step < steps; ++step) {
        const auto op = s.draw(14);
        End& e = ends[s.draw(ends.size())];
        Channel& ch = polled(e);
        if (op == 0 || pollers.empty()) {
            Polled p;
            const bool sh = p.shm = use == 2 ? s.flip() : use == 1;
            std::vector<string> list;
            for (auto& n : names) {
                if (chans.at(n).at(0).GetTransportType() == (sh ? Transport::SHM : Transport::ZMQ) && s.chance(80)) { list.push_back(n); }
            }
            for (size_t i = list.size(); i > 1; --i) { std::swap(list[i - 1], list[s.draw(i)]); }
            if (list.empty()) { continue; }
            auto add = [&](const string& n) {
                for (size_t i = 0; i < ends.size(); ++i) {
                    if (ends[i].name == n) { p.ends.push_back(static_cast<int>(i)); }
                }
            };
            const auto form = s.draw(5);
            if (form == 0) {
                // a vector of channels
                p.p = f[sh]->CreatePoller(chans.at(list[0]));
                add(list[0]);
            } else if (form == 1 || form == 2) {
                // any channels in any order
                for (auto& n : list) { add(n); }
                for (size_t i = p.ends.size(); i > 1; --i) { std::swap(p.ends[i - 1], p.ends[s.draw(i)]); }
                p.ends.resize(1 + s.draw(p.ends.size()));
                std::vector<Channel*> v;
                for (int i : p.ends) { v.push_back(&polled(ends[i])); }
                p.p = form == 1 ? f[sh]->CreatePoller(v) : d.NewPoller(v);
            } else {
                if (form == 4) { list.resize(std::min<size_t>(list.size(), 3)); }
                for (auto& n : list) { add(n); }
                p.byKey = true;
                p.p = form == 3          ? f[sh]->CreatePoller(chans, list)
                      : list.size() == 1 ? d.NewPoller(list[0])
                      : list.size() == 2 ? d.NewPoller(list[0], list[1])
                                         : d.NewPoller(list[0], list[1], list[2]);
                REQ_THROWS(PollerError, p.p->CheckInput("nobody", 0), "asking for an unknown channel");
                REQ_THROWS(PollerError, p.p->CheckOutput("", 0), "asking for an unknown channel");
            }
            p.last.assign(p.ends.size(), {false, false});
            c << "poller" << pollers.size() << "(";
            for (int i : p.ends) { c << ends[i].name << "[" << ends[i].index << "] "; }
            c << ") ";
            check(p, false);   // nothing before the first poll
            pollers.push_back(std::move(p));
        } else if (op <= 4) {
            if (peerSends(e)) { c << "in(" << e.name << e.index << ") "; }
        } else if (op == 5) {
            // receive from the polled channel
            if (!e.CanRead()) { continue; }
            if (e.in.empty()) {
                if (!e.connected || e.type == "req" || e.type == "rep") { continue; }
                REQ(cannotReceive(ch, e.shm), "received a message that was not sent");
                continue;
            }
            if (e.type == "rep" && e.state == End::replying) { continue; }
            c << "recv(" << e.name << e.index << ") ";
            receive(ch, e.shm, e.in.front(), "polled", e.inproc);
            e.in.pop_front();
            if (!e.inproc && !e.in.empty()) {
                const int64_t end = pbt::NowMs() + 10000;
                uint32_t ev = 0;
                while (!(ev & ZMQ_POLLIN)) {
                    ch.GetSocket().Events(&ev);
                    REQ(pbt::NowMs() < end, "the message that was sent does not arrive");
                    usleep(200);
                }
            }
            if (e.type == "rep") { e.state = End::replying; }
            if (e.type == "req") { e.state = End::idle; }
        } else if (op <= 7) {
            // send on the polled channel
            if (!e.CanWrite()) { continue; }
            const int w = writable(e);
            if (w == 0 && (e.type == "req" || e.type == "rep")) { continue; }
            Sent m;
            const bool ok = send(ch, e.shm, e.type == "req" || e.type == "rep", m);
            c << "send(" << e.name << e.index << (ok ? ") " : ":full) ");
            if (w >= 0) { REQ_EQ(ok, w == 1, "a send succeeds"); }
            if (ok) {
                if (e.type == "pub" || e.type == "xpub") {
                    if (e.connected && e.inproc) { e.out.push_back(std::move(m)); }
                } else if (e.type != "rep") {
                    e.out.push_back(std::move(m));
                } else {
                    // the peer gets its reply
                    if (!e.inproc) {
                        uint32_t ev = 0;
                        const int64_t end = pbt::NowMs() + 10000;
                        while (!(ev & ZMQ_POLLIN) && pbt::NowMs() < end) {
                            e.peer->GetSocket().Events(&ev);
                            usleep(200);
                        }
                    }
                    receive(*e.peer, e.shm, m, "peer", e.inproc);
                    e.state = End::idle;
                }
                if (e.type == "req") {
                    e.state = End::requested;
                    if (!e.inproc) {
                        uint32_t ev = 0;
                        const int64_t end = pbt::NowMs() + 10000;
                        while (!(ev & ZMQ_POLLIN) && pbt::NowMs() < end) {
                            e.peer->GetSocket().Events(&ev);
                            usleep(200);
                        }
                    }
                }
            }
            if (e.cap && (!ok || static_cast<int>(e.out.size()) >= e.cap || !e.inproc)) { e.wasFull = true; }
        } else if (op == 8) {
            // the peer receives
            if (e.out.empty() || !e.inproc || e.type == "req" || e.type == "xpub" || e.type == "pub") { continue; }
            c << "out(" << e.name << e.index << ") ";
            receive(*e.peer, e.shm, e.out.front(), "peer", e.inproc);
            e.out.pop_front();
            e.read = true;
        } else if (op == 9) {
            if (!e.connected) {
                connect(e);
                c << "connect(" << e.name << e.index << ") ";
            }
        } else if (op == 10 && use == 2 && s.flip()) {
            // transports are not mixed
            std::vector<Channel*> v;
            std::vector<string> list;
            for (auto& n : names) {
                v.push_back(&chans.at(n).at(0));
                list.push_back(n);
            }
            bool mixed = false;
            for (auto* x : v) { mixed = mixed || x->GetTransportType() != v[0]->GetTransportType(); }
            if (!mixed) { continue; }
            REQ_THROWS(std::runtime_error, d.NewPoller(v), "a poller for channels of different transports");
            for (size_t i = 1; i < list.size(); ++i) {
                if (v[i]->GetTransportType() != v[0]->GetTransportType()) { REQ_THROWS(std::runtime_error, d.NewPoller(list[0], list[i]), "a poller for channels of different transports"); }
            }
            c.label("mixed");
        } else if (op == 11 && s.chance(30)) {
            auto list = names;
            list.insert(list.begin() + static_cast<int>(s.draw(list.size() + 1)), "unknown");
            for (int i = 0; i < 2; ++i) {
                std::vector<string> l2;
                for (auto& n : list) {
                    if (n == "unknown" || chans.at(n).at(0).GetTransportType() == (i ? Transport::SHM : Transport::ZMQ)) { l2.push_back(n); }
                }
                if (f[i]) { REQ_THROWS(PollerError, f[i]->CreatePoller(chans, l2), "a poller for an unknown channel"); }
            }
        } else {
            const size_t k = s.draw(pollers.size());
            Polled& p = pollers[k];
            if (s.chance(30)) { check(p, false); }
            bool any = false, unknown = false;
            size_t nIn = 0;
            for (int i : p.ends) {
                any = any || readable(ends[i]) || writable(ends[i]) == 1;
                unknown = unknown || writable(ends[i]) < 0;
                nIn += readable(ends[i]);
            }
            const int64_t t0 = pbt::NowMs();
            if (any) {
                const int t = s.pick({0, 0, 1, -1, 60000});
                c << "poll" << k << "(" << t << ") ";
                p.p->Poll(t);   // a wait that does not end is noticed as a hang
                REQ(pbt::NowMs() - t0 < 30000, "the poll took " << pbt::NowMs() - t0 << " ms although a channel is ready");
            } else if (unknown) {
                p.p->Poll(0);
            } else {
                End& x = ends[p.ends[s.draw(p.ends.size())]];
                const bool later = s.chance(50) && x.CanRead() && x.connected && x.inproc && x.type != "req" && x.type != "rep" && x.type != "xsub";
                if (later) {
                    // a message comes while the poll is waiting
                    auto m = f[x.shm]->CreateMessage(1);
                    *static_cast<char*>(m->GetData()) = 'z';
                    const int t = s.pick({-1, 60000, 30000});
                    const int delay = s.chance(15) ? 1300 : static_cast<int>(s.draw(8));
                    const bool sig = s.chance(40);
                    const auto self = pthread_self();
                    c << "poll" << k << "(" << t << ", a message comes at " << x.name << x.index << ") ";
                    bool ok = false;
                    std::thread th([&] {
                        usleep(delay * 1000);
                        if (sig) {
                            // a signal is not the end of a poll
                            pthread_kill(self, SIGUSR1);
                            usleep(2000);
                        }
                        ok = x.peer->Send(m, 0) == 1;
                    });
                    p.p->Poll(t);
                    const auto took = pbt::NowMs() - t0;
                    th.join();
                    if (!ok) { throw pbt::Discard{}; }
                    REQ(took < 20000, "the poll did not end when a message came");
                    if (sig) { c.label("signal while waiting"); }
                    x.in.push_back(Sent{false, {"z"}});
                    c.label("while waiting");
                } else {
                    const int t = s.pick({0, 0, 5, 30});
                    c << "poll" << k << "(" << t << ": nothing) ";
                    p.p->Poll(t);
                    REQ(pbt::NowMs() - t0 + 1 >= t, "the poll ended after " << pbt::NowMs() - t0 << " of " << t << " ms although no channel is ready");
                    if (t == 0) { REQ(pbt::NowMs() - t0 < 5000, "a poll that must not wait took " << pbt::NowMs() - t0 << " ms"); }
                    c.label("nothing ready");
                }
            }
            check(p, true);
            if (p.ends.size() > 1 && nIn > 0 && nIn < p.ends.size()) { c.nontrivial(); }
            // what is reported is what happens
            for (size_t i = 0; i < p.ends.size(); ++i) {
                End& x = ends[p.ends[i]];
                if (writable(x) == -1 && s.flip()) {
                    Sent m;
                    const bool ok = send(polled(x), x.shm, false, m);
                    if (x.inproc || p.last[i].second) { REQ_EQ(ok, p.last[i].second, "a send succeeds, on a channel reported as " << (p.last[i].second ? "" : "not ") << "writable"); }
                    if (ok) { x.out.push_back(std::move(m)); }
                    c.label("writable again");
                }
            }
        }
    }
    // nothing was consumed by polling
    for (auto& e : ends) {
        if (e.state == End::replying) { continue; }
        while (!e.in.empty()) {
            receive(polled(e), e.shm, e.in.front(), "at the end", e.inproc);
            e.in.pop_front();
            if (e.type == "rep") { break; }
        }
    }
    pollers.clear();
}
