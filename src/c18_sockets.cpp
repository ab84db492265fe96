// C18: socket options read back what was set and take effect; C39: connected peers are counted correctly.
#include "msgworld.h"
#include <dirent.h>
#include <fairmq/Channel.h>
#include <map>
#include <netinet/in.h>
#include <set>
#include <sys/socket.h>
#include <zmq.h>
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
struct Env
{
    string session;
    ProgOptions cfg[2];
    std::shared_ptr<TransportFactory> f[2];
    bool shm;
    Env(bool sh, int n = 1) : session(NewSession()), shm(sh)
    {
        for (int i = 0; i < n; ++i) {
            cfg[i].SetProperty<string>("session", session);
            cfg[i].SetProperty<size_t>("shm-segment-size", 1 << 20);
            f[i] = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "dev" + std::to_string(i), &cfg[i]);
        }
    }
    ~Env()
    {
        f[0].reset();
        f[1].reset();
        if (shm) { std::remove(SessionFile().c_str()); }
    }
};
const std::vector<string> kTypes{"push", "pull", "pair", "req", "rep", "dealer", "router", "xpub", "xsub", "pub", "sub"};

struct Options
{
    std::map<string, int> v;
    void Check(Socket& k, const char* when)
    {
        REQ_EQ(k.GetLinger(), v["linger"], "linger " << when);
        REQ_EQ(k.GetSndBufSize(), v["snd-hwm"], "send buffer size " << when);
        REQ_EQ(k.GetRcvBufSize(), v["rcv-hwm"], "receive buffer size " << when);
        REQ_EQ(k.GetSndKernelSize(), v["snd-size"], "send kernel size " << when);
        REQ_EQ(k.GetRcvKernelSize(), v["rcv-size"], "receive kernel size " << when);
        for (auto& x : v) {
            int o = -77;
            size_t n = sizeof(o);
            k.GetOption(x.first, &o, &n);
            REQ_EQ(o, x.second, "option " << x.first << " " << when);
        }
    }
};
}   // namespace

#ifdef WITH_OPTIONS
CASE(options, 6)
{
    const bool shm = s.flip();
    Env e(shm);
    string type = kTypes[s.draw(shm ? kTypes.size() - 2 : kTypes.size())];
    c << (shm ? "shmem " : "zeromq ") << type << " ";
    Options o;
    SocketPtr k;
    std::unique_ptr<Channel> ch;
    if (s.flip()) {
        // options of a channel
        ch = std::make_unique<Channel>("ch", type, "bind", "inproc://x", e.f[0]);
        o.v = {{"linger", s.pick({500, 0, 1, -1, 100000})},
               {"snd-hwm", s.pick({1000, 0, 1, 1 << 30})},
               {"rcv-hwm", s.pick({1000, 0, 7, 123456})},
               {"snd-size", s.pick({0, 1, 4096, 1 << 24})},
               {"rcv-size", s.pick({0, 2, 4097, 1 << 25})}};
        ch->UpdateLinger(o.v["linger"]);
        ch->UpdateSndBufSize(o.v["snd-hwm"]);
        ch->UpdateRcvBufSize(o.v["rcv-hwm"]);
        ch->UpdateSndKernelSize(o.v["snd-size"]);
        ch->UpdateRcvKernelSize(o.v["rcv-size"]);
        ch->Init();
        for (auto& x : o.v) { c << x.first << "=" << x.second << " "; }
        if (o.v["snd-size"] == 0) { o.v["snd-size"] = -1; }   // 0 leaves the system's choice
        if (o.v["rcv-size"] == 0) { o.v["rcv-size"] = -1; }
        o.Check(ch->GetSocket(), "of a new channel");
        c.label("channel");
    } else {
        k = e.f[0]->CreateSocket(type, "k");
        o.v = {{"linger", k->GetLinger()}, {"snd-hwm", k->GetSndBufSize()}, {"rcv-hwm", k->GetRcvBufSize()}, {"snd-size", k->GetSndKernelSize()}, {"rcv-size", k->GetRcvKernelSize()}};
    }
    Socket& sock = k ? *k : ch->GetSocket();
    const int n = 1 + static_cast<int>(s.draw(10));
    for (int i = 0; i < n; ++i) {
        const auto what = s.draw(12);
        if (what == 10) {
            const string a = s.flip() ? "ipc://@" + e.session + std::to_string(i) : "inproc://" + std::to_string(i);
            REQ(sock.Bind(a), "bind");
            c << "bind ";
        } else if (what == 11) {
            REQ(sock.Connect("ipc://@nobody" + e.session), "connect");
            c << "connect ";
        } else {
            static const char* names[] = {"linger", "snd-hwm", "rcv-hwm", "snd-size", "rcv-size"};
            const string name = names[what % 5];
            int x = 0;
            switch (s.draw(4)) {
                case 0: x = static_cast<int>(s.draw(100)); break;
                case 1: x = -1 - static_cast<int>(s.draw(3)); break;
                case 2: x = static_cast<int>(s.u64() & 0x7fffffff); break;
                default: x = s.pick({0, 1, 1000, 0x7fffffff, -1});
            }
            const bool ok = x >= 0 || (x == -1 && name != "snd-hwm" && name != "rcv-hwm");
            const bool direct = s.chance(30);
            c << name << "=" << x << (direct ? "! " : " ");
            auto set = [&] {
                if (direct) { sock.SetOption(name, &x, sizeof(x)); }
                else if (name == "linger") { sock.SetLinger(x); }
                else if (name == "snd-hwm") { sock.SetSndBufSize(x); }
                else if (name == "rcv-hwm") { sock.SetRcvBufSize(x); }
                else if (name == "snd-size") { sock.SetSndKernelSize(x); }
                else { sock.SetRcvKernelSize(x); }
            };
            if (ok || direct) {
                set();
            } else {
                REQ_THROWS(SocketError, set(), "an invalid value for " << name);
                c.label("invalid");
            }
            if (ok) { o.v[name] = x; }
            c.nontrivial();
        }
        o.Check(sock, "after it was set");
    }
    if (s.chance(30)) {
        const string bad = s.pick<string>({"lingerr", "Linger", "sndhwm", " ", "no-option"});
        int x = 1;
        size_t z = sizeof(x);
        REQ_THROWS(std::exception, sock.SetOption(bad, &x, sizeof(x)), "setting an unknown option");
        REQ_THROWS(std::exception, sock.GetOption(bad, &x, &z), "reading an unknown option");
        REQ_THROWS(std::exception, e.f[0]->CreateSocket(bad, "x"), "a socket of an unknown type");
    }
    if (shm && s.chance(20)) { REQ_THROWS(SocketError, e.f[0]->CreateSocket(s.flip() ? "pub" : "sub", "x"), "a publisher or subscriber over shared memory"); }
    sock.SetLinger(0);
}

// the number of messages that fit
CASE(capacity, 3)
{
    const bool shm = s.flip();
    Env e(shm);
    const int sh = static_cast<int>(s.draw(20)), rh = static_cast<int>(s.draw(20));
    const bool viaChannel = s.flip();
    const string st = s.flip() ? "push" : "pair", rt = st == "push" ? "pull" : "pair";
    const int bind = static_cast<int>(s.draw(2));
    c << (shm ? "shmem " : "zeromq ") << st << " hwm " << sh << " " << rh << (viaChannel ? " channel" : " socket");
    c.nontrivial();
    auto make = [&](const string& type, int sn, int rc) {
        auto ch = std::make_unique<Channel>(type, type, "bind", "inproc://x", e.f[0]);
        if (viaChannel) {
            ch->UpdateSndBufSize(sn);
            ch->UpdateRcvBufSize(rc);
            ch->Init();
        } else {
            ch->Init();
            ch->GetSocket().SetSndBufSize(sn);
            ch->GetSocket().SetRcvBufSize(rc);
        }
        return ch;
    };
    auto a = make(st, sh, 3), b = make(rt, 4, rh);
    if (bind == 0) { REQ(a->Bind("inproc://x") && b->Connect("inproc://x"), "sockets"); } else { REQ(b->Bind("inproc://x") && a->Connect("inproc://x"), "sockets"); }
    int n = 0;
    for (; n < 100; ++n) {
        auto m = e.f[0]->CreateMessage(1);
        if (a->Send(m, 0) < 0) { break; }
    }
    // 0 on either side is no limit
    REQ_EQ(n, sh == 0 || rh == 0 ? 100 : sh + rh, "messages that could be sent without being received");
}

// how long undelivered messages keep the transport from ending
CASE(linger, 1)
{
    const bool shm = s.flip();
    const int ms = s.pick({0, 60, 150, 300});
    const bool viaChannel = s.flip();
    c << (shm ? "shmem " : "zeromq ") << ms << (viaChannel ? " channel" : " socket");
    c.nontrivial();
    int64_t t0 = 0;
    int64_t best = 1 << 20;
    // on a busy machine it can take longer, but not every time
    for (int i = 0; i < 5 && best > ms + 100; ++i) {
        {
            Env e(shm);
            Channel ch("ch", "push", "connect", "ipc://@x", e.f[0]);
            if (viaChannel) { ch.UpdateLinger(ms); }
            ch.Init();
            if (!viaChannel) { ch.GetSocket().SetLinger(ms); }
            REQ(ch.Connect("ipc://@nobody" + e.session), "connect");
            auto m = e.f[0]->CreateMessage(10);
            REQ_EQ(ch.Send(m, 1000), 10, "result of a send");
            t0 = pbt::NowMs();
        }
        best = std::min(best, pbt::NowMs() - t0);
        REQ(pbt::NowMs() - t0 + 5 >= ms, "the transport ended after " << pbt::NowMs() - t0 << " ms, with a linger time of " << ms);
    }
    REQ(best <= ms + 100, "the transport ended after " << best << " ms, with a linger time of " << ms);
}

// the sizes of the kernel's buffers
CASE(kernel, 2)
{
    const bool shm = s.flip();
    Env e(shm);
    const int sn = s.pick({5000, 20000, 70000, 1 << 22}), rc = s.pick({6000, 30000, 90000, 1 << 21});
    const bool viaChannel = s.flip();
    c << (shm ? "shmem " : "zeromq ") << sn << " " << rc << (viaChannel ? " channel" : " socket");
    c.nontrivial();
    auto fds = [] {
        std::set<int> v;
        DIR* d = opendir("/proc/self/fd");
        while (auto* x = readdir(d)) {
            int fd = atoi(x->d_name), type = 0;
            sockaddr_in a{};
            socklen_t n = sizeof(a), m = sizeof(type);
            if (getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0 && a.sin_family == AF_INET && getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &m) == 0 && type == SOCK_STREAM) { v.insert(fd); }
        }
        closedir(d);
        return v;
    };
    auto get = [](int fd, int opt) {
        int v = 0;
        socklen_t n = sizeof(v);
        getsockopt(fd, SOL_SOCKET, opt, &v, &n);
        return v;
    };
    // what the kernel makes of the sizes
    int ref = socket(AF_INET, SOCK_STREAM, 0);
    setsockopt(ref, SOL_SOCKET, SO_SNDBUF, &sn, sizeof(sn));
    setsockopt(ref, SOL_SOCKET, SO_RCVBUF, &rc, sizeof(rc));
    const int wantS = get(ref, SO_SNDBUF), wantR = get(ref, SO_RCVBUF);
    close(ref);
    const auto before = fds();
    Channel ch("ch", "pull", "bind", "tcp://127.0.0.1:1", e.f[0]);
    if (viaChannel) {
        ch.UpdateSndKernelSize(sn);
        ch.UpdateRcvKernelSize(rc);
    }
    ch.Init();
    if (!viaChannel) {
        ch.GetSocket().SetSndKernelSize(sn);
        ch.GetSocket().SetRcvKernelSize(rc);
    }
    string a = "tcp://127.0.0.1:" + std::to_string(20000 + s.draw(10000));
    REQ(ch.BindEndpoint(a), "bind");
    int found = 0;
    for (int fd : fds()) {
        if (before.count(fd)) { continue; }
        ++found;
        REQ_EQ(get(fd, SO_SNDBUF), wantS, "send buffer of the kernel");
        REQ_EQ(get(fd, SO_RCVBUF), wantR, "receive buffer of the kernel");
    }
    REQ_EQ(found, 1, "sockets of the system for a bound channel");
}
#endif

#ifdef WITH_PEERS
namespace {
struct Node
{
    std::unique_ptr<Channel> c;
    string type;
    int f = 0;
    std::set<string> bound, connected;
};
}   // namespace
CASE(peers, 1)
{
    const bool shm = s.flip();
    Env e(shm, 2);
    std::vector<std::unique_ptr<Node>> nodes;
    std::map<string, int> owner;   // address -> node
    std::vector<std::pair<string, string>> pairs{{"push", "pull"}, {"req", "rep"}, {"dealer", "router"}, {"dealer", "dealer"}};
    if (!shm) { pairs.push_back({"pub", "sub"}); }
    const auto types = pairs[s.draw(pairs.size())];
    c << (shm ? "shmem " : "zeromq ") << types.first << "/" << types.second << ": ";
    auto count = [&](size_t i) {
        unsigned long n = 0;
        for (auto& a : nodes[i]->connected) { n += owner.count(a); }
        for (size_t k = 0; k < nodes.size(); ++k) {
            if (!nodes[k]) { continue; }
            for (auto& a : nodes[k]->connected) {
                auto it = owner.find(a);
                n += it != owner.end() && it->second == static_cast<int>(i);
            }
        }
        return n;
    };
    auto check = [&] {
        // connections come and go on their own time, so wait until all is as it should be
        const int64_t end = pbt::NowMs() + 8000;
        while (true) {
            const bool last = pbt::NowMs() > end;
            bool ok = true;
            for (size_t i = 0; i < nodes.size(); ++i) {
                if (!nodes[i]) { continue; }
                const auto n = nodes[i]->c->GetNumberOfConnectedPeers();
                if (last) { REQ_EQ(n, count(i), "peers of socket " << i); }
                ok = ok && n == count(i);
            }
            if (ok) { break; }
            usleep(500);
        }
    };
    int nextAddr = 0;
    std::vector<std::pair<string, bool>> addresses;   // and whether its owner is of the first type
    const int steps = 2 + static_cast<int>(s.draw(14));
    for (int i = 0; i < steps; ++i) {
        const auto op = s.draw(8);
        if (op <= 3 || nodes.empty()) {
            // a new socket, bound or connected
            auto n = std::make_unique<Node>();
            const bool first = s.flip();
            n->type = first ? types.first : types.second;
            n->f = static_cast<int>(s.draw(2));
            n->c = std::make_unique<Channel>(s.chance(40) ? "same" : "n" + std::to_string(nodes.size()), n->type, e.f[n->f]);
            n->c->GetSocket().SetLinger(0);
            REQ_EQ(n->c->GetNumberOfConnectedPeers(), 0u, "peers of a new socket");
            c << "new" << nodes.size() << "(" << n->type << ") ";
            nodes.push_back(std::move(n));
        }
        const int k = static_cast<int>(s.draw(nodes.size()));
        if (!nodes[k]) { continue; }
        Node& n = *nodes[k];
        const bool first = n.type == types.first && (types.first != types.second || s.flip());
        if (op == 4 && s.flip()) {
            c << "end" << k << " ";
            for (auto& a : n.bound) { owner.erase(a); }
            nodes[k].reset();
            c.label("end");
        } else if (s.chance(40)) {
            // bind to a new or abandoned address
            string a;
            std::vector<string> old;
            for (auto& x : addresses) {
                if (!owner.count(x.first) && x.second == first) { old.push_back(x.first); }
            }
            if (!old.empty() && s.chance(70)) {
                a = old[s.draw(old.size())];
                const int64_t end = pbt::NowMs() + 10000;
                bool ok = false;
                while (!(ok = n.c->Bind(a)) && pbt::NowMs() < end) { usleep(2000); }
                if (!ok) { throw pbt::Discard{}; }
                c.label("bound again");
            } else {
                a = s.flip() ? "ipc://@" + e.session + "_" + std::to_string(nextAddr++) : "tcp://127.0.0.1:" + std::to_string(20000 + pbt::Mix(s.u64() + static_cast<uint64_t>(getpid())) % 10000);
                if (!n.c->BindEndpoint(a)) { continue; }
                addresses.emplace_back(a, first);
            }
            // only sockets of the other type may be connected to it
            bool self = false;
            if (n.connected.count(a)) { self = true; }
            if (self) { throw pbt::Discard{}; }
            n.bound.insert(a);
            owner[a] = k;
            c << "bind" << k << "(" << a.substr(0, 3) << ") ";
        } else {
            std::vector<string> v;
            for (auto& x : addresses) {
                const bool fits = types.first == types.second || x.second != (n.type == types.first);
                if (fits && !n.connected.count(x.first) && !n.bound.count(x.first)) { v.push_back(x.first); }
            }
            if (v.empty()) { continue; }
            const string a = v[s.draw(v.size())];
            REQ(n.c->ConnectEndpoint(a), "connect");
            n.connected.insert(a);
            c << "connect" << k << "(" << a.substr(0, 3) << (owner.count(a) ? ") " : " nobody) ");
            c.nontrivial();
        }
        if (s.chance(60)) { check(); }
    }
    check();
    nodes.clear();
}
#endif
