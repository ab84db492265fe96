// C19: a bound tcp channel gets the configured port or, if that is taken, one of its range, and says which.
#include "devworld.h"
#include <arpa/inet.h>
#include <boost/algorithm/string.hpp>
#include <map>
#include <netinet/in.h>
#include <set>
#include <sys/socket.h>
using namespace dw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
constexpr int kBlock = 1100;   // ports of one worker; all of them below those the system hands out
int Base() { return 6000 + pbt::WorkerId() % 9 * kBlock; }
int gNext = 0;

int Listen(int port, bool any)
{
    const int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    const int one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(static_cast<uint16_t>(port));
    a.sin_addr.s_addr = htonl(any ? INADDR_ANY : INADDR_LOOPBACK);
    if (bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0 || listen(fd, 5) != 0) {
        close(fd);
        return -1;
    }
    return fd;
}
bool Free(int port)
{
    const int fd = Listen(port, true);
    if (fd >= 0) { close(fd); }
    return fd >= 0;
}
// n neighbouring ports nobody uses
int Window(int n)
{
    for (int tries = 0; tries < 200; ++tries) {
        if (gNext + n > kBlock) { gNext = 0; }
        const int w = Base() + gNext;
        gNext += n;
        bool ok = true;
        for (int p = w; p < w + n && ok; ++p) { ok = Free(p); }
        if (ok) { return w; }
    }
    throw pbt::Discard{};
}
struct Occupied
{
    std::map<int, int> fds;
    ~Occupied() { for (auto& f : fds) { close(f.second); } }
    void Take(int port, bool any)
    {
        if (fds.count(port)) { return; }
        const int fd = Listen(port, any);
        if (fd < 0) { throw pbt::Discard{}; }
        fds[port] = fd;
    }
};

struct End
{
    string protocol;   // tcp, ipc
    string modifier;   // "", "@", "+", ">"
    string host;       // as configured
    int port = 0;
    bool bind = false;
    string address;    // of an ipc endpoint
    string Text() const { return modifier + (protocol == "tcp" ? "tcp://" + host + ":" + std::to_string(port) : address); }
};
struct Sub
{
    string name;
    int index;
    string type, transport, method;
    bool autoBind = true, autoGiven = true, unspecified = false;
    int lo, hi;
    std::vector<End> ends;
    string Key(const string& k) const { return "chans." + name + "." + std::to_string(index) + "." + k; }
    string Address() const
    {
        string a;
        for (auto& e : ends) { a += (a.empty() ? "" : ",") + e.Text(); }
        return a;
    }
};
string Resolved(const string& host) { return host == "localhost" ? "127.0.0.1" : host; }
bool LocalhostWorks()
{
    static const bool b = tools::getIpFromHostname("localhost") == "127.0.0.1";
    return b;
}
}   // namespace

RACY_CASE(bind, 1, 60000)
{
    SessionGuard guard;
    ProgOptions cfg, peerCfg;
    for (auto* p : {&cfg, &peerCfg}) {
        p->SetProperty<string>("session", guard.session);
        p->SetProperty<size_t>("shm-segment-size", 4 << 20);
        p->SetProperty<bool>("shm-monitor", false);
    }
    cfg.SetProperty<string>("id", "dev");
    cfg.SetProperty<int>("init-timeout", 1);
    const string def = s.pick({"zeromq", "zeromq", "shmem"});
    cfg.SetProperty<string>("transport", def);
    c << def << " ";
    std::shared_ptr<TransportFactory> f[2];
    auto factory = [&](const string& t) {
        const int i = (t == "default" ? def : t) == "shmem";
        if (!f[i]) { f[i] = TransportFactory::CreateTransportFactory(i ? "shmem" : "zeromq", "peer", &peerCfg); }
        return f[i];
    };
    // the window: the first part is the range, the rest are other ports
    const int nRange = 1 + static_cast<int>(s.size(16)), nOther = 12, w = Window(nRange + nOther);
    const bool badRange = s.chance(4);
    const int lo = w, hi = w + nRange - 1, other = w + nRange;
    Occupied occ;
    const int howMany = static_cast<int>(s.weighted({30, 40, 30}));   // occupied: few, some, most
    for (int p = lo; p <= hi; ++p) { if (s.chance(howMany == 0 ? 5 : howMany == 1 ? 40 : 85)) { occ.Take(p, s.flip()); } }
    for (int p = other; p < other + nOther; ++p) { if (s.chance(30)) { occ.Take(p, s.flip()); } }
    int freeInRange = 0;
    for (int p = lo; p <= hi; ++p) { freeInRange += !occ.fds.count(p); }
    c << "range " << nRange << " free " << freeInRange << (badRange ? " (bad)" : "");
    // channels
    std::vector<Sub> subs;
    std::map<int, int> wanted;    // port outside of the range -> by how many endpoints
    std::set<int> exact;          // those asked for with automatic binding off
    const size_t names = 1 + s.draw(3);
    int nextExact = other + nOther - 1;
    const bool withInterface = s.chance(12);
    size_t interfaceEnds = 0;
    if (withInterface) { cfg.SetProperty<string>("network-interface", s.pick({"lo", "lo", "default"})); }
    const string interface = cfg.GetProperty<string>("network-interface", "default");
    std::map<string, std::unique_ptr<Channel>> farEnds;   // bound ipc peers of connecting endpoints
    int nBind = 0;
    for (size_t n = 0; n < names; ++n) {
        const size_t k = 1 + s.size(4);
        for (size_t i = 0; i < k; ++i) {
            Sub u;
            u.name = string(1, static_cast<char>('a' + n)) + s.pick({"", "-in"});
            if (i > 0) { u.name = subs.back().name; }
            u.index = static_cast<int>(i);
            u.type = i > 0 ? subs.back().type : s.pick({"pull", "pull", "dealer", "pair"});
            u.transport = s.pick({"default", "default", "zeromq", "shmem"});
            u.method = s.weighted({92, 8}) == 0 ? "bind" : "connect";
            u.lo = lo;
            u.hi = hi;
            u.autoBind = s.chance(85);
            u.autoGiven = !u.autoBind || s.flip();
            if (withInterface && u.method == "bind" && s.chance(50)) {
                u.unspecified = true;
                u.autoBind = true;
                ++interfaceEnds;
                ++nBind;
                subs.push_back(u);
                continue;
            }
            size_t nEnds = u.type == "pair" ? 1 : 1 + s.weighted({75, 18, 7});
            for (size_t e = 0; e < nEnds; ++e) {
                End end;
                const size_t kind = u.method == "connect" && e == 0 ? 0 : s.weighted({80, 8, 12});
                if (kind == 0) {   // a bound tcp endpoint
                    end.protocol = "tcp";
                    end.bind = true;
                    end.modifier = u.method == "connect" || s.chance(15) ? "@" : "";
                    end.host = LocalhostWorks() ? s.pick({"127.0.0.1", "*", "localhost"}) : s.pick({"127.0.0.1", "*"});
                    if (!u.autoBind) {   // a port nobody else asks for, or a taken one outside the range
                        end.port = nextExact--;
                        if (nextExact < other + 6) { throw pbt::Discard{}; }
                        exact.insert(end.port);
                    } else if (s.flip()) {
                        end.port = lo + static_cast<int>(s.draw(nRange));
                    } else {
                        end.port = other + static_cast<int>(s.draw(6));
                        ++wanted[end.port];
                    }
                    ++nBind;
                } else {
                    end.protocol = "ipc";
                    end.bind = kind == 1;
                    end.modifier = end.bind ? s.pick({"@", ""}) : s.pick({"+", ">"});
                    if (end.bind && u.method == "connect") { end.modifier = "@"; }
                    end.address = Ipc(u.name + std::to_string(i) + "_" + std::to_string(e));
                }
                u.ends.push_back(end);
            }
            subs.push_back(u);
        }
    }
    // one range for all: if the ports suffice does not depend on the order
    bool fits = true;
    int outside = 0;
    for (auto& [p, k] : wanted) { outside += !occ.fds.count(p); }
    for (int p : exact) {
        fits = fits && !occ.fds.count(p);
        ++outside;   // (if taken, it does not fit anyway)
    }
    int need = nBind - outside;
    if (badRange) {
        // a range that holds nothing: only what is asked for can be had, and only once
        std::map<int, int> want;
        for (auto& u : subs) { for (auto& e : u.ends) { if (e.bind && e.protocol == "tcp") { ++want[e.port]; } } }
        for (auto& [p, k] : want) { fits = fits && k == 1 && !occ.fds.count(p); }
        if (withInterface) { throw pbt::Discard{}; }
    } else if (interfaceEnds > 0) {   // port 1 may or may not be had
        if (need <= freeInRange + 1 && need > freeInRange) { throw pbt::Discard{}; }
        fits = fits && need <= freeInRange;
    } else {
        fits = fits && need <= freeInRange;
    }
    if (interface == "default" && interfaceEnds > 0 && !fits) { throw pbt::Discard{}; }   // ports of another interface are free or not on their own
    for (auto& u : subs) {
        cfg.SetProperty<string>(u.Key("type"), u.type);
        cfg.SetProperty<string>(u.Key("method"), u.method);
        if (!u.unspecified) { cfg.SetProperty<string>(u.Key("address"), u.Address()); }
        else if (s.flip()) { cfg.SetProperty<string>(u.Key("address"), s.pick({"", "unspecified"})); }
        cfg.SetProperty<string>(u.Key("transport"), u.transport);
        cfg.SetProperty<int>(u.Key("portRangeMin"), badRange ? hi + 1 : u.lo);
        cfg.SetProperty<int>(u.Key("portRangeMax"), badRange ? lo : u.hi);
        if (u.autoGiven) { cfg.SetProperty<bool>(u.Key("autoBind"), u.autoBind); }
        c << " " << u.name << u.index << ":" << u.type << " " << u.method << (u.autoBind ? "" : " exact");
        for (auto& e : u.ends) {
            c << " " << e.modifier << e.protocol;
            if (e.protocol == "tcp") { c << ":" << e.host << ":" << (e.port < other ? "r" : "o") << (e.port < other ? e.port - lo : e.port - other) << (occ.fds.count(e.port) ? "!" : ""); }
            if (!e.bind) {
                farEnds[e.address] = std::make_unique<Channel>("peer", u.type == "pull" ? "push" : u.type, factory(u.transport));
                REQ(farEnds[e.address]->Bind(e.address), "the peer cannot bind to " << e.address);
            }
        }
    }
    c << (fits ? " fits" : " does not fit");
    bool moved = false;
    {
        Device d;
        d.SetConfig(cfg);
        Driver dr(d);
        const size_t rounds = fits && s.chance(25) ? 2 : 1;
        for (size_t r = 0; r < rounds; ++r) {
            dr.To(T::InitDevice, S::InitializingDevice);
            dr.To(T::CompleteInit, S::Initialized);
            if (!fits) {
                dr.Clear();
                REQ(d.ChangeState(T::Bind), "bind was refused");
                for (int64_t t0 = pbt::NowMs(); !dr.Reached(S::Bound) && !dr.Ended(); std::this_thread::sleep_for(std::chrono::microseconds(500))) {
                    REQ(pbt::NowMs() - t0 < 20000, "the device neither binds nor fails");
                }
                if (!dr.Ended()) {
                    REQ(d.ChangeState(T::Connect), "connect was refused");
                    for (int64_t t0 = pbt::NowMs(); !dr.Reached(S::DeviceReady) && !dr.Ended(); std::this_thread::sleep_for(std::chrono::microseconds(500))) {
                        REQ(pbt::NowMs() - t0 < 20000, "the device neither connects nor fails");
                    }
                }
                REQ(dr.Reached(S::Error) && dr.WaitEnd() && dr.Threw(), "the device initialized although there are too few ports: " << [&] {
                    string t;
                    for (auto& u : subs) { t += cfg.GetProperty<string>(u.Key("address"), "") + " "; }
                    return t;
                }());
                break;
            }
            dr.To(T::Bind, S::Bound);
            dr.To(T::Connect, S::DeviceReady);
            dr.To(T::InitTask, S::Ready);
            std::map<int, string> used;   // port -> host
            std::vector<std::pair<string, string>> all;   // for the next round
            for (auto& u : subs) {
                auto& ch = d.GetChannel(u.name, u.index);
                const string got = ch.GetAddress(), where = u.name + "[" + std::to_string(u.index) + "] (" + (u.unspecified ? "unspecified" : u.Address()) + "): ";
                REQ_EQ(cfg.GetProperty<string>(u.Key("address"), "(none)"), got, where << "the configuration tells another address than the channel");
                std::vector<string> parts;
                boost::algorithm::split(parts, got, boost::algorithm::is_any_of(","));
                if (u.unspecified) {
                    u.ends = {End{}};
                    u.ends[0].protocol = "tcp";
                    u.ends[0].bind = true;
                    u.ends[0].port = 1;
                    u.ends[0].host = interface == "lo" ? "127.0.0.1" : got.size() > 6 ? got.substr(6, got.rfind(':') - 6) : "?";
                    u.unspecified = false;
                }
                REQ_EQ(parts.size(), u.ends.size(), where << "endpoints in " << got);
                for (size_t e = 0; e < parts.size(); ++e) {
                    auto& end = u.ends[e];
                    string a = parts[e];
                    const string mod = end.modifier == ">" ? "+" : end.modifier;
                    REQ(a.compare(0, mod.size(), mod) == 0, where << "endpoint " << e << " became " << a);
                    a = a.substr(mod.size());
                    if (end.protocol == "ipc") {
                        REQ_EQ(a, end.address, where << "ipc endpoint " << e);
                        continue;
                    }
                    const size_t colon = a.rfind(':');
                    REQ(a.compare(0, 6, "tcp://") == 0 && colon != string::npos && colon > 5, where << "endpoint " << e << " became " << a);
                    const string host = a.substr(6, colon - 6);
                    REQ_EQ(host, Resolved(end.host), where << "host of " << a);
                    const string digits = a.substr(colon + 1);
                    REQ(!digits.empty() && digits.find_first_not_of("0123456789") == string::npos && digits.size() < 6, where << "not a port: " << a);
                    const int port = atoi(digits.c_str());
                    const bool loop = host == "127.0.0.1" || host == "*";
                    if (used.count(port)) { REQ(used[port] != host && used[port] != "*" && host != "*", where << "port " << port << " is bound twice"); }
                    used[port] = host;
                    if (loop) { REQ(!occ.fds.count(port), where << "port " << port << " was in use"); }
                    REQ(port == end.port || (u.autoBind && port >= lo && port <= hi), where << "bound to " << port << ", the range is " << lo << "-" << hi);
                    if (port != end.port) {
                        moved = true;
                        const bool single = end.port >= other && wanted[end.port] == 1;
                        REQ(!(single && !occ.fds.count(end.port)), where << "bound to " << port << " although " << end.port << " was free");
                        REQ(r == 0, where << "bound to " << port << " after a reset although " << end.port << " was free");
                    }
                    REQ(!Free(port), where << "nobody listens at " << port);
                    end.port = port;
                    end.host = Resolved(end.host);
                }
            }
            // a peer that uses the published address reaches just this sub-channel
            for (auto& u : subs) {
                for (size_t e = 0; e < u.ends.size(); ++e) {
                    auto& end = u.ends[e];
                    const string tag = u.name + std::to_string(u.index) + "/" + std::to_string(e) + "/" + std::to_string(r);
                    std::unique_ptr<Channel> own;
                    Channel* peer = nullptr;
                    if (!end.bind) {
                        peer = farEnds.at(end.address).get();
                        if (u.type == "pair" && r > 0) { continue; }
                    } else {
                        own = std::make_unique<Channel>("p", u.type == "pull" ? "push" : u.type, factory(u.transport));
                        peer = own.get();
                        const string to = end.protocol == "ipc" ? end.address : "tcp://" + (end.host == "*" ? "127.0.0.1" : end.host) + ":" + std::to_string(end.port);
                        REQ(peer->Connect(to), "the peer cannot connect to " << to);
                    }
                    Load l{{tag}}, got;
                    REQ(SendLoad(*peer, l, false, 8000) >= 0, "the peer of " << tag << " finds nobody");
                    REQ(ReceiveLoad(d.GetChannel(u.name, u.index), got, false, 8000), "nothing arrives from the peer of " << tag);
                    REQ(got == l, "sub-channel " << tag << " got " << Show(got));
                }
            }
            if (r + 1 < rounds) { c << " again"; }
            dr.Down();
        }
        if (fits) { dr.Finish(); }
    }
    farEnds.clear();
    c.nontrivial(nBind > 1 || moved || !fits);
    c.label(!fits ? "too few ports" : moved ? "moved" : "as asked");
}
