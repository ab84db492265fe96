// C07: a channel accepts exactly the documented configurations and keeps them consistent.
#include "harness.h"
#include "fake.h"
#include <boost/any.hpp>
#include <fairmq/Channel.h>
#include <fairmq/Properties.h>
#include <fairmq/Transports.h>

using namespace fair::mq;

namespace {
// ---------------------------------------------------------------- reference
struct Conf
{
    std::string name, type = "unspecified", method = "unspecified", address = "unspecified";
    std::string transport = "default";
    int sndBuf = 1000, rcvBuf = 1000, sndKer = 0, rcvKer = 0, sndTo = -1, rcvTo = -1, linger = 500, rate = 1, pmin = 22000, pmax = 23000;
    bool autoBind = true;
    bool valid = false;
};

enum Verdict { Yes, No, Throws };

bool StartsWith(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }

Verdict Reference(const Conf& c)
{
    if (c.valid) { return Yes; }
    for (char ch : c.name) {
        bool ok = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '-' || ch == '_' || ch == '[' || ch == ']' || ch == '#';
        if (!ok) { return No; }
    }
    static const char* types[] = {"sub", "pub", "pull", "push", "req", "rep", "xsub", "xpub", "dealer", "router", "pair"};
    bool typeOk = false;
    for (auto t : types) { typeOk = typeOk || c.type == t; }
    if (!typeOk) { return Throws; }
    if (c.address.empty() || c.address == "unspecified") { return No; }
    std::string rest = c.address;
    while (true) {
        size_t p = rest.find(',');
        std::string e = rest.substr(0, p);
        std::string a;
        if (!e.empty() && (e[0] == '@' || e[0] == '+' || e[0] == '>')) {
            a = e.substr(1);
        } else {
            if (c.method != "bind" && c.method != "connect") { return Throws; }
            a = e;
        }
        if (StartsWith(a, "tcp://")) {
            if (a.find(':', 6) == std::string::npos) { return No; }
        } else {
            bool ok = false;
            for (auto proto : {"ipc://", "inproc://", "verbs://"}) {
                ok = ok || (StartsWith(a, proto) && a.size() > strlen(proto));
            }
            if (!ok) { return No; }
        }
        if (p == std::string::npos) { break; }
        rest = rest.substr(p + 1);
    }
    if (c.sndBuf < 0 || c.rcvBuf < 0 || c.sndKer < 0 || c.rcvKer < 0 || c.rate < 0) { return Throws; }
    return Yes;
}

Transport ToTransport(const std::string& s) { return s == "zeromq" ? Transport::ZMQ : s == "shmem" ? Transport::SHM : Transport::DEFAULT; }

void Compare(const Channel& ch, const Conf& m, const std::string& what)
{
    REQ_EQ(ch.GetName(), m.name, what << ": name");
    REQ_EQ(ch.GetType(), m.type, what << ": type");
    REQ_EQ(ch.GetMethod(), m.method, what << ": method");
    REQ_EQ(ch.GetAddress(), m.address, what << ": address");
    REQ_EQ(ch.GetTransportName(), m.transport, what << ": transport name");
    REQ(ch.GetTransportType() == ToTransport(m.transport), what << ": transport type");
    REQ_EQ(ch.GetSndBufSize(), m.sndBuf, what << ": send buffer size");
    REQ_EQ(ch.GetRcvBufSize(), m.rcvBuf, what << ": receive buffer size");
    REQ_EQ(ch.GetSndKernelSize(), m.sndKer, what << ": send kernel size");
    REQ_EQ(ch.GetRcvKernelSize(), m.rcvKer, what << ": receive kernel size");
    REQ_EQ(ch.GetSndTimeout(), m.sndTo, what << ": send timeout");
    REQ_EQ(ch.GetRcvTimeout(), m.rcvTo, what << ": receive timeout");
    REQ_EQ(ch.GetLinger(), m.linger, what << ": linger");
    REQ_EQ(ch.GetRateLogging(), m.rate, what << ": rate logging");
    REQ_EQ(ch.GetPortRangeMin(), m.pmin, what << ": port range min");
    REQ_EQ(ch.GetPortRangeMax(), m.pmax, what << ": port range max");
    REQ_EQ(ch.GetAutoBind(), m.autoBind, what << ": automatic binding");
    REQ_EQ(ch.IsValid(), m.valid, what << ": validity");
    std::ostringstream o;
    o << ch;
    REQ_EQ(o.str(), "name: " + m.name + ", type: " + m.type + ", method: " + m.method + ", address: " + m.address, what << ": printed");
    size_t open = m.name.rfind('['), close = m.name.rfind(']');
    if (open != std::string::npos) { REQ_EQ(ch.GetPrefix(), m.name.substr(0, open), what << ": prefix"); }
    if (open != std::string::npos && close != std::string::npos && open < close) {
        REQ_EQ(ch.GetIndex(), m.name.substr(open + 1, close - open - 1), what << ": index");
    }
}

// ---------------------------------------------------------------- generators
std::string Corrupt(pbt::Src& s, std::string t)
{
    size_t n = 1 + s.draw(2);
    for (size_t i = 0; i < n; ++i) {
        char ch = s.chance(80) ? "abpst:/;,@+>*.[]#-_ 019ABX"[s.draw(26)] : static_cast<char>(1 + s.draw(255));
        size_t pos = s.draw(t.size() + 1);
        switch (s.draw(4)) {
            case 0: t.insert(t.begin() + pos, ch); break;
            case 1: if (pos < t.size()) { t.erase(t.begin() + pos); } break;
            case 2: if (pos < t.size()) { t[pos] = ch; } break;
            default: t = t.substr(0, pos);
        }
    }
    return t;
}
std::string GenName(pbt::Src& s)
{
    std::string n = s.str("abzAZ019-_#", 0, 8);
    if (s.chance(70)) { n += "[" + std::to_string(s.size(1000)) + "]"; }
    if (s.chance(10)) { n += "[" + std::to_string(s.size(20)) + "]"; }
    return s.chance(15) ? Corrupt(s, n) : n;
}
std::string GenType(pbt::Src& s)
{
    if (s.chance(90)) { return s.pick({"pull", "push", "pub", "sub", "req", "rep", "xsub", "xpub", "dealer", "router", "pair"}); }
    if (s.chance(50)) { return s.pick({"unspecified", "", "PUSH", "stream", "spub", "server", "push ", "pusher"}); }
    return Corrupt(s, s.pick({"pull", "push", "pub", "sub", "req", "rep", "xsub", "xpub", "dealer", "router", "pair"}));
}
std::string GenMethod(pbt::Src& s)
{
    if (s.chance(85)) { return s.pick({"bind", "connect"}); }
    if (s.chance(60)) { return s.pick({"unspecified", "", "Bind", "binds", "connected"}); }
    return Corrupt(s, s.pick({"bind", "connect"}));
}
std::string GenEndpoint(pbt::Src& s)
{
    std::string e;
    if (s.chance(30)) { e += s.pick({"@", "+", ">"}); }
    switch (s.draw(8)) {
        case 0: case 1: e += "tcp://" + s.pick({"127.0.0.1", "*", "localhost", "eth0", "[::1]", ""}) + ":" + s.pick({"5555", "*", "0", "65535", ""}); break;
        case 2: e += "ipc://" + s.str("abc/_.@", s.chance(20) ? 0 : 1, 6); break;
        case 3: e += "inproc://" + s.str("abc/_.", s.chance(20) ? 0 : 1, 6); break;
        case 4: e += "verbs://" + s.str("abc/_.:1", s.chance(20) ? 0 : 1, 6); break;
        case 5: e += s.pick({"tcp://localhost", "tcp://", "tcp:/x:1", "udp://a:1", "unspecified", "", "ipc:/x", "tcp", ":", "TCP://a:1", "inproc:/x", "verbs:x"}); break;
        case 6: e += "ipc://x"; break;
        default: e += "tcp://127.0.0.1:" + std::to_string(s.range(1, 65535));
    }
    return s.chance(8) ? Corrupt(s, e) : e;
}
std::string GenAddress(pbt::Src& s)
{
    if (s.chance(6)) { return s.pick({"unspecified", "", ",", ",,", ";"}); }
    std::string a = GenEndpoint(s);
    size_t n = s.chance(65) ? 0 : s.size(4);
    for (size_t i = 0; i < n; ++i) { a += s.pick({",", ",", ",", ";"}) + GenEndpoint(s); }
    return a;
}
int GenLimit(pbt::Src& s, bool mostlyGood)
{
    if (mostlyGood && s.chance(93)) { return static_cast<int>(s.edgy(0, INT32_MAX)); }
    return static_cast<int>(s.edgy(INT32_MIN, INT32_MAX));
}

Verdict RunValidate(Channel& ch, std::string& what)
{
    try {
        return ch.Validate() ? Yes : No;
    } catch (const Channel::ChannelConfigurationError& e) {
        what = e.what();
        return Throws;
    }
}
const char* kVerdict[] = {"accepted", "refused", "an exception"};

void CheckValidate(Channel& ch, Conf& m, const std::string& what)
{
    Verdict want = Reference(m);
    std::string text;
    Verdict got = RunValidate(ch, text);
    REQ(got == want, what << ": validation gave " << kVerdict[got] << (got == Throws ? " (" + text + ")" : std::string()) << ", expected " << kVerdict[want] << " for name '" << m.name << "' type '" << m.type
                          << "' method '" << m.method << "' address '" << m.address << "' limits " << m.sndBuf << " " << m.rcvBuf << " " << m.sndKer << " " << m.rcvKer << " " << m.rate);
    m.valid = want == Yes;
    REQ_EQ(ch.IsValid(), m.valid, what << ": validity after validation");
    if (got == Throws) { REQ(!text.empty(), what << ": the exception carries no text"); }
}
}   // namespace

CASE(validate, 4)
{
    Conf m;
    m.name = GenName(s);
    m.type = GenType(s);
    m.method = GenMethod(s);
    m.address = GenAddress(s);
    Channel ch(m.name, m.type, m.method, m.address, nullptr);
    if (s.chance(40)) {
        m.sndBuf = GenLimit(s, true);
        m.rcvBuf = GenLimit(s, true);
        m.sndKer = GenLimit(s, true);
        m.rcvKer = GenLimit(s, true);
        m.rate = GenLimit(s, true);
        m.linger = GenLimit(s, false);
        m.sndTo = GenLimit(s, false);
        m.rcvTo = GenLimit(s, false);
        m.pmin = GenLimit(s, false);
        m.pmax = GenLimit(s, false);
        ch.UpdateSndBufSize(m.sndBuf);
        ch.UpdateRcvBufSize(m.rcvBuf);
        ch.UpdateSndKernelSize(m.sndKer);
        ch.UpdateRcvKernelSize(m.rcvKer);
        ch.UpdateRateLogging(m.rate);
        ch.UpdateLinger(m.linger);
        ch.UpdateSndTimeout(m.sndTo);
        ch.UpdateRcvTimeout(m.rcvTo);
        ch.UpdatePortRangeMin(m.pmin);
        ch.UpdatePortRangeMax(m.pmax);
    }
    c << "'" << m.name << "' " << m.type << " " << m.method << " '" << m.address << "' " << m.sndBuf << "," << m.rcvBuf << "," << m.sndKer << "," << m.rcvKer << "," << m.rate;
    Compare(ch, m, "before validation");
    CheckValidate(ch, m, "first");
    Compare(ch, m, "after validation");
    CheckValidate(ch, m, "again");
    Compare(ch, m, "after the second validation");
    c.nontrivial();
    c.label(m.valid ? "valid" : "not valid");
}

CASE(history, 4)
{
    const size_t N = 3;
    std::vector<std::unique_ptr<Channel>> chs;
    std::vector<Conf> ms;
    for (size_t i = 0; i < N; ++i) {
        Conf m;
        switch (s.draw(4)) {
            case 0: chs.push_back(std::make_unique<Channel>()); break;
            case 1: m.name = GenName(s); chs.push_back(std::make_unique<Channel>(m.name)); break;
            case 2:
                m.type = GenType(s); m.method = GenMethod(s); m.address = GenAddress(s);
                chs.push_back(std::make_unique<Channel>(m.type, m.method, m.address));
                break;
            default:
                m.name = GenName(s); m.type = GenType(s); m.method = GenMethod(s); m.address = GenAddress(s);
                chs.push_back(std::make_unique<Channel>(m.name, m.type, m.method, m.address, nullptr));
        }
        ms.push_back(m);
        Compare(*chs[i], ms[i], "after construction");
    }
    size_t steps = s.size(30);
    size_t accepted = 0;
    for (size_t k = 0; k < steps; ++k) {
        size_t i = s.draw(N), j = s.draw(N);
        Channel& ch = *chs[i];
        Conf& m = ms[i];
        size_t op = s.weighted({4, 4, 4, 4, 4, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 14, 4, 4, 4, 2, 2, 2});
        c << op << "@" << i << " ";
        bool inv = true;
        switch (op) {
            case 0: m.name = GenName(s); ch.UpdateName(m.name); break;
            case 1: m.type = GenType(s); ch.UpdateType(m.type); break;
            case 2: m.method = GenMethod(s); ch.UpdateMethod(m.method); break;
            case 3: m.address = GenAddress(s); ch.UpdateAddress(m.address); break;
            case 4: {
                std::string t = s.chance(75) ? s.pick({"default", "zeromq", "shmem"}) : s.chance(50) ? s.pick({"", "ofi", "Zeromq", "unspecified"}) : Corrupt(s, s.pick({"default", "zeromq", "shmem"}));
                if (t == "default" || t == "zeromq" || t == "shmem") {
                    ch.UpdateTransport(t);
                    m.transport = t;
                } else {
                    REQ_THROWS(TransportError, ch.UpdateTransport(t), "unknown transport '" << t << "'");
                    inv = false;
                    c.label("unknown transport");
                }
                break;
            }
            case 5: m.sndBuf = GenLimit(s, true); ch.UpdateSndBufSize(m.sndBuf); break;
            case 6: m.rcvBuf = GenLimit(s, true); ch.UpdateRcvBufSize(m.rcvBuf); break;
            case 7: m.sndKer = GenLimit(s, true); ch.UpdateSndKernelSize(m.sndKer); break;
            case 8: m.rcvKer = GenLimit(s, true); ch.UpdateRcvKernelSize(m.rcvKer); break;
            case 9: m.sndTo = GenLimit(s, false); ch.UpdateSndTimeout(m.sndTo); break;
            case 10: m.rcvTo = GenLimit(s, false); ch.UpdateRcvTimeout(m.rcvTo); break;
            case 11: m.linger = GenLimit(s, false); ch.UpdateLinger(m.linger); break;
            case 12: m.rate = GenLimit(s, true); ch.UpdateRateLogging(m.rate); break;
            case 13: m.pmin = GenLimit(s, false); ch.UpdatePortRangeMin(m.pmin); break;
            case 14: m.pmax = GenLimit(s, false); ch.UpdatePortRangeMax(m.pmax); break;
            case 15: m.autoBind = s.flip(); ch.UpdateAutoBind(m.autoBind); break;
            case 16:
                CheckValidate(ch, m, "step " + std::to_string(k));
                accepted += m.valid;
                inv = false;
                break;
            case 17: {   // copy construction
                bool was = ms[j].valid;
                auto copy = std::make_unique<Channel>(*chs[j]);
                REQ_EQ(chs[j]->IsValid(), was, "copying changed the source's validity");
                Conf cm = ms[j];
                cm.valid = false;
                Compare(*copy, cm, "copy");
                chs[i] = std::move(copy);
                ms[i] = cm;
                break;
            }
            case 18: {   // copy with a new name
                std::string n = GenName(s);
                auto copy = std::make_unique<Channel>(*chs[j], n);
                Conf cm = ms[j];
                cm.valid = false;
                cm.name = n;
                Compare(*copy, cm, "copy with a new name");
                chs[i] = std::move(copy);
                ms[i] = cm;
                break;
            }
            case 19:
                *chs[i] = *chs[j];
                if (i != j) {
                    ms[i] = ms[j];
                } else {
                    inv = false;   // assigning to itself changes nothing
                    c.label("self assignment");
                }
                break;
            case 20: {   // move out and back
                Channel tmp(std::move(*chs[i]));
                Compare(tmp, ms[i], "moved");
                *chs[i] = std::move(tmp);
                inv = false;
                break;
            }
            case 21: ch.Invalidate(); break;
            default: REQ_EQ(ch.GetNumberOfConnectedPeers(), 0u, "peers of a channel without a socket"); inv = false;
        }
        if (inv) { ms[i].valid = false; }
        for (size_t x = 0; x < N; ++x) { Compare(*chs[x], ms[x], "step " + std::to_string(k) + " op " + std::to_string(op) + " on " + std::to_string(i) + ", channel " + std::to_string(x)); }
    }
    c.nontrivial(steps > 2);
    c.label("a valid configuration occurred", accepted > 0);
}

// ---------------------------------------------------------------- construction from properties
CASE(properties, 2)
{
    Conf m;
    std::string name = s.str("abz019-_", 1, 6);
    int index = static_cast<int>(s.size(1000));
    Properties p;
    std::string own = "chans." + name + "." + std::to_string(index) + ".";
    // neighbours that must not be mixed up
    std::vector<std::string> prefixes{own};
    for (auto& o : {"chans." + name + "." + std::to_string(index + 1) + ".", "chans." + name + "." + std::to_string(index) + "0.", "chans." + name + "x." + std::to_string(index) + ".",
                    "chans.x" + name + "." + std::to_string(index) + ".", name + "." + std::to_string(index) + "."}) {
        if (s.flip()) { prefixes.push_back(o); }
    }
    m.name = name + "[" + std::to_string(index) + "]";
    size_t given = 0;
    for (auto& pre : prefixes) {
        bool mine = pre == own;
        auto str = [&](const char* k, std::string& slot, std::string v) {
            if (!s.chance(60)) { return; }
            p[pre + k] = v;
            if (mine) { slot = v; ++given; }
        };
        auto num = [&](const char* k, int& slot) {
            if (!s.chance(60)) { return; }
            int v = static_cast<int>(s.edgy(INT32_MIN, INT32_MAX));
            p[pre + k] = v;
            if (mine) { slot = v; ++given; }
        };
        str("type", m.type, GenType(s));
        str("method", m.method, GenMethod(s));
        str("address", m.address, GenAddress(s));
        str("transport", m.transport, s.pick({"default", "zeromq", "shmem"}));
        num("sndBufSize", m.sndBuf);
        num("rcvBufSize", m.rcvBuf);
        num("sndKernelSize", m.sndKer);
        num("rcvKernelSize", m.rcvKer);
        num("sndTimeoutMs", m.sndTo);
        num("rcvTimeoutMs", m.rcvTo);
        num("linger", m.linger);
        num("rateLogging", m.rate);
        num("portRangeMin", m.pmin);
        num("portRangeMax", m.pmax);
        if (s.chance(60)) {
            bool v = s.flip();
            p[pre + "autoBind"] = v;
            if (mine) { m.autoBind = v; ++given; }
        }
    }
    c << m.name << " given " << given << " of 15, " << p.size() << " properties";
    const size_t before = p.size();
    size_t wrong = s.weighted({8, 1, 1});
    if (wrong == 1) {
        std::string t = s.pick({"", "ofi", "Shmem", "unspecified"});
        p[own + "transport"] = t;
        REQ_THROWS(TransportError, Channel(name, index, p), "unknown transport in the properties");
        c.label("unknown transport");
    } else if (wrong == 2) {
        const char* keys[] = {"type", "method", "address", "transport", "sndBufSize", "rcvBufSize", "sndKernelSize", "rcvKernelSize", "sndTimeoutMs", "rcvTimeoutMs", "linger", "rateLogging", "portRangeMin", "portRangeMax", "autoBind"};
        const char* k = keys[s.draw(15)];
        p[own + k] = 1.5;
        REQ_THROWS(boost::bad_any_cast, Channel(name, index, p), "property " << k << " of a wrong type");
        c.label("wrong type");
    } else {
        Channel ch(name, index, p);
        Compare(ch, m, "from properties");
        REQ_EQ(ch.GetPrefix(), name, "prefix");
        REQ_EQ(ch.GetIndex(), std::to_string(index), "index");
        REQ_EQ(p.size(), before, "the properties changed");
        CheckValidate(ch, m, "from properties");
    }
    c.nontrivial(given > 0);
}

// ---------------------------------------------------------------- connection (stand-in sockets)
namespace {
struct World
{
    std::set<std::string> refused;   // bind refuses these
    bool refuseAllPorts = false;
    std::set<int> freePorts;
    bool usePorts = false;
    std::vector<std::string> log;
    int sockets = 0;
};
struct FakeSocket : Socket
{
    World& w;
    std::string id;
    FakeSocket(World& world, TransportFactory* f, std::string i) : Socket(f), w(world), id(std::move(i)) { ++w.sockets; }
    ~FakeSocket() override { --w.sockets; }
    std::string GetId() const override { return id; }
    bool Bind(const std::string& a) override
    {
        w.log.push_back("bind " + a);
        if (w.refused.count(a)) { return false; }
        if (w.usePorts && a.rfind("tcp://", 0) == 0) {
            return w.freePorts.count(atoi(a.substr(a.rfind(':') + 1).c_str())) > 0;
        }
        return true;
    }
    bool Connect(const std::string& a) override
    {
        w.log.push_back("connect " + a);
        return w.refused.count(a) == 0;
    }
    int64_t Send(MessagePtr&, int t) override { w.log.push_back("send " + std::to_string(t)); return 11; }
    int64_t Receive(MessagePtr&, int t) override { w.log.push_back("receive " + std::to_string(t)); return 12; }
    int64_t Send(Parts::container&, int t) override { w.log.push_back("sendv " + std::to_string(t)); return 13; }
    int64_t Receive(Parts::container&, int t) override { w.log.push_back("receivev " + std::to_string(t)); return 14; }
    void Close() override {}
    void SetOption(const std::string& o, const void*, size_t) override { w.log.push_back("option " + o); }
    void GetOption(const std::string&, void*, size_t*) override {}
    int Events(uint32_t*) override { return 0; }
    void SetLinger(int v) override { w.log.push_back("linger " + std::to_string(v)); }
    int GetLinger() const override { return 0; }
    void SetSndBufSize(int v) override { w.log.push_back("sndbuf " + std::to_string(v)); }
    int GetSndBufSize() const override { return 0; }
    void SetRcvBufSize(int v) override { w.log.push_back("rcvbuf " + std::to_string(v)); }
    int GetRcvBufSize() const override { return 0; }
    void SetSndKernelSize(int v) override { w.log.push_back("sndkernel " + std::to_string(v)); }
    int GetSndKernelSize() const override { return 0; }
    void SetRcvKernelSize(int v) override { w.log.push_back("rcvkernel " + std::to_string(v)); }
    int GetRcvKernelSize() const override { return 0; }
    unsigned long GetBytesTx() const override { return 101; }
    unsigned long GetBytesRx() const override { return 102; }
    unsigned long GetMessagesTx() const override { return 103; }
    unsigned long GetMessagesRx() const override { return 104; }
    unsigned long GetNumberOfConnectedPeers() const override { return 105; }
};
struct FakeFactory : fake::Factory
{
    World& w;
    fair::mq::Transport t;
    FakeFactory(World& world, fair::mq::Transport type) : w(world), t(type) {}
    SocketPtr CreateSocket(const std::string& type, const std::string& name) override
    {
        w.log.push_back("socket " + type + " " + name);
        return std::make_unique<FakeSocket>(w, this, "id." + name + "." + type);
    }
    fair::mq::Transport GetType() const override { return t; }
};
std::string Join(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& x : v) { r += (r.empty() ? "" : "; ") + x; }
    return r;
}
// the protected parts of a channel are reached through the constructor that takes a factory
}   // namespace

CASE(connection, 2)
{
    World w;
    {
        auto f = std::make_shared<FakeFactory>(w, s.flip() ? Transport::ZMQ : Transport::SHM);
        Conf m;
        m.name = GenName(s);
        m.type = GenType(s);
        m.transport = f->t == Transport::ZMQ ? "zeromq" : "shmem";
        std::unique_ptr<Channel> ch;
        if (s.flip()) {
            ch = std::make_unique<Channel>(m.name, m.type, f);
        } else {
            m.method = GenMethod(s);
            m.address = GenAddress(s);
            ch = std::make_unique<Channel>(m.name, m.type, m.method, m.address, f);
        }
        Compare(*ch, m, "with factory");
        REQ_EQ(Join(w.log), "socket " + m.type + " " + m.name, "calls on construction");
        REQ_EQ(w.sockets, 1, "sockets after construction");
        REQ(ch->Transport() == f.get(), "the factory is not the one given");
        REQ_EQ(ch->GetSocket().GetId(), "id." + m.name + "." + m.type, "socket id");
        REQ_EQ(ch->GetNumberOfConnectedPeers(), 105u, "peers");
        REQ(ch->GetBytesTx() == 101 && ch->GetBytesRx() == 102 && ch->GetMessagesTx() == 103 && ch->GetMessagesRx() == 104, "counters are mixed up");
        w.log.clear();
        size_t steps = 1 + s.size(12);
        for (size_t k = 0; k < steps; ++k) {
            size_t op = s.weighted({3, 3, 3, 2, 2, 2, 3, 2, 6, 2});
            c << op << " ";
            w.log.clear();
            switch (op) {
                case 0: {
                    std::string a = GenAddress(s);
                    w.refused.clear();
                    bool ok = s.flip();
                    if (!ok) { w.refused.insert(a); }
                    REQ_EQ(ch->Bind(a), ok, "Bind");
                    m.method = "bind";
                    m.address = a;
                    REQ_EQ(Join(w.log), "bind " + a, "calls on Bind");
                    break;
                }
                case 1: {
                    std::string a = GenAddress(s);
                    w.refused.clear();
                    bool ok = s.flip();
                    if (!ok) { w.refused.insert(a); }
                    REQ_EQ(ch->Connect(a), ok, "Connect");
                    m.method = "connect";
                    m.address = a;
                    REQ_EQ(Join(w.log), "connect " + a, "calls on Connect");
                    break;
                }
                case 2: {   // a copy shares neither socket nor factory
                    Channel copy(*ch);
                    Conf cm = m;
                    cm.valid = false;
                    Compare(copy, cm, "copy of a connected channel");
                    REQ(copy.Transport() == nullptr, "a copy keeps the factory");
                    REQ_EQ(copy.GetNumberOfConnectedPeers(), 0u, "a copy keeps the socket");
                    REQ_EQ(w.sockets, 1, "sockets after a copy");
                    REQ_EQ(ch->GetNumberOfConnectedPeers(), 105u, "the source lost its socket");
                    Channel assigned("other", "push", f);
                    assigned = *ch;
                    REQ(assigned.Transport() == nullptr && assigned.GetNumberOfConnectedPeers() == 0, "assignment keeps a connection");
                    REQ_EQ(w.sockets, 1, "sockets after an assignment");
                    Compare(assigned, cm, "assigned from a connected channel");
                    break;
                }
                case 3: {
                    Channel& self = *ch;
                    *ch = self;
                    REQ(ch->Transport() == f.get() && ch->GetNumberOfConnectedPeers() == 105, "self assignment lost the connection");
                    break;
                }
                case 4: {
                    Channel tmp(std::move(*ch));
                    REQ(tmp.Transport() == f.get() && tmp.GetNumberOfConnectedPeers() == 105, "moving lost the connection");
                    Compare(tmp, m, "moved");
                    *ch = std::move(tmp);
                    REQ_EQ(w.sockets, 1, "sockets after moving");
                    break;
                }
                case 5: {   // timeouts
                    m.sndTo = GenLimit(s, false);
                    m.rcvTo = GenLimit(s, false);
                    ch->UpdateSndTimeout(m.sndTo);
                    ch->UpdateRcvTimeout(m.rcvTo);
                    m.valid = false;
                    int t = static_cast<int>(s.edgy(INT32_MIN, INT32_MAX));
                    MessagePtr msg(nullptr);
                    // a message of the channel's own transport is passed on as it is
                    struct Own : fake::Msg { fair::mq::Transport tt; Own(fair::mq::Transport x, std::shared_ptr<fake::Ledger> l, TransportFactory* ff) : fake::Msg(l, ff, 3, 0), tt(x) {} fair::mq::Transport GetType() const override { return tt; } };
                    msg = std::make_unique<Own>(f->t, f->ledger, f.get());
                    Message* raw = msg.get();
                    REQ_EQ(ch->Send(msg), 11, "Send result");
                    REQ_EQ(ch->Send(msg, t), 11, "Send result");
                    REQ_EQ(ch->Receive(msg), 12, "Receive result");
                    REQ_EQ(ch->Receive(msg, t), 12, "Receive result");
                    REQ(msg.get() == raw, "the message was replaced");
                    Parts parts(std::move(msg));
                    REQ_EQ(ch->Send(parts), 13, "Send(Parts) result");
                    REQ_EQ(ch->Send(parts, t), 13, "Send(Parts) result");
                    REQ_EQ(ch->Receive(parts), 14, "Receive(Parts) result");
                    REQ_EQ(ch->Receive(parts, t), 14, "Receive(Parts) result");
                    std::string a = std::to_string(m.sndTo), b = std::to_string(m.rcvTo), tt = std::to_string(t);
                    REQ_EQ(Join(w.log), "send " + a + "; send " + tt + "; receive " + b + "; receive " + tt + "; sendv " + a + "; sendv " + tt + "; receivev " + b + "; receivev " + tt, "timeouts passed to the socket");
                    break;
                }
                case 6: {   // Init
                    m.linger = GenLimit(s, false);
                    m.sndBuf = GenLimit(s, false);
                    m.rcvBuf = GenLimit(s, false);
                    m.sndKer = s.flip() ? 0 : GenLimit(s, false);
                    m.rcvKer = s.flip() ? 0 : GenLimit(s, false);
                    ch->UpdateLinger(m.linger);
                    ch->UpdateSndBufSize(m.sndBuf);
                    ch->UpdateRcvBufSize(m.rcvBuf);
                    ch->UpdateSndKernelSize(m.sndKer);
                    ch->UpdateRcvKernelSize(m.rcvKer);
                    m.valid = false;
                    ch->Init();
                    REQ(!w.log.empty() && w.log[0] == "socket " + m.type + " " + m.name, "Init does not create the socket first");
                    std::multiset<std::string> got(w.log.begin() + 1, w.log.end());
                    std::multiset<std::string> want{"linger " + std::to_string(m.linger), "sndbuf " + std::to_string(m.sndBuf), "rcvbuf " + std::to_string(m.rcvBuf)};
                    if (m.sndKer != 0) { want.insert("sndkernel " + std::to_string(m.sndKer)); }
                    if (m.rcvKer != 0) { want.insert("rcvkernel " + std::to_string(m.rcvKer)); }
                    REQ(got == want, "options set on the socket: " << Join(w.log));
                    REQ_EQ(w.sockets, 1, "sockets after Init");
                    break;
                }
                case 7: {
                    std::string a = GenEndpoint(s);
                    w.refused.clear();
                    bool ok = s.flip();
                    if (!ok) { w.refused.insert(a); }
                    REQ_EQ(ch->ConnectEndpoint(a), ok, "ConnectEndpoint");
                    REQ_EQ(Join(w.log), "connect " + a, "calls on ConnectEndpoint");
                    break;
                }
                case 8: {   // BindEndpoint with automatic binding
                    w.refused.clear();
                    w.usePorts = true;
                    w.freePorts.clear();
                    int lo = static_cast<int>(s.range(1, 65000)), hi = lo + static_cast<int>(s.size(s.flip() ? 5 : 500));
                    m.pmin = lo;
                    m.pmax = hi;
                    m.autoBind = s.chance(80);
                    ch->UpdatePortRangeMin(lo);
                    ch->UpdatePortRangeMax(hi);
                    ch->UpdateAutoBind(m.autoBind);
                    m.valid = false;
                    int span = hi - lo + 1;
                    size_t nfree = s.size(4);
                    for (size_t x = 0; x < nfree; ++x) { w.freePorts.insert(lo + static_cast<int>(s.draw(span))); }
                    int port = static_cast<int>(s.range(1, 65535));
                    bool inRangeFree = !w.freePorts.empty();
                    std::string host = s.pick({"tcp://127.0.0.1:", "tcp://*:", "tcp://[::1]:", "tcp://localhost:", "ipc://x", "inproc://y:"});
                    bool tcp = host[0] == 't';
                    std::string e = tcp ? host + std::to_string(port) : host;
                    if (!tcp && s.flip()) { w.refused.insert(e); }
                    bool portFree = tcp && s.chance(20);
                    if (portFree) { w.freePorts.insert(port); }
                    bool direct = tcp ? w.freePorts.count(port) > 0 : w.refused.count(e) == 0;
                    std::string before = e;
                    c << before << (m.autoBind ? " auto " : " fixed ") << lo << "-" << hi << " free " << w.freePorts.size() << " ";
                    bool got = ch->BindEndpoint(e);
                    REQ(!w.log.empty() && w.log[0] == "bind " + before, "the configured endpoint was not tried first");
                    if (direct) {
                        REQ(got, "binding to a free endpoint failed");
                        REQ_EQ(e, before, "endpoint changed");
                        REQ_EQ(w.log.size(), 1u, "binds");
                    } else if (!tcp || !m.autoBind) {
                        REQ(!got, "binding to an occupied endpoint succeeded");
                        REQ_EQ(e, before, "endpoint changed");
                        REQ_EQ(w.log.size(), 1u, "binds");
                    } else {
                        for (size_t x = 1; x < w.log.size(); ++x) {
                            std::string a = w.log[x].substr(5);
                            REQ(a.rfind(host, 0) == 0, "another address was tried: " << a);
                            int p = atoi(a.substr(host.size()).c_str());
                            REQ(a == host + std::to_string(p) && p >= lo && p <= hi, "a port outside of the range was tried: " << a);
                        }
                        if (got) {
                            REQ(w.log.size() > 1 && w.log.back() == "bind " + e, "the endpoint reported (" << e << ") is not the one that was bound (" << w.log.back() << ")");
                            c.label("another port was found");
                        } else {
                            REQ(!w.log.empty() && w.log.size() >= 1000, "gave up after " << w.log.size() << " attempts");
                            // a free port is missed in all attempts with probability < (1 - 1/span)^900
                            REQ(!inRangeFree || span > 40, "no port found though " << w.freePorts.size() << " of " << span << " are free");
                            c.label("no free port");
                        }
                        REQ(inRangeFree || !got || w.freePorts.count(atoi(e.substr(host.size()).c_str())), "bound to an occupied port");
                    }
                    w.usePorts = false;
                    break;
                }
                default: {
                    REQ(ch->NewMessage(static_cast<size_t>(7))->GetSize() == 7, "NewMessage");
                    break;
                }
            }
            Compare(*ch, m, "step " + std::to_string(k) + " op " + std::to_string(op));
            if (op == 6 && s.flip()) { CheckValidate(*ch, m, "connected"); }
        }
        c.nontrivial(steps > 1);
    }
    REQ_EQ(w.sockets, 0, "sockets left after the channel is gone");
}
