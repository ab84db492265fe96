// C21: the stock devices pass on every message, unchanged and in the right place.
#include "devworld.h"
#include <fairmq/devices/BenchmarkSampler.h>
#include <fairmq/devices/Merger.h>
#include <fairmq/devices/Multiplier.h>
#include <fairmq/devices/Proxy.h>
#include <fairmq/devices/Sink.h>
#include <fairmq/devices/Splitter.h>
#include <map>
#include <numeric>
using namespace dw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
// channels of the device and their peers outside of it
struct StockWorld
{
    pbt::Src& s;
    SessionGuard guard;
    ProgOptions cfg, peerCfg;
    string def;
    std::shared_ptr<TransportFactory> f[2];
    std::vector<std::pair<string, std::unique_ptr<Channel>>> peers;   // by channel name, in the order of the sub-channels
    StockWorld(pbt::Src& src, pbt::Case& c) : s(src)
    {
        for (auto* p : {&cfg, &peerCfg}) {
            p->SetProperty<string>("session", guard.session);
            p->SetProperty<size_t>("shm-segment-size", 16 << 20);
            p->SetProperty<bool>("shm-monitor", false);
        }
        cfg.SetProperty<string>("id", "dev");
        def = s.pick({"zeromq", "shmem"});
        cfg.SetProperty<string>("transport", def);
        c << def << " ";
    }
    string Transport() { return s.pick({"default", "default", "zeromq", "shmem"}); }
    std::shared_ptr<TransportFactory> Factory(const string& t)
    {
        const int i = (t == "default" ? def : t) == "shmem";
        if (!f[i]) { f[i] = TransportFactory::CreateTransportFactory(i ? "shmem" : "zeromq", "peer", &peerCfg); }
        return f[i];
    }
    // n sub-channels
    string Add(const string& name, bool input, int n, const string& transport, pbt::Case& c)
    {
        const bool bind = s.flip();
        const string type = s.chance(70) ? (input ? "pull" : "push") : s.pick({"pair", "dealer"});
        c << "[" << name << ":" << type << "x" << n << " " << transport << "]";
        for (int i = 0; i < n; ++i) {
            const string a = Ipc(name + "_" + std::to_string(i)), p = "chans." + name + "." + std::to_string(i) + ".";
            cfg.SetProperty<string>(p + "type", type);
            cfg.SetProperty<string>(p + "method", bind ? "bind" : "connect");
            cfg.SetProperty<string>(p + "address", a);
            cfg.SetProperty<string>(p + "transport", transport);
            peers.emplace_back(name, std::make_unique<Channel>("peer", type == "pull" ? "push" : type == "push" ? "pull" : type, Factory(transport)));
            auto& ch = *peers.back().second;
            REQ(bind ? ch.Connect(a) : ch.Bind(a), "the peer has no connection");
        }
        return type;
    }
    std::vector<Channel*> Peers(const string& name)
    {
        std::vector<Channel*> v;
        for (auto& [n, p] : peers) { if (n == name) { v.push_back(p.get()); } }
        return v;
    }
};
string Tag(int input, size_t seq) { return "i" + std::to_string(input) + "#" + std::to_string(seq) + ";"; }
int InputOf(const Load& l) { return l.parts.empty() || l.parts[0].size() < 2 || l.parts[0][0] != 'i' ? -1 : atoi(l.parts[0].c_str() + 1); }

// a message must be the next one of its input (next: per input); returns the input
int Take(std::vector<std::vector<Load>>& sent, std::vector<size_t>& next, const Load& l, const string& where)
{
    const int i = InputOf(l);
    REQ(i >= 0 && static_cast<size_t>(i) < sent.size(), where << ": received something that was never sent: " << Show(l));
    REQ(next[i] < sent[i].size(), where << ": one message more than was sent on input " << i << ": " << Show(l));
    REQ(sent[i][next[i]] == l, where << ": got " << Show(l) << ", expected " << Show(sent[i][next[i]]));
    ++next[i];
    return i;
}

enum class Kind { merger, proxy, splitter, multiplier };
const char* kKind[] = {"merger", "proxy", "splitter", "multiplier"};
}   // namespace

RACY_CASE(forward, 4, 60000)
{
    StockWorld w(s, c);
    const auto kind = static_cast<Kind>(s.draw(4));
    const bool multi = s.flip();
    const string in = s.pick({"data-in", "in"}), out = s.pick({"data-out", "out"});
    c << kKind[static_cast<int>(kind)] << (multi ? " multipart " : " ");
    const int nIn = kind == Kind::proxy ? 1 : 1 + static_cast<int>(s.draw(4));
    w.Add(in, true, nIn, w.Transport(), c);
    std::vector<string> outs{out};
    if (kind == Kind::multiplier) { for (size_t k = s.draw(3); k > 0; --k) { outs.push_back(out + std::to_string(k)); } }
    for (auto& o : outs) { w.Add(o, false, kind == Kind::merger || kind == Kind::proxy ? 1 : 1 + static_cast<int>(s.draw(4)), w.Transport(), c); }
    w.cfg.SetProperty<bool>("multipart", multi);
    w.cfg.SetProperty<string>("in-channel", in);
    if (kind == Kind::multiplier) { w.cfg.SetProperty<std::vector<string>>("out-channel", outs); }
    else { w.cfg.SetProperty<string>("out-channel", out); }
    std::unique_ptr<Device> d;
    switch (kind) {
        case Kind::merger: d = std::make_unique<Merger>(); break;
        case Kind::proxy: d = std::make_unique<Proxy>(); break;
        case Kind::splitter: d = std::make_unique<Splitter>(); break;
        case Kind::multiplier: d = std::make_unique<Multiplier>(); break;
    }
    d->SetConfig(w.cfg);
    auto inputs = w.Peers(in);
    std::vector<Channel*> outputs;
    for (auto& o : outs) { for (auto* p : w.Peers(o)) { outputs.push_back(p); } }
    std::vector<std::vector<Load>> sent(nIn);
    // what each output has got of each input
    std::vector<std::vector<size_t>> next(outputs.size(), std::vector<size_t>(nIn, 0));
    std::vector<size_t> count(outputs.size(), 0);
    std::vector<std::set<size_t>> splitSeen(nIn);
    size_t total = 0;
    {
        Driver dr(*d);
        dr.ToReady();
        const size_t runs = 1 + s.draw(3);
        for (size_t r = 0; r < runs; ++r) {
            c << " run";
            bool reset = false;
            if (r > 0 && s.chance(30)) {   // the task starts again
                c << "(reset)";
                reset = true;
                dr.To(T::ResetTask, S::DeviceReady);
                dr.To(T::InitTask, S::Ready);
            }
            if (reset && kind == Kind::splitter) { std::fill(count.begin(), count.end(), 0); }
            dr.To(T::Run, S::Running);
            size_t n = s.size(40);
            c << "(" << n << ")";
            // a burst from every input, taken out afterwards
            const size_t before = total;
            for (size_t k = 0; k < n; ++k) {
                const int i = static_cast<int>(s.draw(nIn));
                Load l = MakeLoad(s, Tag(i, sent[i].size()), multi);
                REQ(SendLoad(*inputs[i], l, multi, 10000) >= 0, "could not send to input " << i);
                sent[i].push_back(l);
                ++total;
            }
            const size_t perOutput = kind == Kind::splitter ? 0 : total - before;
            if (kind != Kind::splitter) {
                for (size_t o = 0; o < outputs.size(); ++o) {
                    for (size_t k = 0; k < perOutput; ++k) {
                        Load l;
                        REQ(ReceiveLoad(*outputs[o], l, multi, 8000), "output " << o << " got only " << k << " of " << perOutput << " messages");
                        Take(sent, next[o], l, "output " + std::to_string(o));
                    }
                }
            } else {
                // in turn: the numbers per output are known, and with one input also which one goes where
                const size_t no = outputs.size(), before0 = std::accumulate(count.begin(), count.end(), size_t(0));
                std::vector<size_t> want(no, 0);
                for (size_t k = 0; k < n; ++k) { ++want[(before0 + k) % no]; }
                for (size_t o = 0; o < no; ++o) {
                    size_t lastSeen[8] = {};
                    bool any[8] = {};
                    for (size_t k = 0; k < want[o]; ++k) {
                        Load l;
                        REQ(ReceiveLoad(*outputs[o], l, multi, 8000), "output " << o << " got only " << k << " of " << want[o] << " messages");
                        const int i = InputOf(l);
                        REQ(i >= 0 && i < nIn, "output " << o << " received something that was never sent: " << Show(l));
                        const size_t q = strtoul(l.parts[0].c_str() + l.parts[0].find('#') + 1, nullptr, 10);
                        REQ(q < sent[i].size() && sent[i][q] == l, "output " << o << " got " << Show(l) << " which was not sent like that");
                        REQ(splitSeen[i].insert(q).second, "message " << Show(l) << " came twice");
                        REQ(!any[i] || lastSeen[i] < q, "output " << o << ": messages of input " << i << " out of order");
                        any[i] = true;
                        lastSeen[i] = q;
                        if (nIn == 1) { REQ_EQ(q, (before + k * no + (o + no - before0 % no) % no), "message " << k << " of output " << o); }
                    }
                    count[o] += want[o];
                }
            }
            for (size_t o = 0; o < outputs.size(); ++o) {
                Load l;
                REQ(!ReceiveLoad(*outputs[o], l, multi, 0), "output " << o << " got a message too many: " << Show(l));
            }
            REQ(d->GetCurrentState() == S::Running, "the device left the running state by itself: " << d->GetCurrentStateName());
            dr.To(T::Stop, S::Ready);
        }
        dr.Down();
        dr.Finish();
    }
    d.reset();
    w.peers.clear();
    c.nontrivial(total > 3 && (nIn > 1 || outputs.size() > 1 || kind == Kind::proxy));
    c.label(kKind[static_cast<int>(kind)]);
}

RACY_CASE(sink, 2, 60000)
{
    StockWorld w(s, c);
    const bool multi = s.flip();
    const string type = w.Add("data", true, 1, w.Transport(), c);
    const uint64_t limit = s.chance(30) ? 0 : 1 + s.size(20);
    const bool file = s.flip();
    const uint64_t maxFile = file && s.chance(40) ? 1 + s.draw(2000) : 0;
    const string path = pbt::Scratch() + "/sink" + std::to_string(pbt::WorkerId());
    unlink(path.c_str());
    w.cfg.SetProperty<bool>("multipart", multi);
    w.cfg.SetProperty<uint64_t>("max-iterations", limit);
    w.cfg.SetProperty<uint64_t>("max-file-size", maxFile);
    w.cfg.SetProperty<string>("in-channel", "data");
    w.cfg.SetProperty<string>("out-filename", file ? path : "");
    c << " sink limit " << limit << (multi ? " multipart" : "") << (file ? " file" : "") << " " << maxFile;
    Sink d;
    d.SetConfig(w.cfg);
    size_t total = 0;
    {
        Driver dr(d);
        dr.ToReady();
        auto* peer = w.Peers("data").at(0);
        const size_t runs = 1 + s.draw(2);
        for (size_t r = 0; r < runs; ++r) {
            if (r > 0) {
                dr.To(T::ResetTask, S::DeviceReady);
                if (type != "pair" && s.chance(40)) {   // drops what is waiting; a pair does not connect again
                    dr.To(T::ResetDevice, S::Idle);
                    dr.ToReady();
                    c << "(new)";
                } else {
                    dr.To(T::InitTask, S::Ready);
                }
            }
            auto& ch = d.GetChannel("data", 0);
            const auto before = ch.GetMessagesRx(), beforeBytes = ch.GetBytesRx();
            // exactly what it can take, or less
            size_t n = s.size(25);
            if (limit > 0) { n = std::min<size_t>(n, limit); }
            std::vector<Load> sent;
            string content;
            size_t bytes = 0, takes = 0;
            bool ends = false;
            for (size_t k = 0; k < n && !ends; ++k) {
                sent.push_back(MakeLoad(s, "m" + std::to_string(k) + ";", multi));
                for (auto& p : sent.back().parts) {
                    content += p;
                    bytes += p.size();
                }
                ++takes;
                ends = (limit > 0 && takes == limit) || (maxFile > 0 && bytes >= maxFile);
            }
            c << " run(" << takes << ")";
            dr.To(T::Run, S::Running);
            for (auto& l : sent) { REQ(SendLoad(*peer, l, multi, 10000) >= 0, "could not send"); }
            total += takes;
            if (ends) {
                dr.Wait(S::Ready, 10000);
            } else {
                for (int64_t t0 = pbt::NowMs(); ch.GetMessagesRx() - before < takes; std::this_thread::sleep_for(std::chrono::microseconds(200))) {
                    REQ(pbt::NowMs() - t0 < 10000, "only " << ch.GetMessagesRx() - before << " of " << takes << " messages were consumed");
                }
                REQ(!dr.Reached(S::Ready), "the sink ended after " << takes << " messages, its limit is " << limit);
                dr.To(T::Stop, S::Ready);
            }
            REQ_EQ(ch.GetMessagesRx() - before, takes, "messages consumed");
            REQ_EQ(ch.GetBytesRx() - beforeBytes, bytes, "bytes consumed");
            if (file) {
                std::ifstream in(path, std::ios::binary);
                std::stringstream got;
                got << in.rdbuf();
                REQ(got.str() == content, "the file holds " << got.str().size() << " bytes, " << content.size() << " were sent" << (got.str().size() == content.size() ? " (other contents)" : ""));
            }
        }
        dr.Down();
        dr.Finish();
    }
    unlink(path.c_str());
    w.peers.clear();
    c.nontrivial(total > 2);
    c.label("sink");
}

RACY_CASE(sampler, 1, 60000)
{
    StockWorld w(s, c);
    const bool multi = s.flip(), zero = s.flip();
    w.Add("data", false, 1, w.Transport(), c);
    const uint64_t limit = 1 + s.size(30);
    const size_t parts = 1 + s.draw(4), size = s.size(3000), align = s.pick({0, 0, 8, 64, 512});
    w.cfg.SetProperty<bool>("multipart", multi);
    w.cfg.SetProperty<bool>("memset", zero);
    w.cfg.SetProperty<size_t>("num-parts", parts);
    w.cfg.SetProperty<size_t>("msg-size", size);
    w.cfg.SetProperty<size_t>("msg-alignment", align);
    w.cfg.SetProperty<float>("msg-rate", s.chance(20) ? 2000 : 0);
    w.cfg.SetProperty<uint64_t>("max-iterations", limit);
    w.cfg.SetProperty<string>("out-channel", "data");
    c << " sampler " << limit << "x" << (multi ? parts : 1) << "x" << size << (zero ? " zero" : "");
    BenchmarkSampler d;
    d.SetConfig(w.cfg);
    {
        Driver dr(d);
        dr.ToReady();
        auto* peer = w.Peers("data").at(0);
        const size_t runs = 1 + s.draw(2);
        for (size_t r = 0; r < runs; ++r) {
            if (r > 0) {
                dr.To(T::ResetTask, S::DeviceReady);
                dr.To(T::InitTask, S::Ready);
            }
            dr.Clear();
            REQ(d.ChangeState(T::Run), "run was refused");
            for (uint64_t k = 0; k < limit; ++k) {
                Load l;
                REQ(ReceiveLoad(*peer, l, multi, 8000), "only " << k << " of " << limit << " messages came in run " << r);
                REQ_EQ(l.parts.size(), multi ? parts : 1, "parts");
                for (auto& p : l.parts) {
                    REQ_EQ(p.size(), size, "size");
                    if (zero) { REQ(p == string(size, '\0'), "the message is not filled with zeros"); }
                }
            }
            dr.Wait(S::Ready, 10000);
            Load l;
            REQ(!ReceiveLoad(*peer, l, multi, 20), "more than the configured " << limit << " messages were sent");
        }
        dr.Down();
        dr.Finish();
    }
    w.peers.clear();
    c.nontrivial(limit > 1);
    c.label("sampler");
}
