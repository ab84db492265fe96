// C20: data callbacks see every message of their channel exactly once.
#include "devworld.h"
#include <map>
using namespace dw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
struct Group
{
    string name, type, peerType, transport;
    int n = 1;
    bool multi = false, member = false;
};
struct Sent
{
    Load load;
    bool done = false;
};
struct Call
{
    string channel;
    int index;
    Load load;
    int run;
    bool answer;
};
struct Dev : Device
{
    std::mutex mtx;
    std::vector<Call> calls;
    std::atomic<int> inside{0}, run{0};
    std::atomic<bool> overlapped{false}, afterEnd{false}, ended{false};
    int stopAfter = -1;    // calls in this run after which the callback answers false
    int throwAfter = -1;
    int callsInRun = 0;
    std::map<string, bool> replies;
    std::atomic<size_t> seen{0};
    std::map<string, string> memberOf;   // which channel a member function stands for

    bool Handle(const string& ch, int index, Load l)
    {
        if (inside++ != 0) { overlapped = true; }
        bool answer = true;
        int n = 0;
        {
            std::lock_guard<std::mutex> lk(mtx);
            if (ended) { afterEnd = true; }
            n = ++callsInRun;
            answer = !(n == stopAfter);
            if (n == stopAfter) { ended = true; }   // an exception may come in the way of another transport's callback
            calls.push_back({ch, index, l, run, answer});
        }
        ++seen;
        if (replies[ch]) {
            Load r = l;
            for (auto& p : r.parts) { p = "re:" + p; }
            SendLoad(GetChannel(ch, index), r, r.parts.size() > 1 || replyParts[ch], 5000);
        }
        --inside;
        if (n == throwAfter) { throw std::runtime_error("thrown by the callback"); }
        return answer;
    }
    std::map<string, bool> replyParts;
    bool Msg0(MessagePtr& m, int i) { return Handle(memberOf["Msg0"], i, FromMsg(m)); }
    bool Msg1(MessagePtr& m, int i) { return Handle(memberOf["Msg1"], i, FromMsg(m)); }
    bool Msg2(MessagePtr& m, int i) { return Handle(memberOf["Msg2"], i, FromMsg(m)); }
    bool Parts0(Parts& p, int i) { return Handle(memberOf["Parts0"], i, FromParts(p)); }
    bool Parts1(Parts& p, int i) { return Handle(memberOf["Parts1"], i, FromParts(p)); }
    bool Parts2(Parts& p, int i) { return Handle(memberOf["Parts2"], i, FromParts(p)); }
    void PreRun() override
    {
        std::lock_guard<std::mutex> lk(mtx);
        callsInRun = 0;
        ended = false;
        ++run;
    }
};
}   // namespace

RACY_CASE(callbacks, 1, 60000)
{
    SessionGuard guard;
    ProgOptions cfg;
    cfg.SetProperty<string>("session", guard.session);
    cfg.SetProperty<size_t>("shm-segment-size", 8 << 20);
    cfg.SetProperty<bool>("shm-monitor", false);
    cfg.SetProperty<string>("id", "dev");
    const string def = s.pick({"zeromq", "shmem"});
    cfg.SetProperty<string>("transport", def);
    ProgOptions peerCfg;
    peerCfg.SetProperty<string>("session", guard.session);
    peerCfg.SetProperty<size_t>("shm-segment-size", 8 << 20);
    peerCfg.SetProperty<bool>("shm-monitor", false);

    std::vector<Group> groups;
    const size_t ng = 1 + s.weighted({30, 30, 25, 15});
    const auto mix = s.weighted({40, 30, 30});   // zeromq, shmem, both
    for (size_t i = 0; i < ng; ++i) {
        Group g;
        g.name = "in" + std::to_string(i);
        g.type = s.pick({"pull", "pull", "pair", "dealer", "rep"});
        g.peerType = g.type == "pull" ? "push" : g.type == "rep" ? "req" : g.type;
        g.transport = mix == 0 ? "zeromq" : mix == 1 ? "shmem" : s.pick({"zeromq", "shmem", "default"});
        g.n = 1 + static_cast<int>(s.weighted({55, 25, 20}));
        g.multi = s.flip();
        g.member = s.flip();
        groups.push_back(g);
        c << "[" << g.name << ":" << g.type << "x" << g.n << " " << g.transport << (g.multi ? " parts" : " msg") << "]";
    }
    const bool bindHere = s.flip();
    // peers
    std::shared_ptr<TransportFactory> f[2];
    auto factory = [&](const string& t) {
        const int i = (t == "default" ? def : t) == "shmem";
        if (!f[i]) { f[i] = TransportFactory::CreateTransportFactory(i ? "shmem" : "zeromq", "peer", &peerCfg); }
        return f[i];
    };
    std::map<string, std::vector<std::unique_ptr<Channel>>> peers;
    for (auto& g : groups) {
        for (int i = 0; i < g.n; ++i) {
            const string a = Ipc(g.name + "_" + std::to_string(i)), p = "chans." + g.name + "." + std::to_string(i) + ".";
            cfg.SetProperty<string>(p + "type", g.type);
            cfg.SetProperty<string>(p + "method", bindHere ? "bind" : "connect");
            cfg.SetProperty<string>(p + "address", a);
            cfg.SetProperty<string>(p + "transport", g.transport);
            peers[g.name].push_back(std::make_unique<Channel>("peer", g.peerType, factory(g.transport)));
            if (bindHere) { REQ(peers[g.name].back()->Connect(a), "peer could not connect"); }
            else { REQ(peers[g.name].back()->Bind(a), "peer could not bind"); }
        }
    }
    auto d = std::make_unique<Dev>();
    d->SetConfig(cfg);
    int member = 0;
    for (auto& g : groups) {
        d->replies[g.name] = g.type == "rep";
        d->replyParts[g.name] = g.multi;
        if (g.member && member < 3) {
            const int k = member++;
            const string m = (g.multi ? "Parts" : "Msg") + std::to_string(k);
            d->memberOf[m] = g.name;
            if (g.multi) { d->OnData(g.name, k == 0 ? &Dev::Parts0 : k == 1 ? &Dev::Parts1 : &Dev::Parts2); }
            else { d->OnData(g.name, k == 0 ? &Dev::Msg0 : k == 1 ? &Dev::Msg1 : &Dev::Msg2); }
        } else if (g.multi) {
            d->OnData(g.name, [&, name = g.name, dev = d.get()](Parts& p, int i) { return dev->Handle(name, i, FromParts(p)); });
        } else {
            d->OnData(g.name, [&, name = g.name, dev = d.get()](MessagePtr& m, int i) { return dev->Handle(name, i, FromMsg(m)); });
        }
    }
    std::map<std::pair<string, int>, std::vector<Sent>> sent;
    size_t total = 0, runs = 1 + s.draw(3), stops = 0;
    bool threw = false;
    {
        Driver dr(*d);
        dr.ToReady();
        auto sendSome = [&](size_t n) {
            for (size_t k = 0; k < n; ++k) {
                auto& g = groups[s.draw(groups.size())];
                const int i = static_cast<int>(s.draw(g.n));
                auto& q = sent[{g.name, i}];
                if (g.type == "rep" && !q.empty() && !q.back().done) { continue; }   // one request at a time
                Load l = MakeLoad(s, g.name + "." + std::to_string(i) + "#" + std::to_string(q.size()) + ";", g.multi);
                const bool asParts = g.multi;
                REQ(SendLoad(*peers[g.name][i], l, asParts, 5000) >= 0, "the peer could not send to " << g.name);
                q.push_back({l, false});
                ++total;
            }
        };
        for (size_t r = 0; r < runs && !threw; ++r) {
            c << " run";
            if (s.flip()) { sendSome(s.size(15)); }
            const size_t before = d->seen;
            {
                std::lock_guard<std::mutex> lk(d->mtx);
                d->stopAfter = s.chance(45) ? 1 + static_cast<int>(s.draw(12)) : -1;
                d->throwAfter = d->stopAfter < 0 && s.chance(12) ? 1 + static_cast<int>(s.draw(5)) : -1;
                if (d->stopAfter > 0) { c << "(false after " << d->stopAfter << ")"; }
                if (d->throwAfter > 0) { c << "(throws after " << d->throwAfter << ")"; }
            }
            dr.Clear();
            REQ(d->ChangeState(T::Run), "running was refused");
            dr.Wait(S::Running);
            sendSome(s.size(25));
            c << "(" << total << " sent)";
            // replies are awaited, so that the next request may be sent
            auto takeReplies = [&](int timeout) {
                for (auto& g : groups) {
                    if (g.type != "rep") { continue; }
                    for (int i = 0; i < g.n; ++i) {
                        auto& q = sent[{g.name, i}];
                        if (q.empty() || q.back().done) { continue; }
                        Load l;
                        if (!ReceiveLoad(*peers[g.name][i], l, g.multi, timeout)) { continue; }
                        Load w = q.back().load;
                        for (auto& p : w.parts) { p = "re:" + p; }
                        REQ(l == w, "reply " << Show(l) << " to " << Show(w));
                        q.back().done = true;
                    }
                }
            };
            const size_t expect = total - before;
            int limit = -1;
            if (d->stopAfter > 0 && static_cast<size_t>(d->stopAfter) <= expect) { limit = d->stopAfter; }
            if (d->throwAfter > 0 && static_cast<size_t>(d->throwAfter) <= expect) { limit = d->throwAfter; threw = true; }
            const size_t until = before + (limit >= 0 ? static_cast<size_t>(limit) : expect);
            for (int64_t t0 = pbt::NowMs(); d->seen < until; std::this_thread::sleep_for(std::chrono::microseconds(200))) {
                REQ(pbt::NowMs() - t0 < 15000, "only " << d->seen << " of " << until << " messages were handed to a callback");
                REQ(!dr.Ended(), "the device ended");
                takeReplies(0);
            }
            if (threw) {
                REQ(dr.WaitEnd(), "the exception of a callback does not end the device");
                REQ(dr.Threw() && d->GetCurrentState() == S::Error, "the exception of a callback did not lead to the error state");
            } else if (limit >= 0) {
                ++stops;
                dr.Wait(S::Ready);
            } else {
                // nothing comes twice
                if (s.chance(30)) { std::this_thread::sleep_for(std::chrono::milliseconds(s.draw(30))); }
                REQ(!dr.Reached(S::Ready), "the device left the running state by itself");
                REQ(d->ChangeState(T::Stop), "stopping was refused");
                dr.Wait(S::Ready);
            }
            takeReplies(200);
            std::lock_guard<std::mutex> lk(d->mtx);
            REQ(!d->overlapped, "callbacks of different channels ran at the same time");
            REQ(!d->afterEnd, "a callback was called after one had ended the loop");
            if (threw) { REQ(d->calls.size() >= until, "too few callbacks"); }
            else REQ_EQ(d->calls.size(), until, "messages handed to callbacks");
        }
        if (!threw && s.chance(70)) {
            dr.Down();
            dr.Finish();
        }
    }
    // every message at most once (all of them, unless the loop was ended), at the right place, in order
    std::map<std::pair<string, int>, size_t> pos;
    for (auto& k : d->calls) {
        auto it = sent.find({k.channel, k.index});
        REQ(it != sent.end(), "callback of " << k.channel << "[" << k.index << "] for " << Show(k.load) << " although nothing was sent there");
        auto& p = pos[{k.channel, k.index}];
        REQ(p < it->second.size(), k.channel << "[" << k.index << "]: one message too many: " << Show(k.load));
        REQ(it->second[p].load == k.load, k.channel << "[" << k.index << "]: message " << p << " is " << Show(k.load) << ", sent was " << Show(it->second[p].load));
        ++p;
    }
    d.reset();
    peers.clear();
    int subs = 0;
    for (auto& g : groups) { subs += g.n; }
    c.label("several transports", mix == 2);
    c.label("ended by callback", stops > 0);
    c.label("callback threw", threw);
    c.nontrivial(total > 4 && subs > 1);
}
