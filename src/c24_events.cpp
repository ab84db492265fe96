// C24: EventManager against a model: (event, signature, subscriber) -> callback
#include "harness.h"
#include <atomic>
#include <fairmq/EventManager.h>
#include <tuple>

using namespace fair::mq;

namespace {

struct EvA : Event<std::string> {};
struct EvB : Event<std::string> {};
struct EvC : Event<int> {};
struct EvR : Event<const std::string&> {};

struct Call
{
    int cb;
    std::string what;
    bool operator<(const Call& o) const { return std::tie(cb, what) < std::tie(o.cb, o.what); }
    bool operator==(const Call& o) const { return cb == o.cb && what == o.what; }
};
struct Log
{
    std::vector<Call> calls;
};

template<typename T>
std::string Show(const T& t)
{
    std::ostringstream o;
    o << t;
    return o.str();
}
template<typename... A>
std::string ShowAll(const A&... a)
{
    std::string r;
    ((r += "|" + Show(a)), ...);
    return r;
}

std::string MakeStr(pbt::Src& s) { return s.pick({"", "a", "bb", "chans.data.0.address", "k 3", "\xc3\xa9"}); }
int MakeInt(pbt::Src& s) { return static_cast<int>(s.edgy(-2147483647, 2147483647)); }

using Fn = std::function<void(std::string, int)>;

struct World;
// what a callback does besides logging
struct Extra
{
    int kind = 0;   // 0 nothing, 1 emit another kind, 2 unsubscribe itself, 3 subscribe another subscriber on another kind
    int arg = 0;
};

// one (event, signature) combination
struct Kind
{
    std::string name;
    std::function<void(EventManager&, const std::string& sub, int cb, World&, Extra)> subscribe;
    std::function<void(EventManager&, const std::string& sub)> unsubscribe;
    // emits generated values, returns the expected text
    std::function<std::function<void(EventManager&)>(pbt::Src&, std::string& what)> prepare;
};

struct World
{
    std::vector<Call> log;
    std::function<void(int cb, Extra)> onExtra;
};

template<typename K> struct KeyGen;
template<> struct KeyGen<std::string> { static std::string gen(pbt::Src& s) { return MakeStr(s); } };
template<> struct KeyGen<const std::string&> { static std::string gen(pbt::Src& s) { return MakeStr(s); } };
template<> struct KeyGen<int> { static int gen(pbt::Src& s) { return MakeInt(s); } };
template<typename T> struct Gen;
template<> struct Gen<std::string> { static std::string gen(pbt::Src& s) { return MakeStr(s); } };
template<> struct Gen<int> { static int gen(pbt::Src& s) { return MakeInt(s); } };
template<> struct Gen<bool> { static bool gen(pbt::Src& s) { return s.flip(); } };
template<> struct Gen<double> { static double gen(pbt::Src& s) { return static_cast<double>(MakeInt(s)) / 8; } };
template<> struct Gen<long> { static long gen(pbt::Src& s) { return s.edgy(-5000000000, 5000000000); } };
template<> struct Gen<unsigned> { static unsigned gen(pbt::Src& s) { return static_cast<unsigned>(s.edgy(0, 4000000000)); } };

template<typename Ev, typename... Args>
Kind MakeKind(const std::string& name)
{
    Kind k;
    k.name = name;
    k.subscribe = [](EventManager& m, const std::string& sub, int cb, World& w, Extra x) {
        std::function<void(typename Ev::KeyType, Args...)> f = [&w, cb, x](typename Ev::KeyType key, Args... args) {
            w.log.push_back(Call{cb, ShowAll(key, args...)});
            if (x.kind && w.onExtra) { w.onExtra(cb, x); }
        };
        m.Subscribe<Ev, Args...>(sub, f);
    };
    k.unsubscribe = [](EventManager& m, const std::string& sub) { m.Unsubscribe<Ev, Args...>(sub); };
    k.prepare = [](pbt::Src& s, std::string& what) -> std::function<void(EventManager&)> {
        auto key = KeyGen<typename Ev::KeyType>::gen(s);
        auto args = std::make_tuple(Gen<Args>::gen(s)...);
        what = std::apply([&](auto&... a) { return ShowAll(key, a...); }, args);
        return [key, args](EventManager& m) { std::apply([&](auto... a) { m.Emit<Ev, Args...>(key, a...); }, args); };
    };
    return k;
}

std::vector<Kind>& Kinds()
{
    static std::vector<Kind> k{
#ifndef FEW_KINDS
        MakeKind<EvA, int>("A(int)"),
        MakeKind<EvA, std::string>("A(string)"),
        MakeKind<EvB, int>("B(int)"),
        MakeKind<EvC, int>("C(int)"),
        MakeKind<EvR, int>("R(int)"),
        MakeKind<EvA>("A()"),
        MakeKind<EvA, int, std::string>("A(int,string)"),
        MakeKind<PropertyChangeAsString, std::string>("AsString(string)"),
        MakeKind<EvA, long>("A(long)"),
        MakeKind<EvB, unsigned>("B(unsigned)"),
#endif
        MakeKind<EvB, std::string>("B(string)"),
    };
    return k;
}

std::string Join(std::vector<Call> v)
{
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto& c : v) { r += "#" + std::to_string(c.cb) + c.what + " "; }
    return r;
}

}   // namespace

CASE(model, 6)
{
    EventManager m;
    World w;
    struct Sub { int cb; Extra x; };
    std::map<std::pair<size_t, std::string>, Sub> model;
    auto& kinds = Kinds();
    // a case concentrates on a few kinds and subscribers, so that operations meet
    size_t nk = 1 + s.draw(4);
    std::vector<size_t> ks;
    for (size_t i = 0; i < nk; ++i) { ks.push_back(s.draw(kinds.size())); }
    const std::vector<std::string> subs{"s", "t", "", "device", "s "};
    int nextCb = 0;
    bool sawReplace = false, sawMiss = false, sawHit = false, sawAfterUnsub = false;
    std::set<std::pair<size_t, std::string>> gone;
    std::vector<std::string> errors;
    std::vector<Call> expected;

    // nested behaviour of callbacks: executed for real and mirrored on the model
    w.onExtra = [&](int cb, Extra x) {
        if (x.kind == 1) {
            // emit on a kind that has only plain subscribers: checked by running the same code path in the model below
        }
        if (x.kind == 2) {
            for (auto& e : model) {
                if (e.second.cb == cb) {
                    auto key = e.first;
                    model.erase(key);
                    kinds[key.first].unsubscribe(m, key.second);
                    gone.insert(key);
                    break;
                }
            }
        }
        if (x.kind == 3) {
            size_t k = (static_cast<size_t>(x.arg)) % kinds.size();
            std::string sub = "nested" + std::to_string(x.arg % 3);
            int id = nextCb++;
            kinds[k].subscribe(m, sub, id, w, {});
            model[{k, sub}] = {id, {}};
        }
    };
    while (s.draw(24) != 0) {
        size_t k = s.pick(ks);
        std::string sub = s.pick(subs);
        switch (s.weighted({4, 2, 5})) {
            case 0: {
                Extra x;
                if (s.chance(15)) {
                    x.kind = s.flip() ? 2 : 3;
                    x.arg = static_cast<int>(s.draw(kinds.size()));
                    if (x.kind == 3 && static_cast<size_t>(x.arg) == k) { x.kind = 2; }
                }
                int id = nextCb++;
                c << "sub " << kinds[k].name << " " << sub << " #" << id << (x.kind == 2 ? "(unsubscribes itself)" : x.kind == 3 ? "(subscribes)" : "") << "; ";
                sawReplace |= model.count({k, sub}) > 0;
                kinds[k].subscribe(m, sub, id, w, x);
                model[{k, sub}] = {id, x};
                break;
            }
            case 1: {
                c << "unsub " << kinds[k].name << " " << sub << "; ";
                if (model.erase({k, sub})) {
                    kinds[k].unsubscribe(m, sub);
                    gone.insert({k, sub});
                } else {
                    sawMiss = true;
                    REQ_THROWS(std::out_of_range, kinds[k].unsubscribe(m, sub), "unsubscribing what is not subscribed");
                }
                break;
            }
            default: {
                std::string what;
                auto emit = kinds[k].prepare(s, what);
                c << "emit " << kinds[k].name << " " << what << "; ";
                w.log.clear();
                expected.clear();
                for (auto& e : model) {
                    if (e.first.first == k) { expected.push_back({e.second.cb, what}); }
                    if (gone.count({k, e.first.second})) { sawAfterUnsub = true; }
                }
                emit(m);
                sawHit |= !expected.empty();
                REQ_EQ(Join(w.log), Join(expected), "callbacks of " << kinds[k].name << " emitted with " << what);
            }
        }
    }
    c.label("resubscribed", sawReplace);
    c.label("unsubscribed unknown", sawMiss);
    c.label("emitted after an unsubscribe", sawAfterUnsub);
    c.nontrivial(sawHit && (sawReplace || !gone.empty() || model.size() > 1));
}

// an emission nested in a callback reaches exactly the subscribers of the nested event
CASE(nested_emit, 1)
{
    EventManager m;
    int outer = 0, inner = 0, depth = 0;
    const int n = static_cast<int>(1 + s.draw(4));
    c << n << " subscribers";
    for (int i = 0; i < n; ++i) {
        m.Subscribe<EvA, int>("s" + std::to_string(i), Fn([&](std::string key, int v) {
            ++outer;
            if (v > 0) { m.Emit<EvB, int>("in", v - 1); m.Emit<EvC, int>(v, v); }
            if (key.empty()) { ++depth; }
        }));
        m.Subscribe<EvB, int>("s" + std::to_string(i), Fn([&](std::string, int) { ++inner; }));
    }
    m.Emit<EvA, int>("x", 1);
    REQ_EQ(outer, n, "outer calls");
    REQ_EQ(inner, n * n, "inner calls");
    c.nontrivial(n > 1);
}

// threads: every thread sees all of its own emissions while it is subscribed, none otherwise
RACY_CASE(threads, 2, 30000)
{
    EventManager m;
    const int nt = static_cast<int>(2 + s.draw(4));
    std::vector<std::vector<int>> plans(static_cast<size_t>(nt));
    c << nt << " threads: ";
    for (auto& p : plans) {
        size_t n = 20 + s.draw(80);
        for (size_t i = 0; i < n; ++i) { p.push_back(static_cast<int>(s.draw(8))); }
    }
    std::vector<std::string> errs(static_cast<size_t>(nt));
    std::vector<int> finalCount(static_cast<size_t>(nt), 0);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    std::vector<char> leftSubscribed(static_cast<size_t>(nt), 0);
    std::vector<std::unique_ptr<std::atomic<long>>> own;
    for (int t = 0; t < nt; ++t) { own.push_back(std::make_unique<std::atomic<long>>(0)); }
    for (int t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < nt) {}
            auto& cnt = *own[static_cast<size_t>(t)];
            const std::string name = "t" + std::to_string(t);
            bool subscribed = false;
            for (int op : plans[static_cast<size_t>(t)]) {
                try {
                    if (op < 2) {
                        m.Subscribe<EvA, int>(name, Fn([&cnt, t](std::string, int v) { if (v == t) { ++cnt; } }));
                        subscribed = true;
                    } else if (op == 2) {
                        if (subscribed) { m.Unsubscribe<EvA, int>(name); subscribed = false; }
                    } else if (op == 3) {
                        m.Subscribe<EvB, int>(name, Fn([](std::string, int) {}));
                        m.Unsubscribe<EvB, int>(name);
                    } else if (op == 4) {
                        m.Emit<EvB, int>("k", t);
                        m.Emit<EvC, int>(t, t);
                    } else {
                        long before = cnt;
                        m.Emit<EvA, int>("k", t);
                        long d = cnt - before;
                        if (d != (subscribed ? 1 : 0)) {
                            errs[static_cast<size_t>(t)] = "own emission seen " + std::to_string(d) + " times while " + (subscribed ? "subscribed" : "not subscribed");
                            return;
                        }
                    }
                } catch (const std::exception& e) {
                    errs[static_cast<size_t>(t)] = std::string("exception: ") + e.what();
                    return;
                }
            }
            leftSubscribed[static_cast<size_t>(t)] = subscribed;
        });
    }
    for (auto& t : ts) { t.join(); }
    for (auto& e : errs) { REQ(e.empty(), e); }
    for (int t = 0; t < nt; ++t) {
        long before = *own[static_cast<size_t>(t)];
        m.Emit<EvA, int>("end", t);
        REQ_EQ(*own[static_cast<size_t>(t)] - before, static_cast<long>(leftSubscribed[static_cast<size_t>(t)]), "after the threads ended, thread " << t);
    }
    c.nontrivial(true);
}

// several threads subscribe under the same name: one subscription remains
RACY_CASE(same_subscriber, 1, 30000)
{
    EventManager m;
    const int nt = static_cast<int>(2 + s.draw(4));
    const int rounds = static_cast<int>(1 + s.draw(20));
    std::atomic<int> calls{0};
    std::atomic<int> ready{0};
    c << nt << " threads, " << rounds << " subscriptions each under one name";
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) {
        ts.emplace_back([&] {
            ++ready;
            while (ready < nt) {}
            for (int i = 0; i < rounds; ++i) { m.Subscribe<EvA, int>("one", Fn([&](std::string, int) { ++calls; })); }
        });
    }
    for (auto& t : ts) { t.join(); }
    m.Emit<EvA, int>("k", 1);
    REQ_EQ(calls.load(), 1, "callbacks of one subscriber");
    m.Unsubscribe<EvA, int>("one");
    m.Emit<EvA, int>("k", 1);
    REQ_EQ(calls.load(), 1, "callbacks after unsubscribing");
    c.nontrivial(true);
}
