// C17: running out of shared memory is reported and does no harm.
#include "msgworld.h"
#include <fairmq/Channel.h>
#include <thread>
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

namespace {
struct Env17
{
    string session = NewSession();
    ProgOptions cfg[2];
    std::shared_ptr<TransportFactory> f[2];
    bool rb;
    int attempts = 1, interval = 50;
    size_t before = 0;
    Env17(pbt::Src& s, pbt::Case& c, size_t segment, int factories, int att, int inter, bool throws = true)
        : attempts(att)
        , interval(inter)
    {
        rb = s.flip();
        for (int i = 0; i < factories; ++i) {
            cfg[i].SetProperty<string>("session", session);
            cfg[i].SetProperty<size_t>("shm-segment-size", segment);
            cfg[i].SetProperty<string>("shm-allocation", rb ? "rbtree_best_fit" : "simple_seq_fit");
            cfg[i].SetProperty<int>("bad-alloc-attempt-interval", inter);
            if (att != 1 || s.flip()) { cfg[i].SetProperty<int>("bad-alloc-max-attempts", att); }
            if (!throws || s.flip()) { cfg[i].SetProperty<bool>("shm-throw-bad-alloc", throws); }
            f[i] = TransportFactory::CreateTransportFactory("shmem", "s" + std::to_string(i), &cfg[i]);
        }
        bool sane = true;
        before = FreeProbe::Get(session, 0, rb, sane);
        c << (rb ? "rbtree " : "simple ") << segment << "/" << before << ": ";
    }
    ~Env17()
    {
        f[1].reset();
        f[0].reset();
        std::remove(SessionFile().c_str());
    }
    // whether the segment could hold a block of this size
    bool Room(size_t full) const
    {
        using namespace boost::interprocess;
        const std::string name = shmem::MakeShmName(shmem::makeShmIdStr(session), "m", 0);
        auto probe = [&](auto& s) {
            void* p = s.allocate(full, std::nothrow);
            if (p) { s.deallocate(p); }
            return p != nullptr;
        };
        if (rb) {
            shmem::RBTreeBestFitSegment s(open_only, name.c_str());
            return probe(s);
        }
        shmem::SimpleSeqFitSegment s(open_only, name.c_str());
        return probe(s);
    }
};
struct Held
{
    MessagePtr m;
    std::vector<unsigned char> b;
};
int gCalls = 0;
}   // namespace

CASE(exhaust, 6)
{
    const size_t segment = s.pick<size_t>({16384, 40000, 65536, 200000, 1 << 20, (1 << 20) + 4096 * 3 + 7});
    Env17 e(s, c, segment, 1 + static_cast<int>(s.draw(2)), s.pick({1, 1, 1, 0, 2, 3}), s.pick({0, 1}));
    std::vector<Held> v;
    uint64_t seed = s.draw(1000);
    std::vector<char> user(4 << 20);
    size_t refused = 0;
    auto fill = [&](Held& h) {
        h.b.resize(h.m->GetSize());
        const uint64_t k = pbt::Mix(seed++);
        for (size_t i = 0; i < h.b.size(); ++i) { h.b[i] = static_cast<unsigned char>(pbt::Mix(k + i / 8) >> (8 * (i % 8))); }
        if (!h.b.empty()) { memcpy(h.m->GetData(), h.b.data(), h.b.size()); }
    };
    auto check = [&](const char* when) {
        for (auto& h : v) {
            REQ_EQ(h.m->GetSize(), h.b.size(), "size of a message " << when);
            REQ(h.b.empty() || memcmp(h.m->GetData(), h.b.data(), h.b.size()) == 0, "the content of a message of " << h.b.size() << " bytes changed " << when);
        }
    };
    const int steps = 5 + static_cast<int>(s.draw(80));
    for (int i = 0; i < steps; ++i) {
        const auto op = s.draw(10);
        auto& fac = e.f[1] && s.flip() ? e.f[1] : e.f[0];
        if (op <= 6) {
            size_t n = 0;
            switch (s.draw(8)) {
                case 0: n = 1 + s.draw(64); break;
                case 1: n = 1 + s.draw(segment * 2); break;
                case 2: n = segment - std::min<size_t>(segment, s.draw(2000)); break;
                case 3: n = static_cast<size_t>(-1) - s.draw(2000); break;
                case 4: n = s.u64() | (1 << 20); break;
                case 5: {
                    // as much as there is
                    bool sane = true;
                    const size_t fr = FreeProbe::Get(e.session, 0, e.rb, sane);
                    n = std::max<size_t>(1, fr - std::min<size_t>(fr, s.draw(200)));
                    break;
                }
                default: n = 1 + s.draw(segment / 4);
            }
            size_t align = 0;
            if (s.chance(30)) { align = size_t(1) << s.draw(s.chance(20) ? 63 : 14); }
            auto form = s.draw(4);
            if (form == 2 && n > user.size()) { form = 0; }
            if (form == 3 && v.empty()) { form = 1; }
            Held h;
            size_t k = 0;
            const char* how = "";
            bool thrown = false;
            if (form == 3) { k = s.draw(v.size()); }
            const int calls = gCalls;
            const int64_t t0 = pbt::NowMs();
            try {
                if (form == 0 || (form == 1 && align == 0)) {
                    how = "create";
                    align = 0;
                    h.m = fac->CreateMessage(n);
                } else if (form == 1) {
                    how = "create aligned";
                    h.m = fac->CreateMessage(n, Alignment{align});
                } else if (form == 2) {
                    how = "create from buffer";
                    align = 0;
                    h.m = fac->CreateMessage(user.data(), n, [](void*, void*) { ++gCalls; });
                } else {
                    how = "rebuild";
                    h.m = std::move(v[k].m);
                    v.erase(v.begin() + static_cast<int>(k));
                    if (align) { h.m->Rebuild(n, Alignment{align}); }
                    else if (n <= user.size() && s.flip()) { h.m->Rebuild(user.data(), n, [](void*, void*) { ++gCalls; }); }
                    else { h.m->Rebuild(n); }
                }
            } catch (const MessageBadAlloc&) {
                thrown = true;
            }
            c << how << " " << n << (align ? "@" + std::to_string(align) : "") << (thrown ? " refused; " : "; ");
            const size_t al = std::max<size_t>(align, 16);
            REQ(pbt::NowMs() - t0 < 20000, "it took " << pbt::NowMs() - t0 << " ms");
            if (thrown) {
                ++refused;
                REQ(form != 2 || calls == gCalls, "the user's buffer was given back although there is no message");
                if (n <= segment && al <= segment) {
                    REQ(!e.Room(shmem::ShmHeader::FullSize(n, al)), "a message of " << n << " bytes was refused although there is room for it");
                }
                if (h.m) {
                    // a message that could not be built again is an empty one
                    h.m->Rebuild();
                    REQ_EQ(h.m->GetSize(), 0u, "size of a message that was emptied");
                    v.push_back(std::move(h));
                    c.label("failed rebuild");
                }
            } else {
                REQ(n <= segment && al <= segment, "there is a message of " << n << " bytes, larger than the segment");
                REQ_EQ(h.m->GetSize(), n, "size of a new message");
                REQ(h.m->GetData() != nullptr, "data of a new message");
                REQ_EQ(reinterpret_cast<uintptr_t>(h.m->GetData()) % al, 0u, "alignment of a new message");
                fill(h);
                v.push_back(std::move(h));
            }
        } else if (v.empty()) {
            continue;
        } else if (op == 7) {
            Held& h = v[s.draw(v.size())];
            const size_t n = s.draw(h.b.size() + 1);
            c << "shrink " << h.b.size() << ">" << n << "; ";
            if (h.m->SetUsedSize(n)) { h.b.resize(n); }
        } else if (op == 8 && s.flip()) {
            // copies need no memory, so there are always some
            const size_t k = s.draw(v.size());
            Held h;
            h.m = fac->CreateMessage();
            h.m->Copy(*v[k].m);
            h.b = v[k].b;
            v.push_back(std::move(h));
            c << "copy; ";
            c.label("copy");
        } else {
            size_t n = s.chance(15) ? v.size() : 1 + s.draw(std::min<size_t>(v.size(), 3));
            c << "drop " << n << "; ";
            while (n-- > 0) { v.erase(v.begin() + static_cast<int>(s.draw(v.size()))); }
        }
        if (s.chance(30)) { check("along the way"); }
    }
    check("at the end");
    v.clear();
    bool sane = true;
    REQ_EQ(FreeProbe::Get(e.session, 0, e.rb, sane), e.before, "free memory when all messages are gone");
    REQ(sane, "the segment is not sane");
    if (refused > 0) {
        c.nontrivial();
        // and all of it can be used again
        const size_t n = e.before - std::min<size_t>(e.before, 300);
        if (n > 0 && e.Room(shmem::ShmHeader::FullSize(n, 16))) {
            auto m = e.f[0]->CreateMessage(n);
            REQ_EQ(m->GetSize(), n, "size");
            memset(m->GetData(), 7, n);
        }
    }
}

// how often and how long it is tried
RACY_CASE(attempts, 1, 30000)
{
    const int n = static_cast<int>(s.draw(7)), inter = s.pick({0, 10, 30, 60});
    Env17 e(s, c, 65536, 1, n, inter);
    c << n << " attempts, every " << inter << " ms";
    c.nontrivial();
    std::vector<MessagePtr> hold;
    while (e.Room(2000)) { hold.push_back(e.f[0]->CreateMessage(900)); }
    const size_t big = s.flip() ? 4000 : 40000;
    int64_t best = 1 << 20;
    const int64_t due = n <= 1 ? 0 : static_cast<int64_t>(n - 1) * inter;
    for (int i = 0; i < 6 && best > due + 5; ++i) {
        const int64_t t0 = pbt::NowMs();
        REQ_THROWS(MessageBadAlloc, e.f[0]->CreateMessage(big), "a message that does not fit");
        const int64_t t = pbt::NowMs() - t0;
        REQ(t + 1 >= due, "it was given up after " << t << " ms, expected " << due);
        best = std::min(best, t);
    }
    REQ(best <= due + std::max(inter - 5, 4), "it was given up after " << best << " ms at the earliest, expected " << due);
    // what can never fit is refused at once
    const int64_t t0 = pbt::NowMs();
    REQ_THROWS(MessageBadAlloc, e.f[0]->CreateMessage(70000 + s.draw(1000000)), "a message larger than the segment");
    (void)t0;
}

// memory that is given back while somebody waits for it
RACY_CASE(waiting, 2, 30000)
{
    const bool infinite = s.flip();
    const int inter = s.pick({1, 5, 20});
    const bool flag = infinite && s.flip();   // the other way to ask for it
    Env17 e(s, c, 100000, 2, infinite && !flag ? -1 : infinite ? 1 : 20000 / inter, inter, !flag);
    std::vector<Held> hold;
    bool sane = true;
    uint64_t seed = s.draw(1000);
    auto put = [&](size_t n) {
        Held h;
        h.m = e.f[s.flip()]->CreateMessage(n);
        h.b.resize(n);
        for (auto& x : h.b) { x = static_cast<unsigned char>(pbt::Mix(seed++)); }
        memcpy(h.m->GetData(), h.b.data(), n);
        hold.push_back(std::move(h));
    };
    const size_t n = 3000 + s.draw(20000);
    while (e.Room(n)) { put(n); }
    const size_t first = hold.size();
    while (e.Room(600)) { put(400); }
    (void)first;
    const int what = static_cast<int>(s.draw(3));
    const int delay = static_cast<int>(s.draw(40));
    const int waiter = static_cast<int>(s.draw(2));
    c << (infinite ? flag ? "no exception" : "infinite" : "20 s") << ", every " << inter << " ms, " << (what == 0 ? "interrupted" : what == 1 ? "interrupted and resumed" : "freed") << " after " << delay << " ms";
    c.nontrivial();
    if (what == 1) { e.f[waiter]->Interrupt(); }
    std::atomic<bool> done{false};
    const int64_t t0 = pbt::NowMs();
    const size_t k = s.draw(std::min<size_t>(first, hold.size()));
    std::thread t;
    bool thrown = false;
    MessagePtr m;
    if (what == 1) {
        // does not wait while interrupted
        try {
            m = e.f[waiter]->CreateMessage(n);
        } catch (const MessageBadAlloc&) {
            thrown = true;
        }
        REQ(thrown, "a message that does not fit");
        REQ(pbt::NowMs() - t0 < 10000, "an interrupted attempt took " << pbt::NowMs() - t0 << " ms");
        e.f[waiter]->Resume();
        thrown = false;
    }
    std::vector<unsigned char> freed;
    t = std::thread([&] {
        usleep(static_cast<unsigned>(delay) * 1000);
        if (what == 0) {
            e.f[waiter]->Interrupt();
        } else {
            hold[k].m.reset();
        }
        done = true;
    });
    try {
        m = e.f[waiter]->CreateMessage(n);
    } catch (const MessageBadAlloc&) {
        thrown = true;
    }
    const bool early = !done && delay > 0;
    const int64_t took = pbt::NowMs() - t0;
    t.join();
    REQ(!early || !thrown, "it was given up early, after " << took << " ms");
    REQ(took < 10000 + delay, "it took " << took << " ms");
    REQ_EQ(thrown, what == 0, "an exception");
    if (m) {
        REQ_EQ(m->GetSize(), n, "size of the message");
        memset(m->GetData(), 0x11, n);
    }
    if (what == 0) {
        e.f[waiter]->Resume();
        hold[k].m.reset();
        m = e.f[waiter]->CreateMessage(n);
        REQ_EQ(m->GetSize(), n, "size of the message after the interruption");
    }
    for (auto& h : hold) { REQ(!h.m || memcmp(h.m->GetData(), h.b.data(), h.b.size()) == 0, "the content of another message changed"); }
    m.reset();
    hold.clear();
    REQ_EQ(FreeProbe::Get(e.session, 0, e.rb, sane), e.before, "free memory when all messages are gone");
}

// several users of one segment at its limit
RACY_CASE(threads, 1, 30000)
{
    const size_t segment = s.pick<size_t>({65536, 200000});
    Env17 e(s, c, segment, 2, s.pick({1, 2, 50}), 1);
    const int nt = 2 + static_cast<int>(s.draw(3));
    const uint64_t seed = s.u64();
    c << nt << " threads, " << e.attempts << " attempts";
    std::atomic<int> refused{0}, made{0};
    std::vector<string> errors(static_cast<size_t>(nt));
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            uint64_t r = pbt::Mix(seed + static_cast<uint64_t>(t) * 77);
            auto next = [&](uint64_t n) { r = pbt::Mix(r); return r % n; };
            std::vector<std::pair<MessagePtr, unsigned char>> v;
            auto good = [&](const std::pair<MessagePtr, unsigned char>& x) {
                auto* d = static_cast<unsigned char*>(x.first->GetData());
                for (size_t i = 0; i < x.first->GetSize(); ++i) {
                    if (d[i] != x.second) { return false; }
                }
                return true;
            };
            for (int i = 0; i < 150; ++i) {
                if (next(5) < 3) {
                    const size_t n = 1 + next(next(4) ? segment / 8 : segment / 2);
                    try {
                        auto m = e.f[t % 2]->CreateMessage(n);
                        const auto b = static_cast<unsigned char>(next(256));
                        memset(m->GetData(), b, n);
                        v.emplace_back(std::move(m), b);
                        ++made;
                    } catch (const MessageBadAlloc&) {
                        ++refused;
                        if (!v.empty()) { v.erase(v.begin()); }
                    }
                } else if (!v.empty()) {
                    const size_t k = next(v.size());
                    if (!good(v[k])) { errors[static_cast<size_t>(t)] = "the content of a message changed"; }
                    v.erase(v.begin() + static_cast<int>(k));
                }
            }
            for (auto& x : v) {
                if (!good(x)) { errors[static_cast<size_t>(t)] = "the content of a message changed"; }
            }
        });
    }
    for (auto& t : ts) { t.join(); }
    for (auto& x : errors) { REQ(x.empty(), x); }
    if (refused > 0) { c.nontrivial(); }
    bool sane = true;
    REQ_EQ(FreeProbe::Get(e.session, 0, e.rb, sane), e.before, "free memory when all messages are gone");
    REQ(sane, "the segment is not sane");
}
