// A world of messages, sockets and factories of one real transport, driven next to a model of what every message must hold.
#ifndef VERIF_MSGWORLD_H
#define VERIF_MSGWORLD_H
#include "harness.h"
#include <atomic>
#include <chrono>
#include <boost/interprocess/managed_shared_memory.hpp>
#include <cstring>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Message.h>
#include <fairmq/shmem/Monitor.h>
#include <memory>
#include <mutex>
#include <optional>

namespace mw {
using namespace fair::mq;
using std::string;
using std::vector;

// --- sessions -------------------------------------------------------------------------------------------------------
inline string SessionFile() { return pbt::Scratch() + "/session_" + std::to_string(pbt::WorkerId()); }
inline void RemoveShm(const string& shmId)
{
    const string prefix = "fmq_" + shmId + "_";
    if (FILE* p = popen(("ls /dev/shm | grep '^" + prefix + "'").c_str(), "r")) {
        char line[512];
        while (fgets(line, sizeof(line), p)) {
            string n(line);
            while (!n.empty() && (n.back() == '\n' || n.back() == '\r')) { n.pop_back(); }
            if (n.compare(0, prefix.size(), prefix) == 0) { unlink(("/dev/shm/" + n).c_str()); }
        }
        pclose(p);
    }
}
// remove what a crashed predecessor of this worker left behind
inline void CleanPredecessor()
{
    std::ifstream f(SessionFile());
    string id;
    if (f >> id) { RemoveShm(id); }
}
inline string NewSession()
{
    static std::atomic<int> n{0};
    // process ids are used again, also while something of a process that was killed is left
    string s = "verif_" + std::to_string(getpid()) + "_" + std::to_string(std::chrono::steady_clock::now().time_since_epoch().count()) + "_" + std::to_string(n++);
    std::ofstream(SessionFile()) << shmem::makeShmIdStr(s);
    std::ofstream(pbt::Scratch() + "/sessions.log", std::ios::app) << shmem::makeShmIdStr(s) + "\n";   // for check.py to clean up
    return s;
}
struct FreeProbe
{
    // free memory of a managed segment, read from the segment itself
    static size_t Get(const string& session, uint16_t seg, bool rbtree, bool& sane)
    {
        using namespace boost::interprocess;
        const string name = shmem::MakeShmName(shmem::makeShmIdStr(session), "m", seg);
        if (rbtree) {
            shmem::RBTreeBestFitSegment s(open_only, name.c_str());
            sane = s.check_sanity();
            return s.get_free_memory();
        }
        shmem::SimpleSeqFitSegment s(open_only, name.c_str());
        sane = s.check_sanity();
        return s.get_free_memory();
    }
};

// --- model ----------------------------------------------------------------------------------------------------------
enum class Mode { content, callbacks, memory };

// what a user buffer's callback was told; outlives everything
struct UserBuf
{
    vector<char> storage;
    void* ptr = nullptr;
    size_t size = 0;
    void* hint = nullptr;
    std::atomic<int> calls{0};
    std::atomic<bool> wrongData{false};
    std::atomic<int> refs{0};        // live messages of the model that refer to it
    std::atomic<bool> early{false};
    bool immediate = false;          // the transport copies user buffers
    bool built = false;
};
inline void OnFree(void* data, void* hint)
{
    auto* u = static_cast<UserBuf*>(hint);
    ++u->calls;
    if (data != u->ptr) { u->wrongData = true; }
    if (!u->immediate && u->refs > 0) { u->early = true; }
    if (u->calls == 1 && u->size > 0 && data == u->ptr) { memset(u->ptr, 0xee, u->size); }
}
struct Buf
{
    vector<unsigned char> bytes;
    size_t align = 1;
    UserBuf* user = nullptr;
    int block = -1;   // of the region
    bool noWrite = false;
    int shmSeg = -1;  // managed segment
    std::vector<int>* freeBlocks = nullptr;
    ~Buf()
    {
        if (user) { --user->refs; }
        if (block >= 0 && freeBlocks) { freeBlocks->push_back(block); }
    }
};
using BufPtr = std::shared_ptr<Buf>;

struct Slot
{
    MessagePtr m;
    int f = 0;   // factory
    bool sent = false;
    BufPtr b;
    size_t size = 0;
    size_t recvAlign = 0;   // alignment asked for, of buffers received into it (zeromq)
    bool aligned = false;   // the current buffer has to have this message's alignment
    bool pristine = false;
};
struct Flight
{
    bool parts = false;
    vector<std::pair<BufPtr, size_t>> ms;
};
struct Pipe
{
    int from = 0, to = 0;
    SocketPtr tx, rx;
    bool inproc = false;
    std::vector<Flight> q;
    string name;
};

struct World
{
    pbt::Src& s;
    pbt::Case& c;
    Mode mode;
    bool shm;
    string session;
    bool rbtree = true;
    uint16_t segId[2] = {0, 0};
    size_t segSize[2] = {0, 0};
    ProgOptions config[2];
    std::shared_ptr<TransportFactory> f[2];
    const char* base[2][2] = {{nullptr, nullptr}, {nullptr, nullptr}};   // [factory][segment]
    UnmanagedRegionPtr region;
    size_t blockSize = 0;
    vector<int> freeBlocks;
    vector<Slot> slots;
    vector<Pipe> pipes;
    std::vector<std::unique_ptr<UserBuf>> users;
    uint64_t counter = 1;
    size_t free0[2] = {0, 0};
    int steps = 0, sends = 0, copies = 0, resizes = 0, failures = 0;

    World(pbt::Src& src, pbt::Case& cs, Mode m, bool sh) : s(src), c(cs), mode(m), shm(sh)
    {
        session = NewSession();
        rbtree = !shm || s.chance(60);
        segId[1] = shm && s.chance(40) ? 1 : 0;
        for (int i = 0; i < 2; ++i) {
            segSize[i] = i == 1 && segId[1] == 0 ? segSize[0] : s.pick({1u << 20, 100000u, 300000u, 8u << 20});
            config[i].SetProperty<string>("session", session);
            if (shm) {
                config[i].SetProperty<size_t>("shm-segment-size", segSize[i]);
                config[i].SetProperty<string>("shm-allocation", rbtree ? "rbtree_best_fit" : "simple_seq_fit");
                config[i].SetProperty<uint16_t>("shm-segment-id", segId[i]);
                if (s.chance(20)) { config[i].SetProperty<size_t>("shm-metadata-msg-size", 2048); }
            }
            f[i] = TransportFactory::CreateTransportFactory(shm ? "shmem" : "zeromq", "dev" + std::to_string(i), &config[i]);
        }
        c << (shm ? "shmem" : "zeromq") << (shm && !rbtree ? " seq_fit" : "") << (segId[1] ? " two segments" : "");
        if (shm) {
            c << " sizes " << segSize[0] << "," << segSize[1];
            for (int i = 0; i < 2; ++i) {
                for (auto& info : f[i]->GetRegionInfo()) {
                    if (info.managed && info.id < 2) { base[i][info.id] = static_cast<const char*>(info.ptr); }
                }
            }
            Measure(free0);
        }
        if (s.chance(shm ? 35 : 30)) {
            RegionConfig rc;
            rc.rcSegmentSize = s.flip() ? 0 : 400000;
            blockSize = s.pick({64u, 100u, 1024u});
            const int blocks = 8;
            region = f[0]->CreateUnmanagedRegion(blockSize * blocks, RegionCallback(nullptr), rc);
            for (int i = 0; i < blocks; ++i) { freeBlocks.push_back(i); }
            c << " region(rc " << rc.rcSegmentSize << ")";
            c.label("region");
        }
        AddPipe(0, 0, "inproc://a");
        if (s.chance(60)) { AddPipe(0, 1, "ipc://@" + session + "x"); }
        if (s.chance(30)) { AddPipe(1, 0, "ipc://@" + session + "y"); }
        c << "; ";
    }
    void Measure(size_t (&out)[2])
    {
        for (int i = 0; i < 2; ++i) {
            bool sane = false;
            out[i] = FreeProbe::Get(session, segId[i], rbtree, sane);
            REQ(sane, "the managed segment " << segId[i] << " is corrupt");
        }
    }
    void AddPipe(int from, int to, const string& address)
    {
        Pipe p;
        p.from = from;
        p.to = to;
        p.inproc = address.compare(0, 6, "inproc") == 0;
        p.tx = f[from]->CreateSocket("push", "tx" + std::to_string(pipes.size()));
        p.rx = f[to]->CreateSocket("pull", "rx" + std::to_string(pipes.size()));
        p.tx->SetLinger(0);
        p.rx->SetLinger(0);
        REQ(p.tx->Bind(address), "bind " << address);
        REQ(p.rx->Connect(address), "connect " << address);
        p.name = "p" + std::to_string(pipes.size());
        pipes.push_back(std::move(p));
    }

    // --- contents
    unsigned char At(uint64_t seed, size_t i) const { return static_cast<unsigned char>(pbt::Mix(seed + i / 8) >> (8 * (i % 8))); }
    void Fill(Slot& sl)
    {
        const uint64_t seed = (counter++) << 20;
        sl.b->bytes.resize(std::max(sl.b->bytes.size(), sl.size));
        auto* p = static_cast<unsigned char*>(sl.m->GetData());
        if (sl.size > 0) { REQ(p != nullptr, "a message of " << sl.size << " bytes has no data"); }
        for (size_t i = 0; i < sl.size; ++i) { sl.b->bytes[i] = At(seed, i); }
        if (sl.size) { memcpy(p, sl.b->bytes.data(), sl.size); }
    }
    void CheckSlot(const Slot& sl, const char* when)
    {
        REQ(sl.m->GetType() == (shm ? Transport::SHM : Transport::ZMQ), "message type");
        if (sl.sent) { return; }
        if (mode == Mode::content) {
            REQ_EQ(sl.m->GetSize(), sl.size, "size of message " << (&sl - slots.data()) << " " << when);
            if (sl.pristine) { REQ(sl.m->GetData() == nullptr, "an empty message has data"); }
            if (sl.size > 0) {
                auto* p = static_cast<const unsigned char*>(sl.m->GetData());
                REQ(p != nullptr, "message " << (&sl - slots.data()) << " of " << sl.size << " bytes has no data " << when);
                if (memcmp(p, sl.b->bytes.data(), sl.size) != 0) {
                    size_t i = 0;
                    while (p[i] == sl.b->bytes[i]) { ++i; }
                    REQ(false, "message " << (&sl - slots.data()) << " of " << sl.size << " bytes is different from byte " << i << " on " << when);
                }
                const size_t a = std::max<size_t>(1, sl.b->align);
                REQ(reinterpret_cast<uintptr_t>(p) % a == 0, "message " << (&sl - slots.data()) << " is not aligned to " << a << " " << when);
                if (sl.aligned && sl.recvAlign > 1) {
                    REQ(reinterpret_cast<uintptr_t>(p) % sl.recvAlign == 0, "message " << (&sl - slots.data()) << ", received into with alignment " << sl.recvAlign << ", is not aligned " << when);
                }
            }
        }
        if (mode == Mode::memory && shm && sl.size > 0 && sl.b) {
            auto* msg = static_cast<shmem::Message*>(sl.m.get());
            REQ_EQ(msg->GetRefCount(), static_cast<uint16_t>(sl.b.use_count()), "reference count of message " << (&sl - slots.data()) << " " << when);
        }
    }
    void CheckAll(const char* when)
    {
        for (auto& sl : slots) { CheckSlot(sl, when); }
        if (mode == Mode::callbacks) {
            for (auto& u : users) { CheckUser(*u); }
        }
        if (mode == Mode::memory && shm) { CheckOverlap(); }
    }
    void CheckUser(UserBuf& u)
    {
        if (!u.built) { return; }
        REQ(u.calls <= 1, "the callback of a user buffer of " << u.size << " bytes was called " << u.calls << " times");
        REQ(!u.wrongData, "the callback was called with another address");
        REQ(!u.early, "the callback of a user buffer of " << u.size << " bytes was called while " << u.refs << " messages refer to it");
    }
    void CheckOverlap()
    {
        // [segment] -> start, end, buffer
        std::map<int, vector<std::tuple<size_t, size_t, const Buf*>>> where;
        for (auto& sl : slots) {
            if (sl.sent || sl.size == 0 || !sl.b || sl.b->block >= 0) { continue; }
            auto* p = static_cast<const char*>(sl.m->GetData());
            bool found = false;
            for (int seg = 0; seg < 2 && !found; ++seg) {
                const char* b = base[sl.f][seg];
                const size_t n = seg == segId[0] ? segSize[0] : segSize[1];
                if (b && p >= b && p < b + n) {
                    REQ(p + sl.size <= b + n, "a message reaches behind the end of its segment");
                    where[seg].emplace_back(p - b, p - b + sl.size, sl.b.get());
                    found = true;
                }
            }
            REQ(found, "the data of a message is in no managed segment");
        }
        for (auto& [seg, v] : where) {
            std::sort(v.begin(), v.end());
            for (size_t i = 1; i < v.size(); ++i) {
                auto& [b0, e0, p0] = v[i - 1];
                auto& [b1, e1, p1] = v[i];
                if (p0 == p1) {
                    REQ(b0 == b1, "two messages with the same buffer at different places");
                } else {
                    REQ(b1 >= e0, "two live messages overlap: [" << b0 << "," << e0 << ") and [" << b1 << "," << e1 << ")");
                }
            }
        }
    }

    // --- generators
    size_t GenSize()
    {
        switch (s.draw(12)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return s.pick({29u, 30u, 33u, 34u});   // around the size zeromq keeps inside its message
            case 3: return s.draw(5000);
            case 4: return shm ? s.draw(200000) : s.draw(50000);
            default: return s.draw(200);
        }
    }
    size_t GenAlign() { return s.pick({1u, 2u, 4u, 8u, 16u, 32u, 64u, 128u, 256u, 1024u, 4096u, 0u}); }
    int PickSlot(std::function<bool(const Slot&)> pred)
    {
        vector<int> ok;
        for (size_t i = 0; i < slots.size(); ++i) {
            if (pred(slots[i])) { ok.push_back(static_cast<int>(i)); }
        }
        return ok.empty() ? -1 : ok[s.draw(ok.size())];
    }
    void Set(Slot& sl, BufPtr b, size_t size)
    {
        sl.b = std::move(b);
        sl.size = size;
        sl.sent = false;
        sl.aligned = false;
        sl.pristine = false;
    }
    BufPtr NewBuf(size_t align)
    {
        auto b = std::make_shared<Buf>();
        b->align = align;
        return b;
    }
    // shm: the memory may have run out; then nothing was made
    template<typename F>
    bool Try(F&& fn)
    {
        try {
            fn();
            return true;
        } catch (const MessageBadAlloc&) {
            REQ(shm, "MessageBadAlloc");
            ++failures;
            c << "(full) ";
            return false;
        } catch (const RefCountBadAlloc&) {
            REQ(shm && region, "RefCountBadAlloc");
            ++failures;
            c << "(rc full) ";
            return false;
        }
    }
    UserBuf* NewUser(size_t size)
    {
        auto u = std::make_unique<UserBuf>();
        u->storage.resize(size + 1);
        u->ptr = u->storage.data();
        u->size = size;
        u->immediate = shm;
        const uint64_t seed = (counter++) << 20;
        for (size_t i = 0; i < size; ++i) { u->storage[i] = static_cast<char>(At(seed, i)); }
        u->hint = u.get();
        users.push_back(std::move(u));
        return users.back().get();
    }

    // --- operations
    void Create(bool rebuild)
    {
        int i = -1;
        if (rebuild) {
            i = PickSlot([](const Slot&) { return true; });
            if (i < 0) { return; }
        } else {
            if (slots.size() >= 10) { return; }
            slots.emplace_back();
            i = static_cast<int>(slots.size()) - 1;
            slots[i].f = s.chance(70) ? 0 : 1;
        }
        Slot& sl = slots[i];
        auto& fac = *f[sl.f];
        c << (rebuild ? "rebuild" : "new") << i << (rebuild ? "" : sl.f ? "@B" : "@A");
        size_t kind = s.weighted({2u, 2u, 4u, 4u, mode == Mode::callbacks ? 10u : 4u, region && !rebuild ? 5u : 0u});
        bool ok = true;
        BufPtr b;
        size_t size = 0;
        // the old buffer is given up first
        auto giveUp = [&] { Set(sl, nullptr, 0); };
        switch (kind) {
            case 0:
                c << "() ";
                giveUp();
                if (rebuild) { sl.m->Rebuild(); } else { sl.m = fac.CreateMessage(); }
                sl.recvAlign = 0;
                sl.pristine = true;
                break;
            case 1: {
                const size_t a = GenAlign();
                c << "(align " << a << ") ";
                giveUp();
                if (rebuild) { sl.m->Rebuild(Alignment{a}); } else { sl.m = fac.CreateMessage(Alignment{a}); }
                sl.recvAlign = shm ? 0 : a;
                sl.pristine = true;
                break;
            }
            case 2:
            case 3: {
                size = GenSize();
                const size_t a = kind == 3 ? GenAlign() : 0;
                c << "(" << size;
                if (kind == 3) { c << ", align " << a; }
                c << ") ";
                giveUp();
                ok = Try([&] {
                    if (kind == 2) {
                        if (rebuild) { sl.m->Rebuild(size); } else { sl.m = fac.CreateMessage(size); }
                    } else {
                        if (rebuild) { sl.m->Rebuild(size, Alignment{a}); } else { sl.m = fac.CreateMessage(size, Alignment{a}); }
                    }
                });
                sl.recvAlign = kind == 3 && !shm ? a : 0;
                if (ok) {
                    Set(sl, NewBuf(a), size);
                    Fill(sl);
                }
                break;
            }
            case 4: {
                size = GenSize();
                UserBuf* u = NewUser(size);
                c << "(user " << size << ") ";
                giveUp();
                b = NewBuf(0);
                b->bytes.assign(u->storage.begin(), u->storage.begin() + size);
                b->user = u;
                u->refs = 1;
                ok = Try([&] {
                    if (rebuild) { sl.m->Rebuild(u->ptr, size, OnFree, u->hint); } else { sl.m = fac.CreateMessage(u->ptr, size, OnFree, u->hint); }
                });
                sl.recvAlign = 0;
                if (ok) {
                    u->built = true;
                    Set(sl, b, size);
                    if (shm && mode == Mode::content) { u->storage.assign(size + 1, 'x'); }
                } else if (mode == Mode::callbacks) {
                    REQ_EQ(u->calls.load(), 0, "calls of the callback of a message that could not be built");
                }
                break;
            }
            case 5: {
                sl.f = 0;
                if (freeBlocks.empty()) {
                    slots.pop_back();
                    c << "- ";
                    return;
                }
                b = NewBuf(0);
                b->block = freeBlocks.back();
                freeBlocks.pop_back();
                b->freeBlocks = &freeBlocks;
                size = s.draw(blockSize + 1);
                c << "(block " << b->block << ", " << size << ") ";
                auto* p = static_cast<char*>(region->GetData()) + b->block * blockSize;
                Set(sl, b, size);
                const uint64_t seed = (counter++) << 20;
                b->bytes.resize(size);
                for (size_t k = 0; k < size; ++k) { p[k] = static_cast<char>(b->bytes[k] = At(seed, k)); }
                sl.m = f[0]->CreateMessage(region, p, size, reinterpret_cast<void*>(static_cast<size_t>(s.draw(100))));
                c.label("region message");
                break;
            }
        }
        if (!rebuild && !ok) {
            slots.pop_back();
            return;
        }
    }
    void Write()
    {
        int i = PickSlot([](const Slot& sl) { return !sl.sent && sl.size > 0 && sl.b && sl.b.use_count() == 1 && !sl.b->user && !sl.b->noWrite; });
        if (i < 0) { return; }
        c << "write" << i << " ";
        Fill(slots[i]);
    }
    void Resize()
    {
        int i = PickSlot([](const Slot& sl) { return !sl.sent; });
        if (i < 0) { return; }
        Slot& sl = slots[i];
        size_t n = 0;
        switch (s.draw(5)) {
            case 0: n = sl.size + 1 + s.draw(100); break;
            case 1: n = 0; break;
            case 2: n = sl.size; break;
            default: n = s.draw(sl.size + 1);
        }
        const size_t a = s.chance(20) ? GenAlign() : 0;
        c << "resize" << i << "(" << sl.size << "->" << n << ") ";
        ++resizes;
        const bool ok = a ? sl.m->SetUsedSize(n, Alignment{a}) : sl.m->SetUsedSize(n);
        if (n > sl.size) {
            if (mode == Mode::content) { REQ(!ok, "growing a message from " << sl.size << " to " << n << " bytes was reported as done"); }
        } else if (ok) {
            sl.size = n;
            if (n == 0 && shm) { sl.b = nullptr; }
        } else {
            // a message in an unmanaged region, or with a buffer shared with others, need not be resizable
            if (mode == Mode::content) { REQ(sl.b && sl.b->block >= 0, "shrinking a message from " << sl.size << " to " << n << " bytes failed"); }
        }
    }
    void Copy()
    {
        int j = PickSlot([](const Slot& sl) { return !sl.sent; });
        if (j < 0) { return; }
        int i = s.chance(5) ? j : PickSlot([](const Slot&) { return true; });
        Slot& to = slots[i];
        Slot& from = slots[j];
        // a region is known to the factory that made it; others get it with a message
        if (from.b && from.b->block >= 0 && shm && to.f != from.f) { return; }
        c << "copy" << j << "->" << i << " ";
        ++copies;
        BufPtr b = from.b;
        if (i == j) {
            to.m->Copy(*from.m);
            return;
        }
        const size_t n = from.size;
        Set(to, nullptr, 0);   // whatever it had is given up
        if (Try([&] { to.m->Copy(*from.m); })) { Set(to, n == 0 && shm && !(b && b->block >= 0) ? nullptr : b, n); }
    }
    void Send()
    {
        Pipe& p = pipes[s.draw(pipes.size())];
        if (p.q.size() >= 6) { return; }
        auto usable = [&](const Slot& sl) { return !sl.sent && sl.f == p.from && !(shm && sl.b && sl.b->block >= 0 && p.to != p.from); };
        Flight fl;
        fl.parts = s.chance(40);
        if (!fl.parts) {
            int i = PickSlot(usable);
            if (i < 0) { return; }
            Slot& sl = slots[i];
            c << "send" << i << ":" << p.name << " ";
            fl.ms.emplace_back(shm || p.inproc ? sl.b : Detach(sl.b, false), sl.size);
            const size_t n = sl.size;
            Set(sl, nullptr, 0);
            sl.sent = true;
            auto rc = p.tx->Send(sl.m, 5000);
            REQ_EQ(rc, static_cast<int64_t>(n), "result of sending message " << i);
        } else {
            vector<int> which;
            const size_t want = 1 + s.draw(4);
            for (size_t i = 0; i < slots.size() && which.size() < want; ++i) {
                if (usable(slots[i]) && s.chance(60)) { which.push_back(static_cast<int>(i)); }
            }
            if (which.empty()) { return; }
            c << "parts";
            Parts::container v;
            int64_t total = 0;
            for (int i : which) {
                c << " " << i;
                Slot& sl = slots[i];
                fl.ms.emplace_back(shm || p.inproc ? sl.b : Detach(sl.b, false), sl.size);
                total += static_cast<int64_t>(sl.size);
                Set(sl, nullptr, 0);
                sl.sent = true;
                v.push_back(std::move(sl.m));
            }
            c << ":" << p.name << " ";
            auto rc = p.tx->Send(v, 5000);
            for (size_t k = 0; k < which.size(); ++k) { slots[which[k]].m = std::move(v[k]); }
            REQ_EQ(rc, total, "result of sending " << which.size() << " parts");
            // zeromq sends a vector of one as a single message
            if (!shm && which.size() == 1) { fl.parts = s.flip(); }
        }
        ++sends;
        p.q.push_back(std::move(fl));
    }
    void Receive(int which = -1)
    {
        vector<int> ok;
        for (size_t i = 0; i < pipes.size(); ++i) {
            if (!pipes[i].q.empty()) { ok.push_back(static_cast<int>(i)); }
        }
        if (ok.empty()) { return; }
        Pipe& p = pipes[which >= 0 ? which : ok[s.draw(ok.size())]];
        Flight fl = std::move(p.q.front());
        p.q.erase(p.q.begin());
        int64_t total = 0;
        for (auto& [b, n] : fl.ms) { total += static_cast<int64_t>(n); }
        if (!fl.parts) {
            int i = s.chance(60) ? PickSlot([&](const Slot& sl) { return sl.f == p.to; }) : -1;
            if (i < 0) {
                slots.emplace_back();
                i = static_cast<int>(slots.size()) - 1;
                slots[i].f = p.to;
                const size_t a = s.chance(30) ? GenAlign() : 0;
                slots[i].m = a ? f[p.to]->CreateMessage(Alignment{a}) : f[p.to]->CreateMessage();
                slots[i].recvAlign = shm ? 0 : a;
            }
            c << "recv:" << p.name << "->" << i << " ";
            Slot& sl = slots[i];
            auto rc = [&] {
                Set(sl, nullptr, 0);
                // zeromq: if the buffer does not have the alignment asked for, the bytes are moved to another one
                if (!shm && sl.recvAlign > 1) { fl.ms[0].first = Detach(fl.ms[0].first, true); }
                return p.rx->Receive(sl.m, 5000);
            }();
            REQ_EQ(rc, total, "result of receiving a message");
            Arrive(sl, fl.ms[0]);
            sl.aligned = true;
        } else {
            c << "recvparts:" << p.name << " ";
            Parts::container v;
            auto rc = p.rx->Receive(v, 5000);
            REQ_EQ(rc, total, "result of receiving parts");
            REQ_EQ(v.size(), fl.ms.size(), "number of parts received");
            for (size_t k = 0; k < v.size(); ++k) {
                slots.emplace_back();
                slots.back().f = p.to;
                slots.back().m = std::move(v[k]);
                Arrive(slots.back(), fl.ms[k]);
            }
        }
    }
    // the same bytes in another buffer
    BufPtr Detach(const BufPtr& b, bool mayAlias)
    {
        if (!b) { return nullptr; }
        auto n = NewBuf(1);
        n->bytes = b->bytes;
        // neither may be modified: they may be the same after all, or the first is still being transferred
        n->noWrite = mayAlias;
        b->noWrite = true;
        return n;
    }
    void Arrive(Slot& sl, std::pair<BufPtr, size_t>& what)
    {
        BufPtr b = std::move(what.first);
        const size_t n = what.second;
        Set(sl, n == 0 && shm && !(b && b->block >= 0) ? nullptr : b, n);
    }
    void Destroy()
    {
        int i = PickSlot([](const Slot&) { return true; });
        if (i < 0) { return; }
        c << "del" << i << " ";
        Kill(i);
    }
    void Kill(int i)
    {
        Slot sl = std::move(slots[i]);
        slots.erase(slots.begin() + i);
        Set(sl, nullptr, 0);
        sl.m.reset();
    }
    void Step()
    {
        ++steps;
        const bool region2 = mode == Mode::memory;
        switch (s.weighted({22, 10, 8, 12, 12, 14, 14, region2 ? 10u : 8u})) {
            case 0: Create(false); break;
            case 1: Create(true); break;
            case 2: Write(); break;
            case 3: Resize(); break;
            case 4: Copy(); break;
            case 5: Send(); break;
            case 6: Receive(); break;
            case 7: Destroy(); break;
        }
    }
    void Run()
    {
        const size_t n = 3 + s.size(60);
        for (size_t i = 0; i < n; ++i) {
            Step();
            CheckAll("afterwards");
        }
        c.nontrivial(steps > 3 && (sends + copies + resizes) > 1);
        c.label("sent", sends > 0);
        c.label("copied", copies > 0);
        c.label("resized", resizes > 0);
        c.label("ran out of memory", failures > 0);
        c.label("user buffers", !users.empty());
        c.count("operations", steps);
        Finish();
    }
    void Finish()
    {
        c << "| end: ";
        // consume what is in flight (in callback mode sometimes not: then it goes with the transport)
        const bool drain = mode == Mode::memory || s.chance(50);
        for (size_t i = 0; i < pipes.size(); ++i) {
            // libzmq 4.3.5 aborts if a connection ends within a multi-part message, so none is left there
            auto mustDrain = [&] { return !pipes[i].inproc && std::any_of(pipes[i].q.begin(), pipes[i].q.end(), [](const Flight& fl) { return fl.ms.size() > 1; }); };
            while (!pipes[i].q.empty() && (drain || mustDrain())) {
                Receive(static_cast<int>(i));
                CheckAll("while draining");
            }
        }
        while (!slots.empty()) {
            Kill(static_cast<int>(s.draw(slots.size())));
            CheckAll("after destroying another");
        }
        if (mode == Mode::memory && shm) {
            size_t free1[2];
            Measure(free1);
            for (int i = 0; i < 2; ++i) {
                REQ_EQ(free1[i], free0[i], "free memory of segment " << segId[i] << " after all messages are gone");
                REQ_EQ(shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, segId[i]), free0[i], "free memory of segment " << segId[i] << " as the monitor reports it");
            }
        }
        for (auto& p : pipes) {
            p.q.clear();
            p.tx.reset();
            p.rx.reset();
        }
        region.reset();
        f[0].reset();
        f[1].reset();
        if (mode == Mode::callbacks) {
            for (auto& u : users) {
                CheckUser(*u);
                if (u->built) { REQ_EQ(u->calls.load(), 1, "calls of the callback of a user buffer of " << u->size << " bytes by the end of the transport"); }
            }
        }
    }
    ~World()
    {
        slots.clear();
        for (auto& p : pipes) {
            p.q.clear();
            p.tx.reset();
            p.rx.reset();
        }
        region.reset();
        f[0].reset();
        f[1].reset();
        if (shm) { std::remove(SessionFile().c_str()); }
    }
};

}   // namespace mw
#endif
