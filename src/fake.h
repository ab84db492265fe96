// A stand-in transport: messages are exactly sized heap blocks (so ASan sees every overrun) and are entered in a ledger.
#ifndef VERIF_FAKE_H
#define VERIF_FAKE_H
#include <cstdlib>
#include <cstring>
#include <fairmq/MemoryResources.h>
#include <fairmq/Message.h>
#include <fairmq/Poller.h>
#include <fairmq/Socket.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/UnmanagedRegion.h>
#include <map>
#include <set>

namespace fake {
using namespace fair::mq;

struct Ledger
{
    std::set<int> live;
    int created = 0, destroyed = 0;
    std::vector<std::pair<size_t, size_t>> requests;   // size, alignment
    size_t limit = SIZE_MAX;
};

class Msg : public Message
{
  public:
    std::shared_ptr<Ledger> hold;   // messages in the factory's memory resource die after the factory's members
    Ledger& l;
    int id;
    char* data = nullptr;
    size_t size = 0;
    Msg(std::shared_ptr<Ledger> ledger, TransportFactory* f, size_t n, size_t alignment) : Message(f), hold(std::move(ledger)), l(*hold), id(l.created)
    {
        if (n > l.limit) { throw MessageBadAlloc("limit"); }
        if (n > 0) {
            void* p = nullptr;
            if (posix_memalign(&p, std::max(alignment, sizeof(void*)), n) != 0) { throw MessageBadAlloc("posix_memalign"); }
            data = static_cast<char*>(p);
            memset(data, 0xcd, n);
        }
        size = n;
        ++l.created;
        l.live.insert(id);
    }
    ~Msg() override
    {
        l.live.erase(id);
        ++l.destroyed;
        free(data);
    }
    void Rebuild() override {}
    void Rebuild(Alignment) override {}
    void Rebuild(size_t) override {}
    void Rebuild(size_t, Alignment) override {}
    void Rebuild(void*, size_t, FreeFn*, void*) override {}
    void* GetData() const override { return data; }
    size_t GetSize() const override { return size; }
    bool SetUsedSize(size_t n, Alignment) override
    {
        if (n > size) { return false; }
        size = n;
        return true;
    }
    Transport GetType() const override { return Transport::ZMQ; }
    void Copy(const Message&) override {}
};

class Factory : public TransportFactory
{
  public:
    std::shared_ptr<Ledger> ledger = std::make_shared<Ledger>();
    Ledger& l = *ledger;
    explicit Factory(const std::string& id = "fake") : TransportFactory(id) {}
    MessagePtr make(size_t n, size_t a)
    {
        l.requests.emplace_back(n, a);
        return std::make_unique<Msg>(ledger, this, n, a);
    }
    MessagePtr CreateMessage() override { return make(0, 0); }
    MessagePtr CreateMessage(Alignment a) override { return make(0, a.alignment); }
    MessagePtr CreateMessage(size_t n) override { return make(n, 0); }
    MessagePtr CreateMessage(size_t n, Alignment a) override { return make(n, a.alignment); }
    MessagePtr CreateMessage(void*, size_t, FreeFn*, void*) override { return nullptr; }
    MessagePtr CreateMessage(UnmanagedRegionPtr&, void*, size_t, void*) override { return nullptr; }
    SocketPtr CreateSocket(const std::string&, const std::string&) override { return nullptr; }
    PollerPtr CreatePoller(const std::vector<Channel>&) const override { return nullptr; }
    PollerPtr CreatePoller(const std::vector<Channel*>&) const override { return nullptr; }
    PollerPtr CreatePoller(const std::unordered_map<std::string, std::vector<Channel>>&, const std::vector<std::string>&) const override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, RegionCallback, const std::string&, int, RegionConfig) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, RegionBulkCallback, const std::string&, int, RegionConfig) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, int64_t, RegionCallback, const std::string&, int, RegionConfig) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, int64_t, RegionBulkCallback, const std::string&, int, RegionConfig) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, RegionCallback, RegionConfig) override { return nullptr; }
    UnmanagedRegionPtr CreateUnmanagedRegion(size_t, RegionBulkCallback, RegionConfig) override { return nullptr; }
    void SubscribeToRegionEvents(RegionEventCallback) override {}
    bool SubscribedToRegionEvents() override { return false; }
    void UnsubscribeFromRegionEvents() override {}
    std::vector<fair::mq::RegionInfo> GetRegionInfo() override { return {}; }
    Transport GetType() const override { return Transport::ZMQ; }
    void Interrupt() override {}
    void Resume() override {}
    void Reset() override {}
};
}   // namespace fake
#endif
