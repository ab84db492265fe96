// C30: memory resources of channels and turning containers into messages, on a stand-in transport
#include "fake.h"
#include "harness.h"
#include <fairmq/MemoryResourceTools.h>
#include <memory_resource>

using namespace fair::mq;

namespace {

size_t GenSize(pbt::Src& s)
{
    switch (s.draw(3)) {
        case 0: return 1 + s.draw(16);
        case 1: return 1 + s.draw(300);
        default: return 1 + s.draw(20000);
    }
}
void Fill(void* p, size_t n, unsigned seed) { for (size_t i = 0; i < n; ++i) { static_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(seed + i * 11); } }
bool Filled(const void* p, size_t n, unsigned seed)
{
    for (size_t i = 0; i < n; ++i) { if (static_cast<const unsigned char*>(p)[i] != static_cast<unsigned char>(seed + i * 11)) { return false; } }
    return true;
}

template<size_t N, size_t A>
struct alignas(A) Pod
{
    unsigned char b[N];
    bool operator==(const Pod& o) const { return memcmp(b, o.b, N) == 0; }
};

}   // namespace

// allocate, deallocate, take out messages and put them back, on two resources
CASE(resource, 4)
{
    fake::Factory f[2];
    struct Live { void* p; size_t size, alignment; unsigned seed; };
    std::vector<Live> live[2];
    std::vector<std::pair<MessagePtr, Live>> taken;
    size_t ops = 0, n = s.draw(40);
    size_t taken0[2] = {0, 0};
    for (size_t i = 0; i < n; ++i) {
        const size_t w = s.draw(2);
        ChannelResource* r = f[w].GetMemoryResource();
        pmr::memory_resource* base = r;
        switch (s.weighted({5, 3, 2, 2, 1, 1})) {
            case 0: {
                Live l{nullptr, GenSize(s), size_t(1) << s.draw(s.flip() ? 5 : 13), static_cast<unsigned>(s.draw(256))};
                const bool dflt = s.chance(20);
                if (dflt) { l.alignment = alignof(std::max_align_t); }
                c << "alloc " << l.size << "/" << l.alignment << "; ";
                size_t before = f[w].l.requests.size();
                l.p = dflt ? base->allocate(l.size) : base->allocate(l.size, l.alignment);
                REQ(l.p != nullptr, "no memory");
                REQ(f[w].l.requests.size() == before + 1, "one message per allocation");
                REQ(f[w].l.requests.back().first >= l.size, "asked the transport for " << f[w].l.requests.back().first << " bytes instead of " << l.size);
                REQ(reinterpret_cast<uintptr_t>(l.p) % l.alignment == 0, "not aligned to " << l.alignment);
                Fill(l.p, l.size, l.seed);
                live[w].push_back(l);
                break;
            }
            case 1: {
                if (live[w].empty()) { break; }
                size_t k = s.draw(live[w].size());
                Live l = live[w][k];
                c << "free; ";
                int d = f[w].l.destroyed;
                base->deallocate(l.p, l.size, l.alignment);
                REQ_EQ(f[w].l.destroyed, d + 1, "messages destroyed by a deallocation");
                live[w].erase(live[w].begin() + static_cast<long>(k));
                break;
            }
            case 2: {
                if (live[w].empty()) { break; }
                size_t k = s.draw(live[w].size());
                Live l = live[w][k];
                c << "take; ";
                MessagePtr m = r->getMessage(l.p);
                REQ(m != nullptr, "the message of an allocation is gone");
                REQ(m->GetData() == l.p, "the message has other data");
                REQ(m->GetSize() >= l.size, "the message is smaller than the allocation");
                live[w].erase(live[w].begin() + static_cast<long>(k));
                base->deallocate(l.p, l.size, l.alignment);   // as its container does later
                taken0[w] += 1;
                taken.emplace_back(std::move(m), l);
                break;
            }
            case 3: {
                c << "put; ";
                Live l{nullptr, GenSize(s), 1, static_cast<unsigned>(s.draw(256))};
                MessagePtr m = f[w].CreateMessage(l.size);
                void* want = m->GetData();
                l.p = r->setMessage(std::move(m));
                REQ(l.p == want, "setMessage returns another address than the message's");
                Fill(l.p, l.size, l.seed);
                live[w].push_back(l);
                break;
            }
            case 4: {
                c << "unknown; ";
                char x = 0;
                REQ(r->getMessage(&x) == nullptr, "a message for an unknown address");
                REQ(!live[1 - w].empty() ? r->getMessage(live[1 - w][0].p) == nullptr : true, "a message of the other resource");
                base->deallocate(&x, 1, 1);
                break;
            }
            default: {
                c << "refused; ";
                f[w].l.limit = 100;
                REQ_THROWS(MessageBadAlloc, (void)base->allocate(101 + s.draw(1000), 8), "the transport cannot provide the memory");
                f[w].l.limit = SIZE_MAX;
            }
        }
        ++ops;
        for (size_t k = 0; k < 2; ++k) {
            REQ_EQ(f[k].GetMemoryResource()->getNumberOfMessages(), live[k].size(), "messages in the resource");
            REQ_EQ(f[k].l.live.size(), live[k].size() + taken0[k], "messages alive");
            for (auto& l : live[k]) { REQ(Filled(l.p, l.size, l.seed), "memory changed"); }
        }
        for (auto& t : taken) { REQ(Filled(t.first->GetData(), t.second.size, t.second.seed), "a message taken out changed"); }
        REQ(f[w].GetMemoryResource()->getTransportFactory() == &f[w], "transport of the resource");
        REQ(r->is_equal(*f[w].GetMemoryResource()) && !r->is_equal(*f[1 - w].GetMemoryResource()), "resources are equal to themselves only");
        REQ(!r->is_equal(*std::pmr::new_delete_resource()), "equal to the default resource");
    }
    REQ_THROWS(std::runtime_error, ChannelResource(nullptr), "no transport");
    c.nontrivial(ops > 3);
}

namespace {

template<typename T>
void Vector(pbt::Src& s, pbt::Case& c)
{
    fake::Factory a, b;
    const size_t source = s.draw(3);   // 0: a, 1: b, 2: not ours
    pmr::memory_resource* res = source == 0 ? static_cast<pmr::memory_resource*>(a.GetMemoryResource()) : source == 1 ? static_cast<pmr::memory_resource*>(b.GetMemoryResource()) : std::pmr::new_delete_resource();
    const size_t target = s.draw(3);   // 0: none, 1: a, 2: b
    MemoryResource* tr = target == 0 ? nullptr : target == 1 ? static_cast<MemoryResource*>(a.GetMemoryResource()) : b.GetMemoryResource();
    std::vector<T> ref;
    std::vector<T, pmr::polymorphic_allocator<T>> v{pmr::polymorphic_allocator<T>(res)};
    const size_t ops = s.draw(20);
    for (size_t i = 0; i < ops; ++i) {
        T x;
        Fill(x.b, sizeof(x.b), static_cast<unsigned>(s.draw(256)));
        switch (s.draw(7)) {
            case 0: case 1: case 2: v.push_back(x); ref.push_back(x); break;
            case 3: { size_t n = s.size(200); v.resize(n, x); ref.resize(n, x); break; }
            case 4: { size_t n = s.size(300); v.reserve(n); break; }
            case 5: v.shrink_to_fit(); break;
            default: if (!ref.empty()) { size_t k = s.draw(ref.size()); v.erase(v.begin() + static_cast<long>(k)); ref.erase(ref.begin() + static_cast<long>(k)); }
        }
        REQ(v.size() == ref.size() && std::equal(v.begin(), v.end(), ref.begin()), "the container's content");
        if (!v.empty()) { REQ(reinterpret_cast<uintptr_t>(v.data()) % alignof(T) == 0, "the container's data is not aligned"); }
    }
    c << "vector of " << ref.size() << " x " << sizeof(T) << " (capacity " << v.capacity() << ") from " << source << " to " << target << "; ";
    const size_t own = v.capacity() > 0 && source < 2 ? 1 : 0;
    REQ_EQ((source == 1 ? b : a).GetMemoryResource()->getNumberOfMessages(), own, "messages behind the container");
    const void* data = v.data();
    const bool adopts = source < 2 && v.capacity() > 0 && (target == 0 || target == source + 1);
    if (source == 2 && target == 0) {
        REQ_THROWS(std::runtime_error, fair::mq::getMessage(std::move(v)), "neither resource is known");
        c.label("refused");
        c.nontrivial();
        return;
    }
    MessagePtr m = target == 0 && s.flip() ? fair::mq::getMessage(std::move(v)) : fair::mq::getMessage(std::move(v), tr);
    REQ(m != nullptr, "no message");
    REQ_EQ(m->GetSize(), ref.size() * sizeof(T), "size of the message");
    if (!ref.empty()) { REQ(memcmp(m->GetData(), ref.data(), ref.size() * sizeof(T)) == 0, "content of the message"); }
    if (adopts) { REQ(m->GetData() == data, "the data was copied although the resources match"); }
    else if (!ref.empty()) { REQ(m->GetData() != data, "the data was not copied although the resources differ"); }
    const size_t in = target != 0 ? target - 1 : source;
    REQ(m->GetTransport() == (in == 0 ? &a : &b), "the message belongs to the wrong transport");
    REQ_EQ(a.GetMemoryResource()->getNumberOfMessages() + b.GetMemoryResource()->getNumberOfMessages(), 0u, "messages left behind in the resources");
    REQ_EQ(a.l.live.size() + b.l.live.size(), 1u, "messages alive");
    m.reset();
    REQ_EQ(a.l.live.size() + b.l.live.size(), 0u, "messages alive in the end");
    c.label(adopts ? "adopted" : "copied");
    c.nontrivial(!ref.empty());
}

}   // namespace

CASE(vectors, 5)
{
    switch (s.draw(5)) {
        case 0: Vector<Pod<1, 1>>(s, c); break;
        case 1: Vector<Pod<4, 4>>(s, c); break;
        case 2: Vector<Pod<24, 8>>(s, c); break;
        case 3: Vector<Pod<64, 64>>(s, c); break;
        default: Vector<Pod<3, 1>>(s, c);
    }
}

// a string may keep its text inside itself: then the message is a copy
CASE(strings, 2)
{
    fake::Factory a;
    std::basic_string<char, std::char_traits<char>, pmr::polymorphic_allocator<char>> str{pmr::polymorphic_allocator<char>(a.GetMemoryResource())};
    std::string ref;
    for (size_t i = 0, n = s.draw(6); i < n; ++i) {
        std::string x = s.str("abc", 0, 30);
        str.append(x.c_str());
        ref += x;
        if (s.chance(20)) { str.reserve(str.size() + s.draw(100)); }
        if (s.chance(10)) { size_t k = s.draw(ref.size() + 1); str.resize(k); ref.resize(k); }
        if (s.chance(10)) { str.shrink_to_fit(); }
    }
    c << ref;
    const bool heap = a.GetMemoryResource()->getNumberOfMessages() > 0;
    const void* data = str.data();
    MessagePtr m = s.flip() ? fair::mq::getMessage(std::move(str)) : fair::mq::getMessage(std::move(str), a.GetMemoryResource());
    REQ(m != nullptr, "no message");
    REQ_EQ(std::string(m->GetData() ? static_cast<char*>(m->GetData()) : "", m->GetSize()), ref, "content of the message");
    if (heap) { REQ(m->GetData() == data, "the text was copied although the resources match"); }
    REQ_EQ(a.GetMemoryResource()->getNumberOfMessages(), 0u, "messages left behind in the resource");
    REQ_EQ(a.l.live.size(), 1u, "messages alive");
    c.label(heap ? "adopted" : "inside the string");
    c.nontrivial(!ref.empty());
}

// several containers on one resource at once: their memory never overlaps, and running out of memory harms none of them
CASE(many, 2)
{
    fake::Factory a;
    using V = std::vector<int, pmr::polymorphic_allocator<int>>;
    std::vector<V> vs;
    std::vector<std::vector<int>> ref;
    std::vector<std::pair<MessagePtr, std::vector<int>>> msgs;
    size_t refused = 0;
    for (size_t i = 0, n = s.draw(50); i < n; ++i) {
        switch (s.weighted({2, 6, 2, 1})) {
            case 0: vs.emplace_back(pmr::polymorphic_allocator<int>(a.GetMemoryResource())); ref.emplace_back(); break;
            case 1: {
                if (vs.empty()) { break; }
                size_t k = s.draw(vs.size()), cnt = 1 + s.size(60);
                int x = static_cast<int>(s.draw(1000));
                a.l.limit = s.chance(20) ? s.draw(200) : SIZE_MAX;
                try { vs[k].insert(vs[k].end(), cnt, x); ref[k].insert(ref[k].end(), cnt, x); } catch (const MessageBadAlloc&) { ++refused; }
                a.l.limit = SIZE_MAX;
                break;
            }
            case 2: {
                if (vs.empty()) { break; }
                size_t k = s.draw(vs.size());
                msgs.emplace_back(fair::mq::getMessage(std::move(vs[k])), ref[k]);
                vs.erase(vs.begin() + static_cast<long>(k));
                ref.erase(ref.begin() + static_cast<long>(k));
                break;
            }
            default: if (!msgs.empty()) { msgs.erase(msgs.begin() + static_cast<long>(s.draw(msgs.size()))); }
        }
        size_t backed = 0;
        for (size_t k = 0; k < vs.size(); ++k) {
            REQ(vs[k].size() == ref[k].size() && std::equal(ref[k].begin(), ref[k].end(), vs[k].begin()), "content of container " << k);
            backed += vs[k].capacity() > 0;
        }
        for (auto& m : msgs) { REQ(m.first->GetSize() == m.second.size() * sizeof(int) && (m.second.empty() || memcmp(m.first->GetData(), m.second.data(), m.first->GetSize()) == 0), "content of a message"); }
        REQ_EQ(a.GetMemoryResource()->getNumberOfMessages(), backed, "messages in the resource");
    }
    c << vs.size() << " containers, " << msgs.size() << " messages, " << refused << " refused";
    c.nontrivial(vs.size() + msgs.size() > 1);
}
