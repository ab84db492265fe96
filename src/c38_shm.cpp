// C38: layout of shared memory blocks, reference counts, shrinking and the names of shared memory objects
#include "harness.h"
#include <boost/interprocess/managed_heap_memory.hpp>
#include <cassert>
#include <fairmq/shmem/Common.h>
#include <iomanip>
#include <picosha2.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
using namespace fair::mq::shmem;
namespace bi = boost::interprocess;

namespace {

// session, user, first 8 digits of SHA-256(user + session), computed with Python's hashlib
const char* const kIds[][3] = {
    {"", "0", "5feceb66"},
    {"default", "4294967295", "d7a7d636"},
    {"fairmq", "4294967295", "1bfc6191"},
    {"a", "0", "6856c5a3"},
    {"sess-1", "1000", "aca0e043"},
    {"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "4294967295", "51d56caf"},
    {"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "0", "0259b86b"},
    {"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "", "7ce10097"},
    {"yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy", "", "8ca9bfd4"},
    {"héllo", "65534", "d0731e00"},
    {"0", "0", "f1534392"},
    {"1000", "", "40510175"},
    {"Y Z  _2a1X_acbZ1X02b-Xa X0Yc0cbc--1ccaaXXccYZX2__Xc X0YaZ0ccYbZY--a-_ ZbYZY1 Zc1", "65534", "3d855501"},
    {" caYa Z0a20Z0-a1a c-XbX1Z2Z2Y1b- ZYa0bXZ2-ZcZY 2bY_ZYcb_c  Y1", "65534", "3779c2d3"},
    {" ab-20aX -ZY1_0ca_a1Z", "0", "55cb70fd"},
    {"c -c_0bc0Zca0Yc1-c211  Z1YY", "4294967295", "474df4c3"},
    {"0cb02c_1Zcb1Y222ZbZ -_aYZ2 _Y1Y  YZ_c-a12YZ_Y1Y2__ZZY_Z 0Zc 1", "4294967295", "a8970924"},
    {"Z2c2cXZ1Y b _ 0c--2_0Y-2_Y aXc-1-_cX_c_ a1Xcacb", "0", "e22873ea"},
    {"c1X2a01Z0_-b-XX ZaZ0Y0b 2Za2-YbY22Z-YZc00", "1000", "b16b9b96"},
    {"_2Z1cc-0-1Xc-bZ_a0bZ--2cZ_-000X1Y1 00c--Y Y1Y0aZY1Yc1ab_-1XYac0a122YX1aX1", "1000", "16f5c07f"},
    {"c YY1-12_- bacYY2 Z-Y 2a1ZZ_ -caaY2", "0", "eae688f1"},
    {"_b_2Xa00--  __1010_ XY1bYa 0-Y_1Ycc1 21Z2c0-2ab XYbb_aZ 0b0", "", "a1144b39"},
    {"1abbX-_b cY 1cc-c0cb-Xa2b_0 bYa--b 0-ca0bZ_-11Z_Zac Yc-__2Y22-XYb2XYY2cXZ1 0cc a_Zb-_abb2-", "", "f782fc08"},
    {"X011Zb2a2 0ac0_X bb_1Xc -0ZXYZ- Z00c Z_Y_0Z2a--X c0bbaacXXa", "0", "20f59f95"},
    {"1_Za01Y-0Z11bXc_cbZ01c2YbYcY_Xa1aZZZa a_11cb_ZY1_X caX a-X_b-0 ", "0", "940d26ac"},
    {"_Yc1ZYb  1cXc_Xa_-0 Ya1a1_0caa22-Zb bX1b1a_X_a1", "", "fbc43ffc"},
    {"aaY01Y_aaXc 2_0X2XbZbb2c-b X-a12Z10-02_c aY 1X2bcY1", "4294967295", "9a1d3f65"},
    {"Y0Zcc2b1X b0", "4294967295", "1c92b897"},
    {"_XYa1 Xa XYZbb0Z02aY_c-a1c _a a 0Yb02cZbYccY1_ZYab2 2aabacZ0Y-aX20cZXZZac-", "0", "ff689e25"},
    {"c bY2-c_ c100bZZ1X1-0c1a_c211-abc0_aXaa-X1 Z01XXYXY22ZXZZX_a-10ZccX10abc0b YXZ1_", "65534", "b18a12aa"},
    {"2-bX0 ab2---c0aZ_a-Y20212  01- 2_a2c0Z-a_2XYYbabZ-- 0YaY Xbab", "65534", "19e373fb"},
    {"YZ  --2X12bbXZ200a_00c_2X_-Z0Zb 2  ZXbXYYY-bcb_0cX_b--__2 00X012-XY0Yb-Zc0acbY-2--c0XZ", "", "9f6da839"},
    {"b_ Z ba1c2bZX1_0X -1baX_cbbZcZ-b-1 Zc 2-_bZbbXXZZc1_ bX0210ab-Zc_a10Z b1  Yab", "4294967295", "505168d5"},
    {"Z XZ0cY1_ b-bY0Zb20aX0XY_ bcYb210c20Xb1ZcbacZaaY2102baXX1a12bY", "4294967295", "135e78d8"},
    {"_12aac020-__-_-aXa0 000acZcYX0bZX00XYc1ZYa__bc1bb_0a0cX_a 1Z-1c1XbZ-aac0bYc_Z", "0", "29b1fee1"},
    {"XcY2 2bYbb_0ZYZ12-1X-cYa2a 0cX1_ aaaX0X2 -X", "1000", "c222e873"},
    {"a2Xa 0Za2Y11b_bZ-2Y --00Yc-_b_1a X2-0b2Y", "", "cdca3acb"},
    {"Z0c1Zb1a--X-1aa bbZcZZYY1c bYYa_Y0c_X Y-1c-c-a Z2ba1a -1__aa-0b0 2-1--X", "1000", "4783208a"},
    {" b b _-bab 1Y_22 b__Yb0YY1YYaZ2_110c_XYZ-X1bcZb_01-2_0cXc1c_21-Zac0Y-", "4294967295", "aa69f443"},
    {"22X2X_c02YZY-bXY0Z2Y1_ _bb bZbb_Y-ca20c_Z Yb0ZbYbY Z00bbYbcab 20", "1000", "b91a526e"},
};

size_t GenAlignment(pbt::Src& s)
{
    switch (s.draw(5)) {
        case 0: return size_t(1) << s.draw(8);
        case 1: return size_t(1) << s.draw(22);
        case 2: return 1 + s.draw(100);
        case 3: return size_t(1) << (14 + s.draw(4));
        default: return 1 + s.draw(200000);
    }
}
size_t GenSize(pbt::Src& s)
{
    switch (s.draw(4)) {
        case 0: return s.draw(20);
        case 1: return s.draw(1000);
        case 2: return s.draw(70000);
        default: return s.pick({size_t(0), size_t(1), size_t(65535), size_t(65536), size_t(4096)});
    }
}
void Fill(char* p, size_t n, unsigned seed) { for (size_t i = 0; i < n; ++i) { p[i] = static_cast<char>(seed + i * 7 + i / 251); } }
bool Filled(const char* p, size_t n, unsigned seed)
{
    for (size_t i = 0; i < n; ++i) { if (p[i] != static_cast<char>(seed + i * 7 + i / 251)) { return false; } }
    return true;
}

// memory at a fixed address, so that a case behaves the same every time; all of it is forbidden but the blocks
constexpr size_t kArena = size_t(16) << 20;
char* Arena(size_t i)
{
    static char* base = [] {
        void* p = mmap(reinterpret_cast<void*>(0x580000000000), 4 * kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) { p = aligned_alloc(kArena, 4 * kArena); }
        return static_cast<char*>(p);
    }();
    return base + i * kArena;
}

struct Block
{
    char* ptr = nullptr;
    size_t size = 0, alignment = 1, full = 0;
    unsigned seed = 0;
    unsigned refs = 1;
};

}   // namespace

// several blocks side by side: nothing written into one may show in another, in a count or beyond the block (ASan)
CASE(layout, 6)
{
    std::vector<Block> blocks(1 + s.draw(3));
    for (size_t i = 0; i < blocks.size(); ++i) {
        auto& b = blocks[i];
        b.alignment = GenAlignment(s);
        b.size = GenSize(s);
        b.seed = static_cast<unsigned>(s.draw(256));
        const size_t off = 2 * (s.flip() ? s.draw(40) : s.draw(1 << 20));   // the segment's allocator gives addresses that are at least even
        b.full = ShmHeader::FullSize(b.size, b.alignment);
        b.ptr = Arena(i) + 4096 + off;
        ASAN_POISON_MEMORY_REGION(b.ptr - 4096, b.full + 8192);
        ASAN_UNPOISON_MEMORY_REGION(b.ptr, b.full);
        c << "size " << b.size << " alignment " << b.alignment << " at +" << off << "; ";
        ShmHeader::Construct(b.ptr, b.alignment);
        REQ_EQ(ShmHeader::RefCount(b.ptr), 1, "initial count");
        char* user = ShmHeader::UserPtr(b.ptr);
        REQ(reinterpret_cast<uintptr_t>(user) % b.alignment == 0, "user data at offset " << user - b.ptr << " is not aligned to " << b.alignment);
        REQ(user + b.size <= b.ptr + b.full, "user data ends " << (user + b.size) - (b.ptr + b.full) << " bytes beyond the block");
        REQ_EQ(static_cast<size_t>(ShmHeader::UserOffset(b.ptr)), static_cast<size_t>(user - b.ptr), "UserOffset");
        auto* rc = reinterpret_cast<char*>(&ShmHeader::RefCountPtr(b.ptr));
        REQ(rc >= b.ptr + sizeof(uint16_t) && rc + sizeof(std::atomic<uint16_t>) <= user, "the count lies at " << rc - b.ptr << ", the user data at " << user - b.ptr);
        REQ(reinterpret_cast<uintptr_t>(rc) % alignof(std::atomic<uint16_t>) == 0, "the count is not aligned");
        Fill(user, b.size, b.seed);
    }
    const size_t ops = s.draw(60);
    for (size_t i = 0; i < ops; ++i) {
        auto& b = blocks[s.draw(blocks.size())];
        switch (s.draw(4)) {
            case 0: {
                unsigned n = 1 + static_cast<unsigned>(s.chance(5) ? s.draw(60000) : s.draw(5));
                if (b.refs + n > 65535) { break; }
                for (unsigned k = 0; k < n; ++k) { REQ_EQ(ShmHeader::IncrementRefCount(b.ptr), b.refs, "count before an increment"); ++b.refs; }
                break;
            }
            case 1:
                if (b.refs > 1) { REQ_EQ(ShmHeader::DecrementRefCount(b.ptr), b.refs, "count before a decrement"); --b.refs; }
                break;
            case 2:
                b.seed = static_cast<unsigned>(s.draw(256));
                Fill(ShmHeader::UserPtr(b.ptr), b.size, b.seed);
                break;
            default: break;
        }
        for (auto& x : blocks) { REQ_EQ(ShmHeader::RefCount(x.ptr), x.refs, "count"); }
    }
    for (auto& b : blocks) {
        REQ(Filled(ShmHeader::UserPtr(b.ptr), b.size, b.seed), "the user data was changed");
        REQ(reinterpret_cast<uintptr_t>(ShmHeader::UserPtr(b.ptr)) % b.alignment == 0, "the user data moved");
        ShmHeader::Destruct(b.ptr);
    }
    c.label("alignment above 64 KiB", blocks[0].alignment > 65536);
    c.nontrivial(blocks[0].size > 0);
}

// concurrent copies and releases: every earlier value is handed out once, the last release sees 1
RACY_CASE(counts, 2, 20000)
{
    const size_t nt = 2 + s.draw(6), n = 100 + s.draw(3000);
    const bool header = s.flip();
    c << nt << " threads x " << n << (header ? " block header" : " RefCount");
    std::vector<char> mem(4096);
    ShmHeader::Construct(mem.data(), 64);
    struct RefCount rc(1);
    auto inc = [&] { return header ? ShmHeader::IncrementRefCount(mem.data()) : rc.Increment(); };
    auto dec = [&] { return header ? ShmHeader::DecrementRefCount(mem.data()) : rc.Decrement(); };
    auto get = [&] { return header ? ShmHeader::RefCount(mem.data()) : rc.Get(); };
    // one reference each to begin with
    for (size_t t = 1; t < nt; ++t) { REQ_EQ(inc(), t, "count before an increment"); }
    std::atomic<size_t> lasts{0}, ready{0};
    std::atomic<bool> bad{false};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; ++t) {
        ts.emplace_back([&] {
            ++ready;
            while (ready < nt) {}
            for (size_t i = 0; i < n; ++i) {
                uint16_t b = inc();
                if (b < 1 || b > 2 * nt) { bad = true; }
                if (dec() < 2) { bad = true; }
            }
            if (dec() == 1) { ++lasts; }
        });
    }
    for (auto& t : ts) { t.join(); }
    REQ(!bad, "an impossible count was seen");
    REQ_EQ(lasts.load(), 1u, "threads that saw the last reference");
    REQ_EQ(get(), 0, "count in the end");
    c.nontrivial();
}

// shrinking a block in place keeps its content and its neighbours, and in the end all memory is free again
CASE(shrink, 2)
{
    using Segment = bi::basic_managed_heap_memory<char, bi::rbtree_best_fit<bi::null_mutex_family, bi::offset_ptr<void>>, bi::null_index>;
    using Simple = bi::basic_managed_heap_memory<char, bi::simple_seq_fit<bi::null_mutex_family, bi::offset_ptr<void>>, bi::null_index>;
    auto run = [&](auto& seg) {
        const size_t free0 = seg.get_free_memory();
        struct Live { char* p; size_t size; unsigned seed; };
        std::vector<Live> live;
        size_t shrunk = 0;
        for (size_t i = 0, n = s.draw(12); i < n; ++i) {
            if (live.empty() || s.flip()) {
                Live l{nullptr, 1 + GenSize(s), static_cast<unsigned>(s.draw(256))};
                l.p = static_cast<char*>(seg.allocate(l.size, std::nothrow));
                if (!l.p) { continue; }
                Fill(l.p, l.size, l.seed);
                live.push_back(l);
            } else {
                auto& l = live[s.draw(live.size())];
                size_t to = s.draw(l.size + 1);
                c << l.size << "->" << to << "; ";
                const size_t before = seg.get_free_memory();
                try {
                    char* p = SegmentBufferShrink(to, l.p)(seg);
                    REQ(p == l.p, "the block moved");
                    if (l.size >= to + 1000) { REQ(seg.get_free_memory() > before, "shrinking from " << l.size << " to " << to << " freed nothing"); }
                    l.size = to;
                    ++shrunk;
                } catch (const bi::bad_alloc&) {
                    c.label("refused");
                    if (l.size >= to + 1000) { REQ(false, "shrinking from " << l.size << " to " << to << " was refused"); }
                }
            }
            for (auto& l : live) { REQ(Filled(l.p, l.size, l.seed), "content changed"); }
        }
        for (auto& l : live) { seg.deallocate(l.p); }
        REQ_EQ(seg.get_free_memory(), free0, "free memory in the end");
        c.label("shrunk", shrunk > 0);
        c.nontrivial(shrunk > 0);
    };
    if (s.flip()) { Segment seg(1 << 20); run(seg); } else { c << "simple "; Simple seg(1 << 20); run(seg); }
}

CASE(ids, 3)
{
    auto& k = kIds[s.draw(sizeof(kIds) / sizeof(kIds[0]))];
    REQ_EQ(makeShmIdStr(k[0], k[1]), std::string(k[2]), "id of session '" << k[0] << "' of user '" << k[1] << "'");
    // any session
    std::string session = s.str("abcdefghijklmnopqrstuvwxyz-_0123456789 /", 0, 40), user = std::to_string(s.flip() ? s.draw(3000) : s.draw(1ull << 32));
    c << session << " of " << user;
    std::string id = makeShmIdStr(session, user);
    REQ_EQ(id.size(), 8u, "length of id " << id);
    REQ(id.find_first_not_of("0123456789abcdef") == std::string::npos, "form of id " << id);
    REQ_EQ(makeShmIdStr(session, user), id, "the id a second time");
    std::string seed = user + session;
    std::string full = picosha2::hash256_hex_string(seed);
    REQ_EQ(id, full.substr(0, 8), "id of the session");
    std::string other = session;
    if (other.empty() || s.flip()) { other += 'x'; } else { other[s.draw(other.size())] ^= 1; }
    REQ(makeShmIdStr(other, user) != id, "sessions '" << session << "' and '" << other << "' share id " << id);
    REQ(makeShmIdStr(session, user + "7") != id || session.empty(), "users share an id");
    // for the own user
    std::string own = makeShmIdStr(session);
    REQ_EQ(own, makeShmIdStr(session, std::to_string(geteuid())), "id for the current user");
    uint64_t u = makeShmIdUint64(session);
    REQ_EQ(u, std::stoull(own, nullptr, 16), "numeric id of " << own);
    REQ_EQ(makeShmIdStr(u), own, "id from its number");
    uint64_t v = s.draw(3) == 0 ? s.draw(300) : s.draw(1ull << 32);
    char buf[32];
    snprintf(buf, sizeof(buf), "%08llx", static_cast<unsigned long long>(v));
    REQ_EQ(makeShmIdStr(v), std::string(buf), "id from number " << v);
    // object names
    std::string type = s.pick({"mng", "m", "rg", "cond", "rrg", "x"});
    int index = static_cast<int>(s.draw(70000));
    REQ_EQ(MakeShmName(own, type), "fmq_" + own + "_" + type, "name of a shared memory object");
    REQ_EQ(MakeShmName(own, type, index), "fmq_" + own + "_" + type + "_" + std::to_string(index), "name of a numbered shared memory object");
    c.nontrivial();
}
