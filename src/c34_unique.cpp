// C34: ids are well-formed and distinct, also between threads and processes that agree in everything but the random device
#include "harness.h"
#include <cctype>
#include <dlfcn.h>
#include <sys/time.h>
#include <fairmq/tools/Unique.h>

using fair::mq::tools::Uuid;
using fair::mq::tools::UuidHash;

// Two machines (or two containers) may agree in process ids and clocks.  With gSame set, all processes of this case do.
namespace { bool gSame = false; }
extern "C" {
int clock_gettime(clockid_t id, timespec* t)
{
    if (gSame) { t->tv_sec = 1700000000; t->tv_nsec = 5; return 0; }
    static auto f = reinterpret_cast<int (*)(clockid_t, timespec*)>(dlsym(RTLD_NEXT, "clock_gettime"));
    return f(id, t);
}
int gettimeofday(timeval* t, void* z)
{
    if (gSame) { t->tv_sec = 1700000000; t->tv_usec = 5; return 0; }
    static auto f = reinterpret_cast<int (*)(timeval*, void*)>(dlsym(RTLD_NEXT, "gettimeofday"));
    return f(t, z);
}
time_t time(time_t* t)
{
    timespec x{};
    clock_gettime(CLOCK_REALTIME, &x);
    if (t) { *t = x.tv_sec; }
    return x.tv_sec;
}
pid_t getpid()
{
    if (gSame) { return 4242; }
    static auto f = reinterpret_cast<pid_t (*)()>(dlsym(RTLD_NEXT, "getpid"));
    return f();
}
}

namespace {

// the form of RFC 4122: 8-4-4-4-12 lower case hexadecimal digits, version 4, variant 10
std::string Malformed(const std::string& u)
{
    if (u.size() != 36) { return "length " + std::to_string(u.size()); }
    for (size_t i = 0; i < 36; ++i) {
        const bool dash = i == 8 || i == 13 || i == 18 || i == 23;
        if (dash ? u[i] != '-' : !(isdigit(u[i]) || (u[i] >= 'a' && u[i] <= 'f'))) { return "character " + std::to_string(i); }
    }
    if (u[14] != '4') { return "version"; }
    if (std::string("89ab").find(u[19]) == std::string::npos) { return "variant"; }
    return "";
}

struct Ids
{
    std::vector<std::string> uuids;
    std::vector<uint64_t> hashes;
    void make(size_t n, bool hash)
    {
        for (size_t i = 0; i < n; ++i) { if (hash) { hashes.push_back(UuidHash()); } else { uuids.push_back(Uuid()); } }
    }
};

struct Seen
{
    std::set<std::string> u;
    std::set<uint64_t> h;
    void add(const Ids& x, const std::string& where)
    {
        for (auto& s : x.uuids) {
            REQ(Malformed(s).empty(), "malformed id '" << s << "': " << Malformed(s));
            REQ(u.insert(s).second, "id " << s << " was generated twice, the second time in " << where);
        }
        for (auto v : x.hashes) { REQ(h.insert(v).second, "hash " << v << " was generated twice, the second time in " << where); }
    }
};

// what was generated in an earlier case of this worker must not come again
Seen& AllSeen()
{
    static Seen s;
    return s;
}

void WriteAll(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = write(fd, s.data() + o, s.size() - o);
        if (n <= 0) { _exit(3); }
        o += static_cast<size_t>(n);
    }
}
Ids Parse(const std::string& t)
{
    Ids r;
    std::istringstream is(t);
    std::string l;
    while (std::getline(is, l)) {
        if (l.rfind("u ", 0) == 0) { r.uuids.push_back(l.substr(2)); }
        if (l.rfind("h ", 0) == 0) { r.hashes.push_back(std::stoull(l.substr(2))); }
    }
    return r;
}
std::string Format(const Ids& x)
{
    std::string t;
    for (auto& u : x.uuids) { t += "u " + u + "\n"; }
    for (auto h : x.hashes) { t += "h " + std::to_string(h) + "\n"; }
    return t;
}
std::string ReadAll(int fd)
{
    std::string t;
    char buf[4096];
    ssize_t n = 0;
    while ((n = read(fd, buf, sizeof(buf))) > 0) { t.append(buf, static_cast<size_t>(n)); }
    return t;
}

const pbt::RegisterChild kChild{[](const std::vector<std::string>& a) {
    gSame = a.at(0) == "1";
    Ids x;
    x.make(std::stoul(a.at(1)), false);
    x.make(std::stoul(a.at(2)), true);
    WriteAll(1, Format(x));
    return 0;
}};

}   // namespace

CASE(sequence, 3)
{
    const size_t n = 1 + s.size(300), m = s.size(300);
    gSame = s.flip();
    c << n << " ids, " << m << " hashes" << (gSame ? ", clock stopped" : "");
    Ids x;
    x.make(n, false);
    x.make(m, true);
    gSame = false;
    AllSeen().add(x, "one thread");
    // random where it should be: of many ids, every free digit takes most of its values
    if (n >= 200) {
        for (size_t i = 0; i < 36; ++i) {
            if (i == 8 || i == 13 || i == 14 || i == 18 || i == 23) { continue; }
            std::set<char> v;
            for (auto& u : x.uuids) { v.insert(u[i]); }
            REQ(v.size() >= (i == 19 ? 3u : 10u), "digit " << i << " takes only " << v.size() << " values in " << n << " ids");
        }
    }
    if (m >= 200) {
        for (int b = 0; b < 64; ++b) {
            size_t ones = 0;
            for (auto h : x.hashes) { ones += (h >> b) & 1; }
            REQ(ones > m / 8 && ones < m - m / 8, "bit " << b << " of " << m << " hashes is set " << ones << " times");
        }
    }
    c.nontrivial(n + m > 2);
}

RACY_CASE(threads, 2, 30000)
{
    const size_t nt = 2 + s.draw(7), n = 1 + s.size(200);
    const bool hash = s.flip();
    gSame = s.flip();
    c << nt << " threads x " << n << (hash ? " hashes" : " ids");
    std::vector<Ids> x(nt);
    std::vector<std::thread> ts;
    std::atomic<size_t> ready{0};
    for (size_t t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            ++ready;
            while (ready < nt) {}
            x[t].make(n, hash);
        });
    }
    for (auto& t : ts) { t.join(); }
    gSame = false;
    for (size_t t = 0; t < nt; ++t) { AllSeen().add(x[t], "thread " + std::to_string(t)); }
    c.nontrivial();
}

// forked from a common state: before or after the parent's first id
CASE(forks, 2)
{
    const size_t np = 1 + s.draw(4), before = s.draw(3), n = 1 + s.draw(10), m = s.draw(5);
    gSame = s.flip();
    c << before << " ids, then " << np << " forks with " << n << " ids and " << m << " hashes";
    Ids own;
    own.make(before, false);
    own.make(before, true);
    std::vector<int> fds;
    std::vector<pid_t> pids;
    for (size_t p = 0; p < np; ++p) {
        int fd[2];
        if (pipe(fd) != 0) { throw pbt::Discard{}; }
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            Ids x;
            x.make(n, false);
            x.make(m, true);
            WriteAll(fd[1], Format(x));
            _exit(0);
        }
        close(fd[1]);
        fds.push_back(fd[0]);
        pids.push_back(pid);
    }
    own.make(n, false);
    own.make(m, true);
    gSame = false;
    AllSeen().add(own, "the parent");
    for (size_t p = 0; p < np; ++p) {
        Ids x = Parse(ReadAll(fds[p]));
        close(fds[p]);
        int st = 0;
        waitpid(pids[p], &st, 0);
        REQ_EQ(x.uuids.size(), n, "ids from fork " << p);
        REQ_EQ(x.hashes.size(), m, "hashes from fork " << p);
        AllSeen().add(x, "fork " + std::to_string(p));
    }
    c.nontrivial();
}

CASE(processes, 1)
{
    const size_t np = 2 + s.draw(3), n = 1 + s.draw(5), m = 1 + s.draw(3);
    const bool same = s.flip();
    c << np << " processes with " << n << " ids and " << m << " hashes" << (same ? ", clocks and process ids agree" : "");
    const std::string self = pbt::SelfExe();
    std::vector<FILE*> f;
    for (size_t p = 0; p < np; ++p) {
        f.push_back(popen((self + " --child " + (same ? "1 " : "0 ") + std::to_string(n) + " " + std::to_string(m)).c_str(), "r"));
    }
    for (size_t p = 0; p < np; ++p) {
        std::string t = ReadAll(fileno(f[p]));
        pclose(f[p]);
        Ids x = Parse(t);
        REQ_EQ(x.uuids.size(), n, "ids from process " << p);
        AllSeen().add(x, "process " + std::to_string(p));
    }
    c.nontrivial();
}
