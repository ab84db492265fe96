#include "harness.h"

#include <dirent.h>
#include <sys/prctl.h>

extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* stop)
{
    pbt::CovRegions().emplace_back(start, stop);
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_odr_violation=0:"
           "symbolize=0:allow_user_segv_handler=1:quarantine_size_mb=64:malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }

namespace pbt {

std::vector<std::pair<uint8_t*, uint8_t*>>& CovRegions()
{
    static std::vector<std::pair<uint8_t*, uint8_t*>> r;
    return r;
}

std::string JsonEscape(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); o += b; }
        else { o += static_cast<char>(ch); }
    }
    return o;
}

namespace {

enum class St { ok, fail, crash, hang, discard };
const char* StName(St s)
{
    switch (s) {
        case St::ok: return "ok";
        case St::fail: return "fail";
        case St::crash: return "crash";
        case St::hang: return "hang";
        default: return "discard";
    }
}

struct Shared
{
    std::atomic<int> stop;
    std::atomic<uint64_t> next[64];   // next case index per sub
};

template<typename T>
T* MapShared(size_t n = 1)
{
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<T*>(p);
}

// a case inside this process: returns whether it passed; the message is left in the slot
St Execute(const Sub& sub, Slot* slot, Src& src, Case& c)
{
    auto put = [&](const std::string& m) {
        size_t n = std::min(m.size(), sizeof(slot->msg) - 1);
        memcpy(slot->msg, m.data(), n);
        slot->msg[n] = 0;
        slot->failed.store(1);
    };
    try {
        sub.fn(src, c);
        return St::ok;
    } catch (const Failure& f) {
        put(f.msg);
    } catch (const Discard&) {
        return St::discard;
    } catch (const std::exception& e) {
        put(std::string("unexpected exception: ") + e.what());
    } catch (...) {
        put("unexpected exception of unknown type");
    }
    return St::fail;
}

std::string Tail(const std::string& file, size_t n)
{
    std::ifstream f(file, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    auto p = s.find("ERROR: AddressSanitizer");
    if (p != std::string::npos) { return s.substr(p, n); }
    p = s.find("runtime error");
    if (p != std::string::npos) { return s.substr(p > 100 ? p - 100 : 0, n); }
    return s.size() > n ? s.substr(s.size() - n) : s;
}

void RedirectStderr(const std::string& file)
{
    int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

struct Result
{
    St st = St::ok;
    std::string msg;
    std::string desc;
    std::vector<uint64_t> choices;
};

std::string Describe(int status, const std::string& errFile)
{
    std::ostringstream o;
    if (WIFSIGNALED(status)) { o << "process ended by signal " << WTERMSIG(status); }
    else { o << "process exited with " << WEXITSTATUS(status); }
    o << ": " << Tail(errFile, 1500);
    return o.str();
}

// a case in a process of its own
Result RunForked(const Sub& sub, const std::vector<uint64_t>& choices, Slot* slot, int hangMs, const std::string& tag)
{
    std::string err = Opt().scratch + "/err." + tag;
    slot->failed.store(0);
    slot->msg[0] = slot->desc[0] = 0;
    slot->n.store(0);
    slot->startMs.store(NowMs());
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        RedirectStderr(err);
        WorkerId() = 63;
        if (WorkerInit()) { WorkerInit()(); }
        Src src(slot, 0, &choices, false);
        Case c(slot);
        St st = Execute(sub, slot, src, c);
        _exit(st == St::ok ? 0 : st == St::discard ? 8 : 7);
    }
    Result r;
    int status = 0;
    int64_t t0 = NowMs();
    useconds_t nap = 200;
    while (true) {
        pid_t w = waitpid(pid, &status, WNOHANG);
        if (w == pid) { break; }
        if (NowMs() - t0 > hangMs) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            r.st = St::hang;
            break;
        }
        usleep(nap);
        if (nap < 5000) { nap += 200; }
    }
    kill(-pid, SIGKILL);   // whatever it left running
    uint32_t n = std::min<uint32_t>(slot->n.load(), kMaxChoices);
    r.choices.assign(slot->choices, slot->choices + n);
    r.desc = slot->desc;
    if (r.st == St::hang) { r.msg = "no progress for " + std::to_string(hangMs) + " ms"; return r; }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { r.st = St::ok; }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 8) { r.st = St::discard; }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 7 && slot->failed.load()) { r.st = St::fail; r.msg = slot->msg; }
    else { r.st = St::crash; r.msg = Describe(status, err); }
    return r;
}

bool Bad(St s) { return s == St::fail || s == St::crash || s == St::hang; }

// coverage-guided part of a worker
struct Corpus
{
    std::vector<std::vector<uint8_t>> seen;
    std::map<uint32_t, std::vector<std::vector<uint64_t>>> items;   // per sub
    bool enabled = false;

    void init()
    {
        for (auto& r : CovRegions()) { seen.emplace_back(static_cast<size_t>(r.second - r.first), 0); }
        enabled = !seen.empty();
    }
    static uint8_t bucket(uint8_t n)
    {
        if (n == 0) { return 0; }
        if (n == 1) { return 1; }
        if (n == 2) { return 2; }
        if (n == 3) { return 4; }
        if (n < 8) { return 8; }
        if (n < 16) { return 16; }
        if (n < 32) { return 32; }
        if (n < 128) { return 64; }
        return 128;
    }
    void reset() const
    {
        for (auto& r : CovRegions()) { memset(r.first, 0, static_cast<size_t>(r.second - r.first)); }
    }
    bool fresh()
    {
        bool f = false;
        for (size_t i = 0; i < seen.size(); ++i) {
            uint8_t* p = CovRegions()[i].first;
            size_t n = seen[i].size();
            auto& s = seen[i];
            size_t j = 0;
            for (; j + 8 <= n; j += 8) {
                uint64_t w;
                memcpy(&w, p + j, 8);
                if (w == 0) { continue; }
                for (size_t k = j; k < j + 8; ++k) {
                    uint8_t b = bucket(p[k]);
                    if (b & ~s[k]) { s[k] |= b; f = true; }
                }
            }
            for (; j < n; ++j) {
                uint8_t b = bucket(p[j]);
                if (b & ~s[j]) { s[j] |= b; f = true; }
            }
        }
        return f;
    }
    size_t covered() const
    {
        size_t n = 0;
        for (auto& s : seen) { for (auto b : s) { n += b != 0; } }
        return n;
    }
};

std::vector<uint64_t> Mutate(const std::vector<std::vector<uint64_t>>& items, Rng& r)
{
    auto v = items[r.below(items.size())];
    if (v.empty()) { return v; }
    unsigned k = 1 + static_cast<unsigned>(r.below(3));
    for (unsigned i = 0; i < k; ++i) {
        if (v.empty()) { break; }
        switch (r.below(6)) {
            case 0: v[r.below(v.size())] = r() >> r.below(64); break;
            case 1: v[r.below(v.size())] = r.below(8); break;
            case 2: v.resize(1 + r.below(v.size())); break;   // new random tail
            case 3: {                                          // drop a piece
                size_t a = r.below(v.size());
                size_t n = 1 + r.below(std::min<size_t>(16, v.size() - a));
                v.erase(v.begin() + static_cast<long>(a), v.begin() + static_cast<long>(a + n));
                break;
            }
            case 4: {   // repeat a piece
                size_t a = r.below(v.size());
                size_t n = 1 + r.below(std::min<size_t>(16, v.size() - a));
                std::vector<uint64_t> piece(v.begin() + static_cast<long>(a), v.begin() + static_cast<long>(a + n));
                v.insert(v.begin() + static_cast<long>(a), piece.begin(), piece.end());
                break;
            }
            default: {   // splice with another
                auto& o = items[r.below(items.size())];
                if (!o.empty()) {
                    size_t a = r.below(v.size());
                    size_t b = r.below(o.size());
                    v.resize(a);
                    v.insert(v.end(), o.begin() + static_cast<long>(b), o.end());
                }
            }
        }
    }
    if (v.size() > 4096) { v.resize(4096); }
    return v;
}

void WriteStats(const std::string& file,
                const std::map<std::string, uint64_t>& counts,
                const std::unordered_set<uint64_t>& distinct,
                const std::vector<std::string>& samples)
{
    std::ofstream f(file + ".tmp", std::ios::binary);
    f << counts.size() << "\n";
    for (auto& p : counts) { f << p.second << " " << p.first << "\n"; }
    f << samples.size() << "\n";
    for (auto& s : samples) { f << s << "\n"; }
    f << distinct.size() << "\n";
    for (auto h : distinct) { f.write(reinterpret_cast<const char*>(&h), 8); }
    f.close();
    rename((file + ".tmp").c_str(), file.c_str());
}

[[noreturn]] void Worker(int w, Shared* sh, Slot* slot, const std::string& statFile, uint64_t salt)
{
    WorkerId() = w;
    if (WorkerInit()) { WorkerInit()(); }
    auto& subs = Subs();
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, int> perSubSamples;
    Corpus corpus;
    corpus.init();
    std::vector<uint32_t> wheel;
    for (uint32_t i = 0; i < subs.size(); ++i) {
        if (!Opt().only.empty() && ("," + Opt().only + ",").find("," + subs[i].name + ",") == std::string::npos) { continue; }
        for (unsigned k = 0; k < subs[i].weight; ++k) { wheel.push_back(i); }
    }
    // spread the entries of each sub over the wheel
    {
        Rng r(Mix(Opt().seed + 77));
        for (size_t i = wheel.size(); i > 1; --i) { std::swap(wheel[i - 1], wheel[r.below(i)]); }
    }
    size_t turn = static_cast<size_t>(w);
    Rng local(Mix(Opt().seed * 1000003ull + static_cast<uint64_t>(w) + salt * 7919));
    int64_t lastStat = NowMs();
    size_t idle = 0;
    while (!sh->stop.load(std::memory_order_relaxed) && idle < wheel.size()) {
        uint32_t si = wheel[turn++ % wheel.size()];
        const Sub& sub = subs[si];
        uint64_t idx = sh->next[si].fetch_add(1);
        if (sub.exhaustive && idx >= sub.exhaustive) { ++idle; continue; }
        if (Opt().maxCases && idx >= Opt().maxCases) { ++idle; continue; }
        idle = 0;
        uint64_t seed = Mix(Mix(Opt().seed) ^ HashStr(sub.name) ^ Mix(idx));
        std::vector<uint64_t> prefix;
        bool mutated = false;
        if (sub.exhaustive) {
            prefix.push_back(idx);
        } else if (corpus.enabled && !corpus.items[si].empty() && local.below(100) < 45) {
            prefix = Mutate(corpus.items[si], local);
            mutated = true;
        }
        slot->failed.store(0);
        slot->sub.store(si);
        slot->index.store(idx);
        if (corpus.enabled) { corpus.reset(); }
        Src src(slot, seed, &prefix, true);
        Case c(slot);
        slot->startMs.store(NowMs());
        St st = Execute(sub, slot, src, c);
        slot->startMs.store(0);
        slot->done.fetch_add(1);
        if (st == St::fail) {
            WriteStats(statFile, counts, distinct, samples);
            _exit(7);
        }
        counts["cases:" + sub.name]++;
        if (st == St::discard) { counts["discarded:" + sub.name]++; continue; }
        counts["evaluations"]++;
        if (mutated) { counts["mutated"]++; }
        if (corpus.enabled && corpus.fresh()) {
            uint32_t n = slot->n.load();
            if (n <= 4096) {
                corpus.items[si].emplace_back(slot->choices, slot->choices + n);
                if (corpus.items[si].size() > 2000) { corpus.items[si].erase(corpus.items[si].begin()); }
                counts["kept_for_new_coverage"]++;
            }
        }
        for (auto& l : c.fLabels) { counts["label:" + sub.name + ":" + l]++; }
        for (auto& p : c.fCounts) { counts["count:" + sub.name + ":" + p.first] += p.second; }
        if (c.fNontrivial) {
            counts["nontrivial:" + sub.name]++;
            if (distinct.size() < 1000000) {
                uint64_t h = Mix(HashStr(sub.name)) ^ c.fHash;
                // where the written-out case leaves the plan out, the choices tell cases apart
                if (sub.racy) { h ^= HashBytes(slot->choices, slot->n.load() * 8ul); }
                distinct.insert(h);
            }
            int& k = perSubSamples[sub.name];
            if (k < 3 && local.below(8) == 0 && slot->desc[0]) {
                ++k;
                std::string d = slot->desc;
                if (d.size() > 700) { d = d.substr(0, 700) + " ..."; }
                samples.push_back(sub.name + ": " + d);
            }
        }
        if (NowMs() - lastStat > 3000) {
            counts["coverage_counters_hit"] = corpus.enabled ? corpus.covered() : 0;
            WriteStats(statFile, counts, distinct, samples);
            lastStat = NowMs();
        }
    }
    if (corpus.enabled) { counts["coverage_counters_hit"] = corpus.covered(); }
    WriteStats(statFile, counts, distinct, samples);
    _exit(0);
}

struct Stats
{
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    void merge(const std::string& file)
    {
        std::ifstream f(file, std::ios::binary);
        if (!f) { return; }
        size_t n = 0;
        std::string line;
        if (!std::getline(f, line)) { return; }
        n = std::stoul(line);
        for (size_t i = 0; i < n && std::getline(f, line); ++i) {
            auto sp = line.find(' ');
            uint64_t v = std::stoull(line.substr(0, sp));
            std::string k = line.substr(sp + 1);
            if (k == "coverage_counters_hit") { counts[k] = std::max(counts[k], v); }
            else { counts[k] += v; }
        }
        if (!std::getline(f, line)) { return; }
        n = std::stoul(line);
        for (size_t i = 0; i < n && std::getline(f, line); ++i) { samples.push_back(line); }
        if (!std::getline(f, line)) { return; }
        n = std::stoul(line);
        for (size_t i = 0; i < n; ++i) {
            uint64_t h = 0;
            if (!f.read(reinterpret_cast<char*>(&h), 8)) { break; }
            distinct.insert(h);
        }
        f.close();
        unlink(file.c_str());
    }
};

// smaller = shorter, then lexicographically smaller
bool Simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    if (a.size() != b.size()) { return a.size() < b.size(); }
    return a < b;
}

Result Shrink(const Sub& sub, Result best, Slot* slot, int hangMs, double budgetS, uint64_t& tries)
{
    int64_t end = NowMs() + static_cast<int64_t>(budgetS * 1000);
    auto attempt = [&](const std::vector<uint64_t>& v) {
        if (NowMs() > end) { return false; }
        ++tries;
        Result r = RunForked(sub, v, slot, hangMs, "shrink");
        if (!Bad(r.st)) { return false; }
        if (best.st == St::fail && r.st == St::hang) { return false; }
        // the case may have used fewer choices than given
        if (!Simpler(r.choices, best.choices)) { return false; }
        best = r;
        return true;
    };
    bool progress = true;
    const size_t lead = sub.exhaustive ? 1 : 0;
    while (progress && NowMs() < end) {
        progress = false;
        for (size_t len : {64u, 32u, 16u, 8u, 6u, 5u, 4u, 3u, 2u, 1u}) {
            for (size_t i = best.choices.size(); i-- > lead && NowMs() < end;) {
                if (i + len > best.choices.size()) { continue; }
                auto v = best.choices;
                v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i + len));
                if (attempt(v)) { progress = true; }
            }
        }
        for (size_t i = lead; i < best.choices.size() && NowMs() < end; ++i) {
            if (best.choices[i] == 0) { continue; }
            auto v = best.choices;
            v[i] = 0;
            if (attempt(v)) { progress = true; continue; }
            uint64_t lo = 0;
            while (i < best.choices.size() && best.choices[i] > lo + 1 && NowMs() < end) {
                uint64_t mid = lo + (best.choices[i] - lo) / 2;
                auto u = best.choices;
                u[i] = mid;
                if (attempt(u)) { progress = true; } else { lo = mid; }
            }
            if (i < best.choices.size() && best.choices[i] > 0) {
                auto u = best.choices;
                u[i]--;
                if (attempt(u)) { progress = true; }
            }
        }
    }
    return best;
}

void WriteReplay(const std::string& path, const Sub& sub, const Result& r, const std::string& extra)
{
    std::ofstream f(path);
    f << "property " << Opt().property << "\n";
    f << "sub " << sub.name << "\n";
    f << "status " << StName(r.st) << "\n";
    f << "choices";
    for (auto v : r.choices) { f << " " << v; }
    f << "\n";
    std::string m = r.msg;
    std::replace(m.begin(), m.end(), '\n', '|');
    f << "message " << m << "\n";
    f << "case " << r.desc << "\n";
    f << "note " << extra << "\n";
}

bool ReadReplay(const std::string& path, std::string& sub, std::vector<uint64_t>& choices)
{
    std::ifstream f(path);
    std::string line;
    bool ok = false;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "sub") { is >> sub; ok = true; }
        if (k == "choices") { uint64_t v; while (is >> v) { choices.push_back(v); } }
    }
    return ok;
}

}   // namespace

int Main(int argc, char** argv)
{
    // the check may have been started with signals ignored or blocked (as background jobs are)
    for (int sig = 1; sig < 32; ++sig) {
        if (sig != SIGKILL && sig != SIGSTOP) { signal(sig, SIG_DFL); }
    }
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);

    auto& o = Opt();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--child") {
            std::vector<std::string> rest(argv + i + 1, argv + argc);
            return ChildMain() ? ChildMain()(rest) : 3;
        }
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") { o.seed = std::stoull(val()); }
        else if (a == "--budget") { o.budget = std::stod(val()); }
        else if (a == "--workers") { o.workers = std::stoi(val()); }
        else if (a == "--min-cases") { o.minCases = std::stoull(val()); }
        else if (a == "--max-cases") { o.maxCases = std::stoull(val()); }
        else if (a == "--shrink") { o.shrinkBudget = std::stod(val()); }
        else if (a == "--result") { o.result = val(); }
        else if (a == "--replay-out") { o.replayOut = val(); }
        else if (a == "--replay") { o.replayIn = val(); }
        else if (a == "--scratch") { o.scratch = val(); }
        else if (a == "--only") { o.only = val(); }
        else if (a == "--property") { o.property = val(); }
        else if (a == "-v") { o.verbose = true; }
    }
    if (o.scratch.empty()) {
        char t[] = "/tmp/pbt.XXXXXX";
        o.scratch = mkdtemp(t);
    }
    signal(SIGPIPE, SIG_IGN);
    auto& subs = Subs();
    auto* sh = MapShared<Shared>();
    auto* slots = MapShared<Slot>(static_cast<size_t>(o.workers) + 1);
    Slot* aux = &slots[o.workers];

    if (!o.replayIn.empty()) {
        std::string name;
        std::vector<uint64_t> choices;
        if (!ReadReplay(o.replayIn, name, choices)) { std::cerr << "cannot read " << o.replayIn << "\n"; return 3; }
        for (auto& s : subs) {
            if (s.name == name) {
                int fails = 0;
                int runs = s.racy ? 20 : 1;
                Result last;
                for (int i = 0; i < runs; ++i) {
                    Result r = RunForked(s, choices, aux, s.hangMs, "replay");
                    if (Bad(r.st)) { ++fails; last = r; } else if (!fails) { last = r; }
                }
                std::cout << "replay: " << StName(last.st) << " (" << fails << " of " << runs << " runs failed)\n"
                          << "case: " << last.desc << "\nmessage: " << last.msg << std::endl;
                if (fails) { std::cout << "VIOLATION property=" << o.property << " replay=" << o.replayIn << std::endl; }
                return fails ? 1 : 0;
            }
        }
        std::cerr << "no such case kind: " << name << "\n";
        return 3;
    }

    int64_t t0 = NowMs();
    int64_t end = t0 + static_cast<int64_t>(o.budget * 1000);
    int64_t hardEnd = t0 + static_cast<int64_t>(std::max(o.budget * 4, 60.0) * 1000);
    std::vector<pid_t> pids(static_cast<size_t>(o.workers), 0);
    std::vector<uint64_t> generation(static_cast<size_t>(o.workers), 0);
    std::vector<std::string> statFiles;
    auto start = [&](int w) {
        std::string sf = o.scratch + "/stat." + std::to_string(w) + "." + std::to_string(generation[static_cast<size_t>(w)]);
        statFiles.push_back(sf);
        slots[w].startMs.store(0);
        slots[w].failed.store(0);
        std::cout.flush();
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            if (!o.verbose) { RedirectStderr(o.scratch + "/err." + std::to_string(w)); }
            Worker(w, sh, &slots[w], sf, generation[static_cast<size_t>(w)]);
        }
        pids[static_cast<size_t>(w)] = p;
        generation[static_cast<size_t>(w)]++;
    };
    for (int w = 0; w < o.workers; ++w) { start(w); }

    int violation = 0;
    uint64_t unconfirmed = 0;
    std::vector<std::string> unconfirmedMsgs;
    std::string vMsg;
    std::string vDesc;
    uint64_t shrinkTries = 0;
    int live = o.workers;
    auto killAll = [&] {
        for (auto& p : pids) {
            if (p > 0) {
                kill(-p, SIGKILL);
                kill(p, SIGKILL);
                int st = 0;
                waitpid(p, &st, 0);
                p = 0;
            }
        }
        live = 0;
    };
    while (live > 0) {
        int64_t now = NowMs();
        uint64_t done = 0;
        for (int w = 0; w < o.workers; ++w) { done += slots[w].done.load(); }
        if (now > end && (done >= o.minCases || now > hardEnd)) { sh->stop.store(1); }
        for (int w = 0; w < o.workers && live > 0; ++w) {
            pid_t& p = pids[static_cast<size_t>(w)];
            if (p <= 0) { continue; }
            Slot& slot = slots[w];
            int status = 0;
            bool candidate = false;
            Result r;
            pid_t got = waitpid(p, &status, WNOHANG);
            if (got == p) {
                kill(-p, SIGKILL);
                p = 0;
                --live;
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { continue; }
                candidate = true;
                if (WIFEXITED(status) && WEXITSTATUS(status) == 7 && slot.failed.load()) {
                    r.st = St::fail;
                    r.msg = slot.msg;
                } else {
                    r.st = St::crash;
                    r.msg = Describe(status, o.scratch + "/err." + std::to_string(w));
                }
            } else {
                int64_t s0 = slot.startMs.load();
                int limit = subs[slot.sub.load()].hangMs;
                if (s0 != 0 && now - s0 > limit) {
                    kill(-p, SIGKILL);
                    kill(p, SIGKILL);
                    waitpid(p, &status, 0);
                    p = 0;
                    --live;
                    candidate = true;
                    r.st = St::hang;
                    r.msg = "no progress for " + std::to_string(limit) + " ms";
                }
            }
            if (!candidate) { continue; }
            const Sub& sub = subs[slot.sub.load()];
            uint32_t n = std::min<uint32_t>(slot.n.load(), kMaxChoices);
            r.choices.assign(slot.choices, slot.choices + n);
            r.desc = slot.desc;
            if (o.verbose) { std::cerr << "candidate in " << sub.name << ": " << r.msg << "\n  " << r.desc << "\n"; }
            // run it again, alone among its kind, before believing it
            int again = 0;
            int runs = 0;
            int need = sub.racy || r.st == St::hang ? 2 : 3;   // a hang takes long to confirm
            int maxRuns = sub.racy ? 200 : 3;
            int64_t confirmEnd = NowMs() + (sub.racy ? 60000 : 240000);
            Result conf = r;
            for (; runs < maxRuns && again < need && NowMs() < confirmEnd; ++runs) {
                Result x = RunForked(sub, r.choices, aux, r.st == St::hang ? sub.hangMs * 3 / 2 : sub.hangMs, "confirm");
                if (Bad(x.st)) {
                    ++again;
                    conf = x;
                } else if (!sub.racy) {
                    break;
                }
            }
            if (again >= need || (sub.racy && again >= 1 && r.st != St::hang)) {
                killAll();
                int hang = conf.st == St::hang ? sub.hangMs : std::min(sub.hangMs, 30000);
                Result best = sub.racy && again < runs ? conf : Shrink(sub, conf, aux, hang, o.shrinkBudget, shrinkTries);
                if (best.desc.empty()) { best.desc = r.desc; }
                WriteReplay(o.replayOut, sub, best,
                            "first seen in case " + std::to_string(slot.index.load()) + " of seed " + std::to_string(o.seed) + ", failed again in "
                                + std::to_string(again) + " of " + std::to_string(runs) + " runs, " + std::to_string(shrinkTries)
                                + " shrink attempts; before shrinking: " + r.desc);
                violation = 1;
                vMsg = best.msg;
                vDesc = sub.name + ": " + best.desc;
                break;
            }
            ++unconfirmed;
            unconfirmedMsgs.push_back(sub.name + ": " + r.msg.substr(0, 600) + " || " + r.desc.substr(0, 600));
            if (!sh->stop.load() && unconfirmed < 20 && NowMs() - t0 < 400000) {
                start(w);
                ++live;
            }
        }
        if (violation) { break; }
        // a worker that never finishes its last case is caught by the hang rule above
        usleep(20000);
    }
    killAll();
    Stats st;
    for (auto& f : statFiles) { st.merge(f); }

    uint64_t evals = st.counts["evaluations"];
    std::ofstream f(o.result);
    f << "{\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << st.distinct.size()
      << ", \"violation\": " << violation << ", \"unconfirmed\": " << unconfirmed << ", \"shrink_attempts\": " << shrinkTries
      << ", \"wall_s\": " << (NowMs() - t0) / 1000.0 << ",\n \"counts\": {";
    bool first = true;
    for (auto& p : st.counts) {
        f << (first ? "" : ", ") << "\"" << JsonEscape(p.first) << "\": " << p.second;
        first = false;
    }
    f << "},\n \"exhaustive\": {";
    first = true;
    for (size_t i = 0; i < subs.size(); ++i) {
        if (!subs[i].exhaustive) { continue; }
        f << (first ? "" : ", ") << "\"" << subs[i].name << "\": {\"size\": " << subs[i].exhaustive
          << ", \"complete\": " << (sh->next[i].load() >= subs[i].exhaustive ? "true" : "false") << "}";
        first = false;
    }
    f << "},\n \"samples\": [";
    // a few per kind of case
    std::map<std::string, int> per;
    first = true;
    for (auto& s : st.samples) {
        if (per[s.substr(0, s.find(':'))]++ >= 3) { continue; }
        f << (first ? "" : ", ") << "\"" << JsonEscape(s) << "\"";
        first = false;
    }
    f << "],\n \"unconfirmed_messages\": [";
    first = true;
    for (auto& s : unconfirmedMsgs) {
        f << (first ? "" : ", ") << "\"" << JsonEscape(s) << "\"";
        first = false;
    }
    f << "],\n \"message\": \"" << JsonEscape(vMsg) << "\", \"failing_case\": \"" << JsonEscape(vDesc) << "\"}\n";
    f.close();
    std::cout << o.property << ": " << evals << " cases, " << st.distinct.size() << " distinct non-trivial, " << unconfirmed
              << " unconfirmed, " << (NowMs() - t0) / 1000.0 << " s" << std::endl;
    if (violation) {
        std::cout << "failing case: " << vDesc << "\nmessage: " << vMsg << std::endl;
        std::cout << "VIOLATION property=" << o.property << " replay=" << o.replayOut << std::endl;
        return 1;
    }
    if (evals < o.minCases) {
        std::cout << "inconclusive: only " << evals << " of at least " << o.minCases << " cases ran" << std::endl;
        return 2;
    }
    return 0;
}

}   // namespace pbt

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
