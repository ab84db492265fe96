// C33: string helpers, versions, instance limits, scope-exit actions and raw terminal input against reference functions
#include "harness.h"
#include <functional>
#include <iomanip>
#include <memory>
#include <optional>
#include <pty.h>
#include <stdexcept>
#include <termios.h>
#include <fairmq/tools/Exceptions.h>
#include <fairmq/tools/InstanceLimit.h>
#include <fairmq/tools/IO.h>
#include <fairmq/tools/Strings.h>
#include <fairmq/tools/Version.h>

using namespace fair::mq::tools;

namespace {

std::string Text(pbt::Src& s, size_t max = 12)
{
    std::string alpha = "ab";
    if (s.flip()) { alpha += std::string("c \t\n\"\\%{}", 10) + '\0' + "\xff"; }
    return s.str(alpha, 0, max);
}

std::string Printf(const char* f, ...)
{
    char buf[512];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(buf, sizeof(buf), f, ap);
    va_end(ap);
    return std::string(buf, static_cast<size_t>(n));
}

// an operand of ToString with the text it denotes; copies and moves are counted as a moved-from operand must not be printed
struct Operand
{
    int kind = 0;
    long long i = 0;
    double d = 0;
    std::string str;
    mutable int printed = 0;
    std::string text() const
    {
        switch (kind) {
            case 0: return Printf("%lld", i);
            case 1: return Printf("%g", d);
            case 2: return str;
            case 3: return std::string(1, static_cast<char>(i));
            default: return i ? "1" : "0";
        }
    }
    friend std::ostream& operator<<(std::ostream& o, const Operand& x)
    {
        ++x.printed;
        switch (x.kind) {
            case 0: return o << x.i;
            case 1: return o << x.d;
            case 2: return o << x.str;
            case 3: return o << static_cast<char>(x.i);
            default: return o << bool(x.i);
        }
    }
};
Operand GenOperand(pbt::Src& s)
{
    Operand o;
    o.kind = static_cast<int>(s.draw(5));
    switch (o.kind) {
        case 0: o.i = s.edgy(INT64_MIN, INT64_MAX); break;
        case 1: o.d = static_cast<double>(s.range(-100000, 100000)) / static_cast<double>(1 + s.draw(1000)); if (s.chance(20)) { o.d *= 1e30; } break;
        case 2: o.str = Text(s); break;
        case 3: o.i = s.range(32, 126); break;
        default: o.i = static_cast<int>(s.draw(2));
    }
    return o;
}

}   // namespace

CASE(to_string, 3)
{
    const size_t n = s.draw(7);
    std::vector<Operand> o;
    std::string want;
    for (size_t i = 0; i < n; ++i) { o.push_back(GenOperand(s)); want += o.back().text(); c << o.back() << "|"; }
    for (auto& x : o) { x.printed = 0; }
    std::string got;
    switch (n) {
        case 0: got = ToString(); break;
        case 1: got = ToString(o[0]); break;
        case 2: got = ToString(o[0], o[1]); break;
        case 3: got = ToString(o[0], o[1], o[2]); break;
        case 4: got = ToString(o[0], o[1], o[2], o[3]); break;
        case 5: got = ToString(o[0], o[1], o[2], o[3], o[4]); break;
        default: got = ToString(o[0], o[1], o[2], o[3], o[4], o[5]);
    }
    REQ_EQ(got, want, "ToString of " << n << " arguments");
    for (auto& x : o) { REQ_EQ(x.printed, 1, "times an argument was printed"); }
    // plain types, lvalues and temporaries
    int i = static_cast<int>(s.edgy(INT32_MIN, INT32_MAX));
    unsigned long u = s.u64();
    std::string str = Text(s, 40);
    bool b = s.flip();
    double d = static_cast<double>(s.range(-1000, 1000)) / 8;
    char ch = static_cast<char>(s.range(33, 126));
    REQ_EQ(ToString(i, ' ', u, str, b, "literal", d, ch, std::string("x") + str), Printf("%d %lu", i, u) + str + (b ? "1" : "0") + "literal" + Printf("%g", d) + ch + "x" + str,
           "ToString of plain types");
    REQ_EQ(ToString(std::hex, std::setw(8), std::setfill('0'), 255u + (u & 0xffff)), Printf("%08lx", 255ul + (u & 0xffff)), "ToString with manipulators");
    REQ_EQ(ToString(str), str, "ToString of one string");
    REQ_EQ(ToString(str.c_str()), std::string(str.c_str()), "ToString of one C string");
    c.nontrivial(want.size() > 1);
}

CASE(str_vector, 2)
{
    std::vector<std::string> args{"prog" + Text(s, 3)};
    size_t n = s.size(40);
    for (size_t i = 0; i < n; ++i) { args.push_back(Text(s)); }
    for (auto& a : args) { a = a.c_str(); c << a << "|"; }   // as C strings
    std::vector<char*> argv;
    for (auto& a : args) { argv.push_back(a.data()); }
    argv.push_back(nullptr);
    const bool dflt = s.flip(), drop = dflt || s.flip();
    auto r = dflt ? ToStrVector(static_cast<int>(args.size()), argv.data()) : ToStrVector(static_cast<int>(args.size()), argv.data(), drop);
    std::vector<std::string> want(args.begin() + (drop ? 1 : 0), args.end());
    REQ_EQ(r.size(), want.size(), "number of arguments");
    for (size_t i = 0; i < want.size(); ++i) { REQ_EQ(r[i], want[i], "argument " << i); }
    c.nontrivial(n > 0);
}

CASE(starts_ends, 3)
{
    std::string a = Text(s, 10), b;
    switch (s.draw(5)) {
        case 0: b = Text(s, 4); break;
        case 1: b = a.substr(0, s.draw(a.size() + 1)); break;
        case 2: b = a.substr(s.draw(a.size() + 1)); break;
        case 3: b = a + Text(s, 2); break;
        default: b = a.substr(s.draw(a.size() + 1), s.draw(6)); if (!b.empty() && s.flip()) { b[s.draw(b.size())] = 'b'; }
    }
    c << a << " / " << b;
    bool starts = b.size() <= a.size(), ends = starts;
    for (size_t i = 0; i < b.size() && b.size() <= a.size(); ++i) {
        if (a[i] != b[i]) { starts = false; }
        if (a[a.size() - b.size() + i] != b[i]) { ends = false; }
    }
    REQ_EQ(StrStartsWith(a, b), starts, "StrStartsWith");
    REQ_EQ(StrEndsWith(a, b), ends, "StrEndsWith");
    c.label("starts", starts);
    c.label("ends", ends);
    c.nontrivial(!b.empty() && !a.empty());
}

CASE(version, 3)
{
    auto num = [&] { return static_cast<int>(s.flip() ? s.draw(3) : s.edgy(s.chance(20) ? INT32_MIN : 0, s.flip() ? 30 : INT32_MAX)); };
    int f[3][3];
    for (auto& v : f) { for (int& x : v) { x = num(); } }
    if (s.flip()) { size_t k = s.draw(4); for (size_t i = 0; i < 3 && i < k; ++i) { f[1][i] = f[0][i]; } }
    const Version v[3] = {{f[0][0], f[0][1], f[0][2]}, {f[1][0], f[1][1], f[1][2]}, {f[2][0], f[2][1], f[2][2]}};
    for (auto& x : v) { c << x.fkMajor << "." << x.fkMinor << "." << x.fkPatch << " "; }
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            int cmp = 0;
            for (int k = 0; k < 3 && cmp == 0; ++k) { cmp = f[i][k] < f[j][k] ? -1 : f[i][k] > f[j][k] ? 1 : 0; }
            REQ_EQ(v[i] < v[j], cmp < 0, v[i] << " < " << v[j]);
            REQ_EQ(v[i] > v[j], cmp > 0, v[i] << " > " << v[j]);
            REQ_EQ(v[i] <= v[j], cmp <= 0, v[i] << " <= " << v[j]);
            REQ_EQ(v[i] >= v[j], cmp >= 0, v[i] << " >= " << v[j]);
            REQ_EQ(v[i] == v[j], cmp == 0, v[i] << " == " << v[j]);
            REQ_EQ(v[i] != v[j], cmp != 0, v[i] << " != " << v[j]);
        }
        REQ_EQ(ToString(v[i]), Printf("%d.%d.%d", f[i][0], f[i][1], f[i][2]), "printed version");
    }
    c.nontrivial();
}

namespace {

struct TagA { friend std::ostream& operator<<(std::ostream& o, const TagA&) { return o << "apples"; } };
struct TagB { friend std::ostream& operator<<(std::ostream& o, const TagB&) { return o << "pears"; } };

struct LimiterModel { virtual ~LimiterModel() = default; virtual int count() = 0; };
template<typename Tag, int Max>
struct Limited : LimiterModel
{
    InstanceLimiter<Tag, Max> l;
    explicit Limited(bool fail) { if (fail) { throw std::logic_error("constructor fails"); } }
    int count() override { return l.GetCount(); }
};
// the limit as the first base, as the library uses it
template<typename Tag, int Max>
struct LimitedBase : InstanceLimiter<Tag, Max>, LimiterModel
{
    explicit LimitedBase(bool fail) { if (fail) { throw std::logic_error("constructor fails"); } }
    int count() override { return this->GetCount(); }
};
std::unique_ptr<LimiterModel> MakeLimited(size_t kind, bool fail)
{
    switch (kind) {
        case 0: return std::make_unique<Limited<TagA, 1>>(fail);
        case 1: return std::make_unique<LimitedBase<TagA, 3>>(fail);
        case 2: return std::make_unique<Limited<TagB, 3>>(fail);
        case 3: return std::make_unique<LimitedBase<TagB, 1>>(fail);
        default: return std::make_unique<Limited<TagB, 7>>(fail);
    }
}

}   // namespace

CASE(instance_limit, 3)
{
    const int max[] = {1, 3, 3, 1, 7};
    const char* tag[] = {"apples", "apples", "pears", "pears", "pears"};
    std::vector<std::unique_ptr<LimiterModel>> live[5];
    size_t refused = 0, ops = 0;
    while (s.draw(40) != 0) {
        size_t k = s.draw(5);
        if (s.draw(3) != 0) {
            const bool fail = s.chance(15);
            c << "+" << k << (fail ? "! " : " ");
            const bool full = static_cast<int>(live[k].size()) >= max[k];
            try {
                auto p = MakeLimited(k, fail);
                REQ(!full, "one more than " << max[k] << " instances were admitted");
                REQ(!fail, "constructor threw");
                live[k].push_back(std::move(p));
            } catch (const std::runtime_error& e) {
                REQ(full, "an instance was refused with " << live[k].size() << " of " << max[k] << " alive: " << e.what());
                std::string what = e.what();
                REQ(what.find(tag[k]) != std::string::npos && what.find(std::to_string(max[k])) != std::string::npos, "the message names limit and subject: " << what);
                ++refused;
            } catch (const std::logic_error&) {
                REQ(fail && !full, "which exception comes first");
            }
        } else if (!live[k].empty()) {
            c << "-" << k << " ";
            live[k].erase(live[k].begin() + static_cast<long>(s.draw(live[k].size())));
        }
        ++ops;
        for (size_t i = 0; i < 5; ++i) { if (!live[i].empty()) { REQ_EQ(live[i].back()->count(), static_cast<int>(live[i].size()), "instances counted"); } }
    }
    c.label("refused", refused > 0);
    c.nontrivial(ops > 3);
}

CASE(scope_exit, 2)
{
    int calls = 0;
    const size_t ctor = s.draw(3);
    bool want = ctor != 2;
    bool raise = s.flip();
    c << (ctor == 0 ? "default" : ctor == 1 ? "enabled" : "disabled");
    std::vector<int> log;
    try {
        std::function<void()> f = [&calls] { ++calls; };
        std::optional<CallOnDestruction> x;
        if (ctor == 0) { x.emplace(f); } else { x.emplace(f, ctor == 1); }
        f = [&calls] { calls += 100; };   // the action was given by value
        while (s.draw(4) != 0) {
            if (s.flip()) { x->enable(); want = true; c << " enable"; } else { x->disable(); want = false; c << " disable"; }
            REQ_EQ(calls, 0, "calls before destruction");
        }
        if (raise) { c << " throw"; throw std::logic_error("leave"); }
    } catch (const std::logic_error&) {}
    REQ_EQ(calls, want ? 1 : 0, "calls at destruction");
    c.nontrivial();
}

// the terminal is raw while the object lives and line-buffered with echo afterwards; nothing else is changed
CASE(raw_input, 1)
{
    int master = -1, slave = -1;
    if (openpty(&master, &slave, nullptr, nullptr, nullptr) != 0) { c.label("no terminal"); throw pbt::Discard{}; }
    termios t{};
    tcgetattr(slave, &t);
    for (tcflag_t f : {tcflag_t(ISIG), tcflag_t(IEXTEN), tcflag_t(NOFLSH), tcflag_t(ECHOE), tcflag_t(ECHOK), tcflag_t(ECHONL), tcflag_t(TOSTOP)}) {
        if (s.flip()) { t.c_lflag |= f; } else { t.c_lflag &= ~f; }
    }
    for (tcflag_t f : {tcflag_t(ICRNL), tcflag_t(IXON), tcflag_t(ISTRIP), tcflag_t(IGNBRK)}) {
        if (s.flip()) { t.c_iflag |= f; } else { t.c_iflag &= ~f; }
    }
    t.c_lflag |= ICANON | ECHO;
    tcsetattr(slave, TCSANOW, &t);
    termios before{}, during{}, after{};
    tcgetattr(slave, &before);
    const int saved = dup(STDIN_FILENO);
    dup2(slave, STDIN_FILENO);
    const bool nested = s.chance(20);
    const std::string typed = s.str("abc", 1, 5);
    std::string got(typed.size(), '?'), echo;
    ssize_t n = 0;
    try {
        NonCanonicalInput raw;
        tcgetattr(slave, &during);
        // input arrives without a line end
        if (write(master, typed.data(), typed.size()) > 0) {
            fd_set set;
            FD_ZERO(&set);
            FD_SET(STDIN_FILENO, &set);
            timeval tv{5, 0};
            if (select(STDIN_FILENO + 1, &set, nullptr, nullptr, &tv) == 1) {
                while (n < static_cast<ssize_t>(got.size())) {
                    ssize_t k = read(STDIN_FILENO, got.data() + n, got.size() - static_cast<size_t>(n));
                    if (k <= 0) { break; }
                    n += k;
                }
            }
        }
        if (nested) { throw std::logic_error("leave"); }
    } catch (const std::logic_error&) {}
    tcgetattr(slave, &after);
    dup2(saved, STDIN_FILENO);
    close(saved);
    close(slave);
    close(master);
    c << "flags " << before.c_lflag << " typed " << typed;
    REQ_EQ(during.c_lflag, before.c_lflag & ~tcflag_t(ICANON | ECHO), "local modes while the object lives");
    REQ_EQ(during.c_iflag, before.c_iflag, "input modes while the object lives");
    REQ_EQ(during.c_oflag, before.c_oflag, "output modes while the object lives");
    REQ_EQ(after.c_lflag, before.c_lflag, "local modes afterwards");
    REQ_EQ(after.c_iflag, before.c_iflag, "input modes afterwards");
    REQ_EQ(after.c_oflag, before.c_oflag, "output modes afterwards");
    REQ_EQ(got.substr(0, static_cast<size_t>(n)), typed, "characters available at once");
    c.nontrivial();
}
