// C35: commands with generated output, input, exit codes and signals; the child follows a script, so its output is known
#include "harness.h"
#include <sys/prctl.h>
#include <fairmq/tools/Process.h>

using fair::mq::tools::execute;

namespace {

void Put(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = write(fd, s.data() + o, s.size() - o);
        if (n <= 0) { _exit(99); }
        o += static_cast<size_t>(n);
    }
}
std::string Hex(const std::string& s)
{
    std::string r = "x";
    char b[3];
    for (unsigned char ch : s) { snprintf(b, 3, "%02x", ch); r += b; }
    return r;
}
std::string UnHex(const std::string& h)
{
    std::string r;
    for (size_t i = 1; i + 1 < h.size(); i += 2) { r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)); }
    return r;
}

const pbt::RegisterChild kChild{[](const std::vector<std::string>& a) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::ifstream is(a.at(0));
    std::string op;
    int exitCode = 0;
    while (is >> op) {
        if (op == "o" || op == "e") {            // text to stdout / stderr
            std::string h;
            is >> h;
            Put(op == "o" ? 1 : 2, UnHex(h));
        } else if (op == "O" || op == "E") {     // many lines of one length
            size_t lines = 0, len = 0;
            is >> lines >> len;
            std::string t;
            for (size_t i = 0; i < lines; ++i) { t += std::string(len, static_cast<char>('a' + i % 26)) + "\n"; }
            Put(op == "O" ? 1 : 2, t);
        } else if (op == "d") {                  // pause
            unsigned us = 0;
            is >> us;
            usleep(us);
        } else if (op == "r") {                  // reads n bytes of input and writes them out
            size_t n = 0;
            is >> n;
            std::string t(n, 0);
            size_t got = 0;
            while (got < n) {
                ssize_t k = read(0, t.data() + got, n - got);
                if (k <= 0) { break; }
                got += static_cast<size_t>(k);
            }
            t.resize(got);
            Put(1, t + "\n");
        } else if (op == "c") {                  // closes stdout or stderr early
            int fd = 0;
            is >> fd;
            close(fd);
        } else if (op == "k") {                  // dies from a signal
            int sig = 0;
            is >> sig;
            signal(sig, SIG_DFL);
            kill(getpid(), sig);
            pause();
        } else if (op == "w") {                  // waits for a signal
            alarm(40);
            while (true) { pause(); }
        } else if (op == "x") {
            is >> exitCode;
        }
    }
    _exit(exitCode);
    return 0;
}};

struct Plan
{
    std::string script, out, err;
    int exitCode = 0;
    bool unterminated = false, big = false;
};

std::string GenText(pbt::Src& s, const char* alphabet, size_t max)
{
    std::string t = s.str(alphabet, 0, 30);
    if (s.chance(30)) { t += std::string(1, '\0') + "\r\t\xff"; }
    if (max > 30 && s.chance(20)) { t += std::string(s.draw(max), alphabet[0]); }
    return t;
}

Plan GenPlan(pbt::Src& s, bool allowBig)
{
    Plan p;
    size_t n = s.size(12);
    bool outOpen = true, errOpen = true;
    for (size_t i = 0; i < n; ++i) {
        switch (s.draw(8)) {
            case 0: case 1: case 2: {
                if (!outOpen) { break; }
                std::string t = GenText(s, "abcd  \\'", 5000);
                if (s.chance(75)) { t += "\n"; }
                p.out += t;
                p.script += "o " + Hex(t) + "\n";
                break;
            }
            case 3: case 4: {
                if (!errOpen) { break; }
                std::string t = GenText(s, "ABCD  %", 5000);
                if (s.chance(75)) { t += "\n"; }
                p.err += t;
                p.script += "e " + Hex(t) + "\n";
                break;
            }
            case 5: {
                const bool o = s.flip();
                if (!(o ? outOpen : errOpen)) { break; }
                size_t lines = s.draw(allowBig ? 3000 : 50), len = s.draw(allowBig && s.chance(20) ? 70000 / (lines + 1) + 200 : 60);
                p.big = p.big || lines * len > 65536;
                for (size_t l = 0; l < lines; ++l) { (o ? p.out : p.err) += std::string(len, static_cast<char>('a' + l % 26)) + "\n"; }
                p.script += std::string(o ? "O " : "E ") + std::to_string(lines) + " " + std::to_string(len) + "\n";
                break;
            }
            case 6: p.script += "d " + std::to_string(s.draw(3000)) + "\n"; break;
            default:
                if (s.chance(20)) {
                    const bool o = s.flip();
                    if (o ? outOpen : errOpen) { p.script += std::string("c ") + (o ? "1" : "2") + "\n"; (o ? outOpen : errOpen) = false; }
                }
        }
    }
    return p;
}

std::vector<std::string> Lines(const std::string& t, bool& unterminated)
{
    std::vector<std::string> r;
    size_t o = 0;
    unterminated = false;
    while (o < t.size()) {
        size_t e = t.find('\n', o);
        if (e == std::string::npos) { unterminated = true; e = t.size(); }
        r.push_back(t.substr(o, e - o));
        o = e + 1;
    }
    return r;
}

// the console text: every line carries the prefix; first the command; then both streams' lines, each stream in order; besides
// these only the tool's own remarks on process id and exit code
void CheckConsole(const std::string& console, const std::string& prefix, const std::string& cmd, const std::string& out, const std::string& err, int exitCode)
{
    bool u = false;
    std::vector<std::string> got = Lines(console, u);
    REQ(!u, "the console text ends in the middle of a line");
    std::vector<std::string> wantOut = Lines(out, u), wantErr = Lines(err, u);
    REQ(!got.empty() && got[0] == prefix + cmd, "the first line names the command: '" << (got.empty() ? "" : got[0]) << "'");
    size_t io = 0, ie = 0;
    const std::string own = "fair::mq::tools::execute: ";
    std::string last;
    for (size_t i = 1; i < got.size(); ++i) {
        REQ(got[i].rfind(prefix, 0) == 0, "line " << i << " lacks the prefix: '" << got[i].substr(0, 100) << "'");
        std::string l = got[i].substr(prefix.size());
        if (l.rfind(own, 0) == 0) { last = l; continue; }
        if (l.rfind("error: ", 0) == 0) {
            l = l.substr(7);
            REQ(ie < wantErr.size(), "more lines of stderr than were written: '" << l.substr(0, 100) << "'");
            REQ(l == wantErr[ie], "line " << ie << " of stderr: '" << l.substr(0, 100) << "' (" << l.size() << ") instead of '" << wantErr[ie].substr(0, 100) << "' (" << wantErr[ie].size() << ")");
            ++ie;
            continue;
        }
        REQ(io < wantOut.size(), "more lines of stdout than were written: '" << l.substr(0, 100) << "'");
        REQ(l == wantOut[io], "line " << io << " of stdout: '" << l.substr(0, 100) << "' (" << l.size() << ") instead of '" << wantOut[io].substr(0, 100) << "' (" << wantOut[io].size() << ")");
        ++io;
    }
    REQ_EQ(io, wantOut.size(), "lines of stdout in the console text");
    REQ_EQ(ie, wantErr.size(), "lines of stderr in the console text");
    REQ(last.find(std::to_string(exitCode)) != std::string::npos, "the last remark tells the exit code: '" << last << "'");
}

struct ScriptFile
{
    std::string path;
    explicit ScriptFile(const std::string& t)
    {
        static std::atomic<int> n{0};
        path = pbt::Scratch() + "/s" + std::to_string(getpid()) + "-" + std::to_string(++n);
        std::ofstream(path) << t;
    }
    ~ScriptFile() { unlink(path.c_str()); }
};

struct Capture   // what goes to std::cout meanwhile
{
    std::ostringstream o;
    std::streambuf* old;
    Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
};

struct Discarded : std::streambuf   // may be used by several threads
{
    std::streambuf* old;
    Discarded() : old(std::cout.rdbuf(this)) {}
    ~Discarded() override { std::cout.rdbuf(old); }
    int overflow(int ch) override { return ch == EOF ? 0 : ch; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

std::string GenPrefix(pbt::Src& s) { return s.pick({"", "[P] ", "x", "error: ", "%s", "fair::"}); }

}   // namespace

CASE(output, 6)
{
    Plan p = GenPlan(s, true);
    std::string prefix = GenPrefix(s);
    if (prefix == "error: ") { prefix = ">"; }
    switch (s.draw(4)) {
        case 0: break;
        case 1: p.exitCode = static_cast<int>(s.draw(256)); p.script += "x " + std::to_string(p.exitCode) + "\n"; break;
        case 2: p.exitCode = s.pick({SIGKILL, SIGTERM, SIGUSR1, SIGINT, SIGHUP}); p.script += "k " + std::to_string(p.exitCode) + "\n"; break;
        default: break;
    }
    c << "prefix '" << prefix << "', stdout " << p.out.size() << " bytes, stderr " << p.err.size() << " bytes, code " << p.exitCode << ": " << p.script.substr(0, 600);
    ScriptFile f(p.script);
    const std::string cmd = pbt::SelfExe() + " --child " + f.path;
    fair::mq::tools::execute_result r;
    std::string shown;
    {
        Capture cap;
        r = execute(cmd, prefix);
        shown = cap.o.str();
    }
    CheckConsole(r.console_out, prefix, cmd, p.out, p.err, p.exitCode);
    REQ_EQ(r.exit_code, p.exitCode, "exit code");
    REQ(shown == r.console_out, "the text shown differs from the text returned");
    bool u = false;
    Lines(p.out, u);
    c.label("unterminated last line", u);
    c.label("more than a pipe holds", p.big || p.out.size() > 65536);
    c.label("no output", p.out.empty() && p.err.empty());
    c.nontrivial(!p.out.empty() || !p.err.empty() || p.exitCode != 0);
}

// the input arrives in full, whatever its size (more than a pipe holds included)
CASE(input, 1)
{
    const size_t chunks = 1 + s.draw(4);
    std::string input, script, out;
    for (size_t i = 0; i < chunks; ++i) {
        std::string t = GenText(s, "abc \n", 0);
        if (s.chance(30)) { t += std::string(s.draw(200000), static_cast<char>('a' + i)); }
        if (t.empty()) { t = "x"; }
        input += t;
        script += "r " + std::to_string(t.size()) + "\n";
        out += t + "\n";
        if (s.flip()) { script += "d " + std::to_string(s.draw(20000)) + "\n"; }
    }
    int code = static_cast<int>(s.draw(3));
    script += "x " + std::to_string(code) + "\n";
    c << "input of " << input.size() << " bytes read in " << chunks << " pieces";
    ScriptFile f(script);
    const std::string cmd = pbt::SelfExe() + " --child " + f.path;
    Capture cap;
    auto r = execute(cmd, "[in] ", input);
    CheckConsole(r.console_out, "[in] ", cmd, out, "", code);
    REQ_EQ(r.exit_code, code, "exit code");
    c.nontrivial();
}

CASE(signalled, 1)
{
    const int sig = s.pick({SIGTERM, SIGINT, SIGKILL, SIGUSR2, SIGHUP});
    Plan p = GenPlan(s, false);
    const bool ends = s.chance(25);   // the command ends by itself before the signal
    if (!ends) { p.script += "w\n"; }
    c << "signal " << sig << (ends ? " too late" : "");
    ScriptFile f(p.script);
    const std::string cmd = pbt::SelfExe() + " --child " + f.path;
    Capture cap;
    auto r = execute(cmd, "", "", sig);
    CheckConsole(r.console_out, "", cmd, p.out, p.err, ends ? 0 : sig);
    REQ_EQ(r.exit_code, ends ? 0 : sig, "code derived from the signal");
    c.nontrivial();
}

// concurrent executions do not mix
RACY_CASE(concurrent, 2, 30000)
{
    const size_t nt = 2 + s.draw(4);
    std::vector<Plan> plans;
    std::vector<std::unique_ptr<ScriptFile>> files;
    for (size_t t = 0; t < nt; ++t) {
        plans.push_back(GenPlan(s, false));
        plans.back().exitCode = static_cast<int>(10 + t);
        plans.back().script += "x " + std::to_string(10 + t) + "\n";
        files.push_back(std::make_unique<ScriptFile>(plans.back().script));
    }
    c << nt << " commands at once";
    std::vector<fair::mq::tools::execute_result> r(nt);
    std::vector<std::string> cmd(nt), err(nt);
    std::vector<std::thread> ts;
    Discarded discarded;
    for (size_t t = 0; t < nt; ++t) {
        cmd[t] = pbt::SelfExe() + " --child " + files[t]->path;
        ts.emplace_back([&, t] {
            try { r[t] = execute(cmd[t], "[" + std::to_string(t) + "]"); } catch (const std::exception& e) { err[t] = e.what(); }
        });
    }
    for (auto& t : ts) { t.join(); }
    for (size_t t = 0; t < nt; ++t) {
        REQ(err[t].empty(), "exception: " << err[t]);
        CheckConsole(r[t].console_out, "[" + std::to_string(t) + "]", cmd[t], plans[t].out, plans[t].err, plans[t].exitCode);
        REQ_EQ(r[t].exit_code, plans[t].exitCode, "exit code");
    }
    c.nontrivial();
}

CASE(no_such_command, 1)
{
    std::string cmd = "/nonexistent/" + s.str("abc", 1, 8);
    c << cmd;
    Capture cap;
    REQ_THROWS(std::exception, execute(cmd, s.pick({"", "p"})), "a command that does not exist");
    c.nontrivial();
}
