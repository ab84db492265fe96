// C28: command line options arrive as the properties they spell
#include "harness.h"
#include "propcmp.h"
#include <boost/program_options.hpp>
#include <fairmq/Device.h>
#include <fairmq/JSONParser.h>
#include <fairmq/PluginServices.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/SuboptParser.h>
#include <fairmq/plugins/config/Config.h>

using namespace fair::mq;
namespace po = boost::program_options;

namespace {

enum class K { flag, str, boolean, i32, u16, u64, f32, strs, ints, f64 };
enum class D { none, def, impl };   // no default, a default, no default but a value is optional

struct Opt
{
    std::string name;
    K kind;
    D def = D::none;
    std::string defText;   // as printed
    char shortName = 0;
    std::string description;
    bool composing = false;
};

// the documented options of every device and those of the config plugin (docs and help text)
std::vector<Opt> General()
{
    return {{"help", K::flag, D::none, "", 'h', "Print help"},
            {"version", K::flag, D::none, "", 'v', "Print version"},
            {"severity", K::str, D::def, ""},
            {"file-severity", K::str, D::def, "debug"},
            {"verbosity", K::str, D::def, "medium"},
            {"color", K::boolean, D::def, "true"},
            {"log-to-file", K::str, D::def, ""},
            {"print-options", K::boolean, D::impl, ""}};
}
std::vector<Opt> ConfigPlugin()
{
    return {{"id", K::str, D::def, ""},
            {"io-threads", K::i32, D::def, "1"},
            {"transport", K::str, D::def, "zeromq"},
            {"network-interface", K::str, D::def, "default"},
            {"init-timeout", K::i32, D::def, "120"},
            {"print-channels", K::boolean, D::impl, ""},
            {"shm-segment-size", K::u64, D::def, "2147483648"},
            {"shm-allocation", K::str, D::def, "rbtree_best_fit"},
            {"shm-segment-id", K::u16, D::def, "0"},
            {"shmid", K::u64, D::none, ""},
            {"shm-mlock-segment", K::boolean, D::def, "false"},
            {"shm-mlock-segment-on-creation", K::boolean, D::def, "false"},
            {"shm-zero-segment", K::boolean, D::def, "false"},
            {"shm-zero-segment-on-creation", K::boolean, D::def, "false"},
            {"shm-throw-bad-alloc", K::boolean, D::def, "true"},
            {"shm-metadata-msg-size", K::u64, D::def, "0"},
            {"bad-alloc-max-attempts", K::i32, D::none, ""},
            {"bad-alloc-attempt-interval", K::i32, D::def, "50"},
            {"shm-monitor", K::boolean, D::def, "false"},
            {"shm-no-cleanup", K::boolean, D::def, "false"},
            {"rate", K::f32, D::def, "0"},
            {"session", K::str, D::def, "default"},
            {"config-key", K::str, D::none, ""},
            {"mq-config", K::str, D::none, ""},
            {"channel-config", K::strs, D::none, "", 0, "", true}};
}

const char* TypeLabel(K k)
{
    switch (k) {
        case K::flag: case K::str: return "string";
        case K::boolean: return "bool";
        case K::i32: return "int";
        case K::u16: return "unsigned short";
        case K::u64: return "unsigned long";
        case K::f32: return "float";
        case K::f64: return "double";
        case K::strs: return "vector<string>";
        default: return "vector<int>";
    }
}
void AddOption(po::options_description& d, const Opt& o, pbt::Src&)
{
    const std::string n = o.shortName ? o.name + "," + std::string(1, o.shortName) : o.name;
    auto put = [&](auto tag, auto conv) {
        using T = decltype(tag);
        auto* v = po::value<T>();
        if (o.def == D::def) { v->default_value(conv(o.defText), o.defText); }
        if (o.def == D::impl) {
            if constexpr (std::is_same_v<T, bool>) { v->implicit_value(true); }
        }
        d.add_options()(n.c_str(), v, o.description.c_str());
    };
    switch (o.kind) {
        case K::flag: d.add_options()(n.c_str(), o.description.c_str()); break;
        case K::str: put(std::string(), [](const std::string& t) { return t; }); break;
        case K::boolean: put(bool(), [](const std::string& t) { return t == "true"; }); break;
        case K::i32: put(int(), [](const std::string& t) { return std::stoi(t); }); break;
        case K::u16: put(uint16_t(), [](const std::string& t) { return static_cast<uint16_t>(std::stoi(t)); }); break;
        case K::u64: put(uint64_t(), [](const std::string& t) { return static_cast<uint64_t>(std::stoull(t)); }); break;
        case K::f32: put(float(), [](const std::string& t) { return std::stof(t); }); break;
        case K::f64: put(double(), [](const std::string& t) { return std::stod(t); }); break;
        case K::strs: d.add_options()(n.c_str(), po::value<std::vector<std::string>>()->multitoken()->composing(), o.description.c_str()); break;
        case K::ints: d.add_options()(n.c_str(), po::value<std::vector<int>>()->multitoken(), o.description.c_str()); break;
    }
}

std::string Text(pbt::Src& s)
{
    switch (s.draw(3)) {
        case 0: return s.pick({"a", "name1", "/tmp/x.json", "tcp://*:5555", "with space", "k=v", "x,y=z", "true", "0", "a-b", "--not", "-5", "=", "'q'", "\"", "\xc3\xa9"});
        case 1: return s.str("abcXYZ019 ,;=\"\\/._-\t", 1, 20);
        default: return s.str("abc", 1, 5);
    }
}
// the spelling of a value and its printed form
void GenValue(pbt::Src& s, K k, std::string& spell, std::string& printed)
{
    char b[64];
    switch (k) {
        case K::str: spell = printed = Text(s); break;
        case K::boolean: {
            bool v = s.flip();
            spell = v ? s.pick({"true", "1", "yes", "on", "TRUE", "Yes", "On"}) : s.pick({"false", "0", "no", "off", "False", "NO"});
            printed = v ? "true" : "false";
            break;
        }
        case K::i32: { int v = static_cast<int>(s.edgy(INT32_MIN, INT32_MAX)); printed = std::to_string(v); spell = (v >= 0 && s.chance(10) ? "+" : "") + printed; if (v >= 0 && spell[0] != '+' && s.chance(10)) { spell = "0" + spell; } break; }
        case K::u16: spell = printed = std::to_string(s.edgy(0, 65535)); break;
        case K::u64: spell = printed = std::to_string(s.chance(50) ? s.u64() : s.draw(1000)); break;
        case K::f32: { float v = static_cast<float>(s.range(-1000000, 1000000)) / static_cast<float>(1 << s.draw(12)); snprintf(b, sizeof b, s.flip() ? "%.9g" : "%.9e", v); spell = b; snprintf(b, sizeof b, "%g", v); printed = b; break; }
        case K::f64: { double v = static_cast<double>(s.range(-1000000, 1000000)) / static_cast<double>(1 << s.draw(12)); snprintf(b, sizeof b, s.flip() ? "%.17g" : "%.17e", v); spell = b; snprintf(b, sizeof b, "%g", v); printed = b; break; }
        case K::ints: spell = printed = std::to_string(s.edgy(0, INT32_MAX)); break;
        default: spell = printed = Text(s); break;
    }
}
bool BadValue(pbt::Src& s, K k, std::string& spell)
{
    switch (k) {
        case K::boolean: spell = s.pick({"maybe", "2", "tru", "yess", "-1", "truefalse"}); return true;
        case K::i32: case K::ints: spell = s.pick({"x", "2147483648", "-2147483649", "1.5", "1e3", "12a", "0x10", "1 ", "99999999999999999999"}); return true;
        case K::u16: spell = s.pick({"65536", "x", "1.0", "100000", "7b"}); return true;
        case K::u64: spell = s.pick({"18446744073709551616", "x", "1.0", "7b", "1,000"}); return true;
        case K::f32: case K::f64: spell = s.pick({"x", "1.5.2", "1e", "12a", "1,5", "--"}); return true;
        default: return false;
    }
}
// the value read back with its exact type
std::string ReadTyped(const ProgOptions& p, const std::string& key, K k)
{
    char b[64];
    switch (k) {
        case K::str: return p.GetProperty<std::string>(key);
        case K::boolean: return p.GetProperty<bool>(key) ? "true" : "false";
        case K::i32: return std::to_string(p.GetProperty<int>(key));
        case K::u16: return std::to_string(p.GetProperty<uint16_t>(key));
        case K::u64: return std::to_string(p.GetProperty<uint64_t>(key));
        case K::f32: snprintf(b, sizeof b, "%g", p.GetProperty<float>(key)); return b;
        case K::f64: snprintf(b, sizeof b, "%g", p.GetProperty<double>(key)); return b;
        case K::strs: { std::string r; auto v = p.GetProperty<std::vector<std::string>>(key); for (size_t i = 0; i < v.size(); ++i) { r += (i ? ", " : "") + v[i]; } return r; }
        case K::ints: { std::string r; auto v = p.GetProperty<std::vector<int>>(key); for (size_t i = 0; i < v.size(); ++i) { r += (i ? ", " : "") + std::to_string(v[i]); } return r; }
        default: return "";
    }
}

struct Line
{
    std::vector<std::string> args{"prog"};
    std::map<std::string, std::string> given;   // printed form
    std::vector<std::string> unknown;
    bool bad = false;
    bool viaC = false;
};

bool TokenOk(const std::string& v) { return !v.empty() && v[0] != '-'; }

Line GenLine(pbt::Src& s, const std::vector<Opt>& opts, bool damage)
{
    Line l;
    std::vector<std::vector<std::string>> groups;
    std::set<std::string> used;
    size_t n = s.size(s.chance(10) ? 25 : 6);
    for (size_t i = 0; i < n; ++i) {
        if (s.chance(10)) {   // not an option of ours
            std::string u = s.pick({"--unknown", "--severitx", "--sever", "--shm-segment-siz", "--Help", "--idd", "--col", "--verbositys"});
            std::string full = s.flip() ? u + "=" + s.str("abc1", 1, 4) : u;
            l.unknown.push_back(full);
            groups.push_back({full});
            continue;
        }
        const Opt& o = opts[s.draw(opts.size())];
        if (!used.insert(o.name).second) { continue; }
        std::string spell, printed;
        if (o.kind == K::flag) {
            groups.push_back({o.shortName && s.flip() ? "-" + std::string(1, o.shortName) : "--" + o.name});
            l.given[o.name] = "";
            continue;
        }
        if (o.kind == K::strs || o.kind == K::ints) {
            size_t times = o.composing ? 1 + s.draw(3) : 1;
            std::string all;
            // the order of separate mentions counts: they stay in one group, possibly with another option between them
            std::vector<std::string> g;
            bool first = true;
            for (size_t t = 0; t < times; ++t) {
                size_t m = 1 + s.draw(3);
                for (size_t j = 0; j < m; ++j) {
                    do { GenValue(s, o.kind, spell, printed); } while (!TokenOk(spell));
                    if (j == 0) {
                        if (s.flip()) { g.push_back("--" + o.name + "=" + spell); } else { g.push_back("--" + o.name); g.push_back(spell); }
                    } else {
                        g.push_back(spell);
                    }
                    all += (first ? "" : ", ") + printed;
                    first = false;
                }
            }
            groups.push_back(g);
            l.given[o.name] = all;
            continue;
        }
        if (o.def == D::impl && s.flip()) {
            groups.push_back({"--" + o.name});
            l.given[o.name] = "true";
            continue;
        }
        GenValue(s, o.kind, spell, printed);
        if (o.def != D::impl && TokenOk(spell) && s.flip()) {
            groups.push_back({"--" + o.name, spell});
        } else {
            groups.push_back({"--" + o.name + "=" + spell});
        }
        l.given[o.name] = printed;
    }
    if (damage) {
        l.bad = true;
        const Opt& o = opts[s.draw(opts.size())];
        std::string spell, printed;
        switch (s.draw(4)) {
            case 0:   // a malformed value
                if (BadValue(s, o.kind, spell)) { groups.push_back({"--" + o.name + "=" + spell}); } else { l.bad = false; }
                break;
            case 1:   // given twice
                if (o.kind != K::flag && !o.composing) { GenValue(s, o.kind, spell, printed); groups.push_back({"--" + o.name + "=" + spell}); groups.push_back({"--" + o.name + "=" + spell}); } else { l.bad = false; }
                break;
            case 2:   // no value (last on the line)
                if (o.kind != K::flag && o.def != D::impl) {
                    for (size_t i = groups.size(); i > 1; --i) { std::swap(groups[i - 1], groups[s.draw(i)]); }
                    groups.push_back({"--" + o.name});
                } else { l.bad = false; }
                break;
            default:
                if (o.kind == K::flag) { groups.push_back({"--" + o.name + "=x"}); } else { groups.push_back({"--" + o.name + "="}); }
                break;
        }
        if (!l.bad) { throw pbt::Discard{}; }
    } else {
        for (size_t i = groups.size(); i > 1; --i) { std::swap(groups[i - 1], groups[s.draw(i)]); }
    }
    for (auto& g : groups) { for (auto& a : g) { l.args.push_back(a); } }
    return l;
}
void Parse(pbt::Src& s, ProgOptions& p, const Line& l, bool allow)
{
    if (s.flip()) {
        p.ParseAll(l.args, allow);
    } else {
        std::vector<const char*> argv;
        for (auto& a : l.args) { argv.push_back(a.c_str()); }
        argv.push_back(nullptr);
        if (allow && s.flip()) { p.ParseAll(static_cast<int>(l.args.size()), argv.data()); } else { p.ParseAll(static_cast<int>(l.args.size()), argv.data(), allow); }
    }
}
struct CoutTo
{
    std::ostringstream o;
    std::streambuf* old;
    CoutTo() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~CoutTo() { std::cout.rdbuf(old); }
};

void CheckLine(pbt::Src& s, ProgOptions& p, const std::vector<Opt>& opts, const Line& l, size_t extraKeys)
{
    size_t count = 0;
    for (auto& o : opts) {
        auto g = l.given.find(o.name);
        bool present = g != l.given.end() || o.def == D::def;
        REQ_EQ(p.Count(o.name), present ? 1 : 0, "Count(" << o.name << ")");
        if (!present) { continue; }
        ++count;
        if (o.kind == K::flag) { continue; }
        std::string want = g != l.given.end() ? g->second : o.defText;
        REQ_EQ(ReadTyped(p, o.name, o.kind), want, "GetProperty(" << o.name << ")");
        REQ_EQ(p.GetPropertyAsString(o.name), want, "GetPropertyAsString(" << o.name << ")");
    }
    auto all = p.GetPropertiesStartingWith("");
    REQ_EQ(all.size(), count + extraKeys, "number of properties");

    // the machine-readable list
    if (s.chance(30)) {
        CoutTo out;
        p.PrintOptionsRaw();
        std::string want;
        for (auto& o : opts) {
            auto g = l.given.find(o.name);
            bool present = g != l.given.end() || o.def == D::def;
            if (o.kind == K::flag && present) { return; }
            want += o.name + ":" + (!present ? "" : g != l.given.end() ? g->second : o.defText) + ":" + (present ? TypeLabel(o.kind) : "<unknown>") + ":";
            if (o.description.empty()) {
                // our own copy of the table has no texts: skip to the end of the line in the output
                if (out.o.str().compare(0, want.size(), want) != 0) { break; }
                size_t e = out.o.str().find('\n', want.size());
                if (e == std::string::npos) { break; }
                want = out.o.str().substr(0, e + 1);
            } else {
                std::string d = o.description;
                std::replace(d.begin(), d.end(), '\n', ' ');
                want += d + "\n";
            }
        }
        REQ(out.o.str() == want, "PrintOptionsRaw printed\n" << out.o.str() << "instead of\n" << want);
    }
    if (s.chance(15)) {
        CoutTo out;
        p.PrintHelp();
        for (auto& o : opts) { REQ(out.o.str().find("--" + o.name) != std::string::npos, "the help lacks --" << o.name); }
    }
    if (s.chance(20)) {   // the human-readable list
        std::string text;
        fair::Logger::Sink() = [&](fair::Severity, const std::string& t) { text += t + "\n"; };
        int old = fair::Logger::Level().exchange(1);
        p.PrintOptions();
        fair::Logger::Level() = old;
        fair::Logger::Sink() = nullptr;
        for (auto& o : opts) {
            auto g = l.given.find(o.name);
            bool present = g != l.given.end() || o.def == D::def;
            if (!present || o.kind == K::flag) { continue; }
            size_t at = text.find("\n" + o.name + " ");
            REQ(at != std::string::npos, "the list of options lacks " << o.name);
            std::string rest = text.substr(at + 1 + o.name.size());
            rest = rest.substr(rest.find_first_not_of(' '));
            std::string val = g != l.given.end() ? g->second : o.defText;
            REQ(rest.compare(0, 2 + val.size(), "= " + val) == 0, "the list of options shows " << o.name << " as " << rest.substr(0, 60));
            rest = rest.substr(2 + val.size());
            rest = rest.substr(rest.find_first_not_of(' '));
            std::string label = std::string("<") + TypeLabel(o.kind) + ">";
            REQ(rest.compare(0, label.size(), label) == 0, "the list of options shows the type of " << o.name << " as " << rest.substr(0, 40));
            rest = rest.substr(label.size());
            rest = rest.substr(rest.find_first_not_of(' '));
            std::string org = g != l.given.end() ? "[provided]" : "[default]";
            REQ(rest.compare(0, org.size(), org) == 0, "the list of options shows the origin of " << o.name << " as " << rest.substr(0, 20));
        }
        for (auto& u : l.unknown) {
            std::string name = u;
            REQ(text.find("unregistered option: " + name) != std::string::npos, "the unregistered option " << name << " is not mentioned: " << text);
        }
    }
}
std::string Join(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& x : v) { r += "[" + x + "]"; }
    return r;
}
}   // namespace

CASE(lines, 4)
{
    ProgOptions p;
    std::vector<Opt> opts = General();
    // before anything is parsed the defaults are there
    if (s.chance(20)) { CheckLine(s, p, opts, Line(), 0); }
    size_t adds = 0;
    if (s.chance(70)) {
        p.AddToCmdLineOptions(plugins::ConfigPluginProgramOptions().value());
        auto more = ConfigPlugin();
        opts.insert(opts.end(), more.begin(), more.end());
        ++adds;
    }
    if (s.chance(70)) {   // options added by the device or other plugins
        po::options_description d("custom");
        size_t n = 1 + s.draw(6);
        for (size_t i = 0; i < n; ++i) {
            Opt o;
            o.name = "opt" + std::to_string(i) + s.pick({"", "-x", "_y", ".z"});
            o.kind = s.pick({K::str, K::boolean, K::i32, K::u16, K::u64, K::f32, K::f64, K::strs, K::ints, K::flag});
            o.description = s.pick({"text", "a: b", "two\nlines", "<x>"});
            o.composing = o.kind == K::strs;
            if (o.kind == K::boolean && s.chance(30)) {
                o.def = D::impl;
            } else if (o.kind != K::flag && o.kind != K::strs && o.kind != K::ints && s.flip()) {
                std::string spell;
                o.def = D::def;
                GenValue(s, o.kind, spell, o.defText);
                if (o.kind == K::f32 || o.kind == K::f64) { o.defText = "2.5"; }
            }
            AddOption(d, o, s);
            opts.push_back(o);
        }
        if (s.flip()) { p.AddToCmdLineOptions(d); } else { p.GetCmdLineOptions().add(d); }
        ++adds;
    }
    size_t rounds = 1 + s.draw(3);
    for (size_t r = 0; r < rounds; ++r) {
        Line l = GenLine(s, opts, false);
        bool allow = l.unknown.empty() ? s.flip() : s.chance(70);
        c << (allow ? "allow " : "strict ") << Join(l.args) << "  ";
        c.nontrivial(l.args.size() > 1);
        c.label("unknown options", !l.unknown.empty());
        c.label("line over 8 arguments", l.args.size() > 8);
        if (!l.unknown.empty() && !allow) {
            bool threw = false;
            try { Parse(s, p, l, allow); } catch (const std::exception&) { threw = true; }
            REQ(threw, "an unknown option was accepted: " << Join(l.args));
            continue;
        }
        Parse(s, p, l, allow);
        size_t extra = 0;
        if (s.flip()) { p.Notify(); }
        CheckLine(s, p, opts, l, extra);
        // what is set between two lines does not survive the second
        if (s.chance(30)) { p.SetProperty<int>("set.between", 5); p.SetProperty<std::string>("severity", "fatal"); REQ_EQ(p.GetProperty<std::string>("severity"), "fatal", "severity"); }
    }
}

CASE(damaged, 2)
{
    ProgOptions p;
    std::vector<Opt> opts = General();
    p.AddToCmdLineOptions(plugins::ConfigPluginProgramOptions().value());
    auto more = ConfigPlugin();
    opts.insert(opts.end(), more.begin(), more.end());
    Line l = GenLine(s, opts, true);
    bool allow = s.flip();
    c << (allow ? "allow " : "strict ") << Join(l.args);
    c.nontrivial();
    bool threw = false;
    try { Parse(s, p, l, allow); } catch (const std::exception& e) { threw = true; REQ(*e.what() != 0, "an error without a text"); }
    REQ(threw, "the malformed line was accepted: " << Join(l.args));
    // and a good line works afterwards
    Line g = GenLine(s, opts, false);
    Parse(s, p, g, true);
    CheckLine(s, p, opts, g, 0);
}

// the channels described on the command line or in a file arrive when the device initializes
CASE(channels, 1)
{
    std::vector<std::string> args{"prog"};
    std::string id = s.pick({"sampler", "sink1", "x", ""}), key = s.pick({"sampler", "other", "sink1"});
    bool giveId = s.chance(85), giveKey = s.chance(40);
    if (id.empty()) { giveId = false; }
    if (giveId) { args.push_back("--id=" + id); }
    if (giveKey) { args.push_back("--config-key=" + key); }
    std::string forWhom = giveKey ? key : giveId ? id : "";
    const std::vector<std::string> devs{"sampler", "sink1", "x", "other"};
    std::map<std::string, Properties> json;
    Properties subopt;
    int source = static_cast<int>(s.draw(4));   // 0 none, 1 file, 2 text, 3 both (the file counts)
    bool brokenFile = s.chance(8), missingFile = !brokenFile && s.chance(5);
    std::string path = pbt::Scratch() + "/cfg" + std::to_string(pbt::WorkerId()) + ".json";
    unlink(path.c_str());
    if (source & 1) {
        std::string doc = "{\"fairMQOptions\":{\"devices\":[";
        bool first = true;
        for (auto& d : devs) {
            if (s.chance(25)) { continue; }
            size_t n = 1 + s.draw(3);
            doc += std::string(first ? "" : ",") + "{\"id\":\"" + d + "\",\"channels\":[";
            first = false;
            for (size_t i = 0; i < n; ++i) {
                std::string name = d + "-ch" + std::to_string(i), adr = "tcp://localhost:" + std::to_string(1 + s.draw(60000));
                doc += std::string(i ? "," : "") + "{\"name\":\"" + name + "\",\"sockets\":[{\"type\":\"push\",\"method\":\"bind\",\"address\":\"" + adr + "\"}]}";
                ChanSpec sp;
                sp.str["type"] = "push"; sp.str["method"] = "bind";
                Expect(json[d], name, 0, sp, nullptr);
                json[d]["chans." + name + ".0.address"] = Property(adr);
            }
            doc += "]}";
        }
        doc += "]}}";
        if (brokenFile) { doc.resize(doc.size() - 1 - s.draw(5)); }
        if (!missingFile) { std::ofstream(path) << doc; }
        args.push_back("--mq-config=" + path);
    }
    if (source & 2) {
        size_t n = 1 + s.draw(3);
        args.push_back("--channel-config");
        for (size_t i = 0; i < n; ++i) {
            std::string name = "sub" + std::to_string(i), adr = "tcp://localhost:" + std::to_string(1 + s.draw(60000));
            args.push_back("name=" + name + ",type=pull,method=connect,address=" + adr);
            ChanSpec sp;
            sp.str["type"] = "pull"; sp.str["method"] = "connect";
            Expect(subopt, name, 0, sp, nullptr);
            subopt["chans." + name + ".0.address"] = Property(adr);
        }
    }
    c << Join(args);
    Properties want;
    if (!forWhom.empty()) {
        if (source & 1) { if (!brokenFile && !missingFile && json.count(forWhom)) { want = json[forWhom]; } }
        else if (source & 2) { want = subopt; }
    }
    c.nontrivial(!want.empty());
    c.label("file", (source & 1) != 0);
    c.label("config key", giveKey);

    ProgOptions p;
    p.AddToCmdLineOptions(plugins::ConfigPluginProgramOptions().value());
    p.ParseAll(args, false);
    p.SetProperty<std::string>("transport", "none such");   // initialization ends here
    std::string got;
    {
        Device device;
        device.SetConfig(p);
        PluginServices ps(p, device);
        plugins::Config plugin("config", {1, 0, 0}, "", "", &ps);
        std::thread t([&] { try { device.RunStateMachine(); } catch (...) {} });
        auto before = p.GetPropertiesStartingWith("chans.");
        REQ_EQ(before.size(), 0u, "channel properties before the initialization");
        device.ChangeState(Transition::InitDevice);
        device.WaitForState(State::InitializingDevice);
        try { CompareProps(p.GetPropertiesStartingWith("chans."), want); } catch (const pbt::Failure& f) { got = f.msg; }
        device.ChangeState(Transition::ErrorFound);
        t.join();
    }
    REQ(got.empty(), got);
}
