// C36: plugins are found along the search paths, loaded once, in order, or the failure is reported.
#include "harness.h"
#include <algorithm>
#include <fairmq/Device.h>
#include <fairmq/PluginManager.h>
#include <fairmq/ProgOptions.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>
using namespace fair::mq;
using std::string;
using std::vector;
namespace sfs = std::filesystem;

namespace {
struct Note { string name, path; };
std::map<const void*, Note> gAlive;
std::map<string, int> gMade;   // constructed, by name
string gPool, gSys;

constexpr int kDirs = 14;
const vector<string> kNames{"alpha", "beta", "gamma", "delta", "config", "sysnew", "throwing", "noopts", "nomake"};
enum class What { absent, good, garbage, directory, empty };
// what lies in a directory: fixed by its number
What Content(int dir, const string& name, bool alt)
{
    uint64_t h = std::hash<string>{}(name) * 31 + static_cast<uint64_t>(dir) * 2 + (alt ? 1 : 0);
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ULL;
    h ^= h >> 32;
    const int r = static_cast<int>(h % 100);
    return r < 55 ? What::absent : r < 88 ? What::good : r < 93 ? What::garbage : r < 97 ? What::directory : What::empty;
}
string File(const string& name, bool alt) { return "lib" + string(alt ? "FairMQPlugin_" : "fairmq-plugin-") + name + ".so"; }
string Dir(int i) { return gPool + "/d" + std::to_string(i); }

// The dynamic linker remembers for the life of a process which directories of its search path did not exist
// when the process was started. So start again once the directory is there.
__attribute__((constructor)) void MakeSys(int, char** argv, char**)
{
    const string sys = sfs::read_symlink("/proc/self/exe").parent_path().parent_path().string() + "/c36sys";
    if (!sfs::exists(sys)) {
        sfs::create_directories(sys);
        execv("/proc/self/exe", argv);
    }
}

pbt::RegisterWorkerInit gInit{[] {
    const char* so = getenv("VERIF_SO");
    if (!so) {
        fprintf(stderr, "VERIF_SO is not set\n");
        _exit(3);
    }
    gPool = pbt::Scratch() + "/pool" + std::to_string(pbt::WorkerId()) + "_" + std::to_string(getpid());
    for (int d = 0; d < kDirs; ++d) {
        sfs::create_directories(Dir(d));
        for (auto& n : kNames) {
            for (bool alt : {false, true}) {
                const string f = Dir(d) + "/" + File(n, alt);
                switch (Content(d, n, alt)) {
                    case What::absent: break;
                    case What::good: sfs::copy_file(so, f); break;
                    case What::garbage: std::ofstream(f) << "this is no library\n"; break;
                    case What::directory: sfs::create_directory(f); break;
                    case What::empty: std::ofstream{f}; break;
                }
            }
        }
    }
    std::ofstream(gPool + "/file") << "x";
    // the place the dynamic linker looks at: next to the program
    gSys = sfs::read_symlink("/proc/self/exe").parent_path().parent_path().string() + "/c36sys";
    sfs::create_directories(gSys);
    const int lock = open((gSys + "/lock").c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
    flock(lock, LOCK_EX);
    auto content = [](const string& f) {
        std::ifstream in(f, std::ios::binary);
        std::ostringstream o;
        o << in.rdbuf();
        return o.str();
    };
    for (auto& [n, alt] : {std::pair<string, bool>{"sysnew", false}, {"sysold", true}}) {
        if (content(so) == content(gSys + "/" + File(n, alt))) { continue; }
        const string tmp = gSys + "/tmp" + std::to_string(getpid());
        sfs::copy_file(so, tmp, sfs::copy_options::overwrite_existing);
        sfs::rename(tmp, gSys + "/" + File(n, alt));
    }
    close(lock);
}};

struct Pre : Plugin
{
    Pre(const string& name, Version v, const string& m, const string& h, PluginServices* s)
        : Plugin(name, v, m, h, s)
    {
        gAlive[this] = {name, "program"};
        ++gMade[name];
    }
    ~Pre() override { gAlive.erase(this); }
};
struct PreThrow : Plugin
{
    PreThrow(const string& name, Version v, const string& m, const string& h, PluginServices* s)
        : Plugin(name, v, m, h, s)
    { throw std::runtime_error("no"); }
};
auto PreOptions() -> Plugin::ProgOptions
{
    boost::program_options::options_description o("pre_one@program");
    o.add_options()("pre-opt", boost::program_options::value<int>(), "an option");
    return o;
}
}   // namespace
extern "C" __attribute__((visibility("default"))) void verif_note(int alive, const void* who, const char* name, const char* path)
{
    if (alive) {
        gAlive[who] = {name, path};
        ++gMade[name];
    } else {
        gAlive.erase(who);
    }
}
REGISTER_FAIRMQ_PLUGIN(Pre, pre_one, (Plugin::Version{2, 0, 0}), "m", "h", PreOptions)
REGISTER_FAIRMQ_PLUGIN(Pre, pre_two, (Plugin::Version{2, 0, 1}), "m", "h", Plugin::NoProgramOptions)
REGISTER_FAIRMQ_PLUGIN(PreThrow, pre_throws, (Plugin::Version{2, 0, 2}), "m", "h", Plugin::NoProgramOptions)
static auto Make_pre_noopts_Plugin(PluginServices* s) -> std::unique_ptr<Plugin> { return std::make_unique<Pre>("pre_noopts", Plugin::Version{2, 0, 3}, "m", "h", s); }
BOOST_DLL_ALIAS(Make_pre_noopts_Plugin, make_pre_noopts_plugin)

namespace {
struct Loaded { string name, path; };   // path: a file, "program" or "builtin"
struct Model
{
    vector<fs::path> paths;
    vector<Loaded> order;
    size_t instantiated = 0;   // of order, from the front
    bool Known(const string& n) const { return std::any_of(order.begin(), order.end(), [&](auto& l) { return l.name == n; }); }
    static bool Exists(const fs::path& f) { return sfs::exists(sfs::path(f.string())); }
    // the first file of that name along the paths, by looking at the directories ourselves
    string Find(const string& n) const
    {
        for (auto& p : paths) {
            for (bool alt : {false, true}) {
                const string f = (p / File(n, alt)).string();
                if (access(f.c_str(), F_OK) == 0) { return f; }
            }
        }
        return "";
    }
    static bool Good(const string& file, const string& n)
    {
        std::ifstream in(file, std::ios::binary);
        char magic[4] = {};
        in.read(magic, 4);
        if (!in || magic[0] != 0x7f) { return false; }
        return n != "noopts" && n != "nomake" && std::find(kNames.begin(), kNames.end(), n) != kNames.end();
    }
    // where it would be loaded from; "" if it cannot
    string Source(const string& arg, string& name) const
    {
        const string form = arg.substr(0, 2);
        name = form == "p:" || form == "d:" || form == "s:" ? arg.substr(2) : arg;
        if (form == "s:" && (name == "control" || name == "config")) { return "builtin"; }
        if (form == "s:" || form == "p:") { return name == "pre_one" || name == "pre_two" || name == "pre_throws" ? "program" : ""; }
        const string f = Find(name);
        if (!f.empty() && Good(f, name)) { return f; }
        if (name == "sysnew" || name == "sysold") { return gSys + "/" + File(name, name == "sysold"); }
        return "";
    }
};
bool Throws(const Loaded& l) { return l.name == "throwing" || l.name == "pre_throws"; }
string Same(const string& a)
{
    std::error_code e;
    auto p = sfs::weakly_canonical(a, e);
    return e ? a : p.string();
}
vector<string> Strings(const vector<fs::path>& v)
{
    vector<string> o;
    for (auto& p : v) { o.push_back(p.string()); }
    return o;
}
string Join(const vector<string>& v)
{
    string o;
    for (auto& s : v) { o += s + " "; }
    return o;
}
fs::path DrawPath(pbt::Src& s, bool& bad)
{
    const size_t k = s.weighted({80, 7, 4, 3, 6});
    bad = k == 2 || k == 3;
    switch (k) {
        case 1: return gPool + "/nowhere" + std::to_string(s.draw(2));
        case 2: return gPool + "/file";
        case 3: return "";
        case 4: return Dir(static_cast<int>(s.draw(kDirs))) + "/../d" + std::to_string(s.draw(kDirs));
        default: return Dir(static_cast<int>(s.draw(kDirs)));
    }
}
string DrawName(pbt::Src& s)
{
    switch (s.weighted({60, 8, 14, 10, 8})) {
        case 0: return s.pick({"", "", "d:"}) + string(s.pick({"alpha", "beta", "gamma", "delta", "config", "sysnew", "sysold"}));
        case 1: return s.pick({"", "d:"}) + string(s.pick({"throwing", "noopts", "nomake"}));
        case 2: return s.pick({"p:", "p:", "s:"}) + string(s.pick({"pre_one", "pre_two", "pre_throws", "pre_noopts", "pre_nothing"}));
        case 3: return "s:" + string(s.pick({"control", "config"}));
        default: return s.pick({"", "d:", "p:", "s:", "x:alpha", "nothing", "d:nothing", "p:nothing", "s:nothing", "p:d:alpha", "alpha ", "Alpha", "pre_one", "d:pre_two"});
    }
}

struct Subject
{
    Model m;
    std::unique_ptr<ProgOptions> cfg;
    std::unique_ptr<Device> dev;
    std::unique_ptr<PluginManager> mgr;
    bool services = false;
    std::map<string, const Plugin*> seen;
    // loads and compares; returns true if it went well
    bool Load(const string& arg, const std::function<void()>& load)
    {
        string name;
        const string from = m.Source(arg, name);
        if (m.Known(name)) {
            load();
            return true;
        }
        if (from.empty()) {
            REQ_THROWS(PluginManager::PluginLoadError, load(), "loading " << arg << " which cannot be loaded");
            return false;
        }
        try {
            load();
        } catch (const std::exception& e) {
            REQ(false, "loading " << arg << " from " << from << " failed: " << e.what());
        }
        m.order.push_back({name, from});
        return true;
    }
    void Check()
    {
        REQ(Strings(mgr->SearchPaths()) == Strings(m.paths), "search paths are " << Join(Strings(mgr->SearchPaths())) << ", expected " << Join(Strings(m.paths)));
        // options: of each plugin loaded that has some, from where it was loaded
        std::multiset<string> want, got;
        for (auto& l : m.order) {
            if (l.path == "builtin") { want.insert("builtin " + l.name); }
            else if (l.name == "alpha" || l.name == "gamma" || l.name == "config") { want.insert(l.name + "@" + Same(l.path)); }
            else if (l.name == "pre_one") { want.insert("pre_one@program"); }
        }
        mgr->ForEachPluginProgOptions([&](const boost::program_options::options_description& d) {
            std::ostringstream o;
            o << d;
            const string t = o.str(), first = t.substr(0, t.find(":\n"));
            const size_t at = first.find('@');
            if (at == string::npos) { got.insert(string("builtin ") + (t.find("--catch-signals") != string::npos ? "control" : t.find("--severity") != string::npos || t.find("--id") != string::npos ? "config" : first)); }
            else { got.insert(first.substr(0, at + 1) + (first.substr(at + 1) == "program" ? "program" : Same(first.substr(at + 1)))); }
        });
        auto show = [](const std::multiset<string>& v) { string o; for (auto& x : v) { o += x + "; "; } return o; };
        REQ(want == got, "program options of " << show(got) << " expected of " << show(want));
    }
    void CheckInstances()
    {
        if (m.instantiated != m.order.size()) { return; }   // it may be asked about only once all are there
        size_t i = 0;
        mgr->ForEachPlugin([&](Plugin& p) {
            REQ(i < m.order.size(), "more plugins than were loaded: " << p.GetName());
            const auto& l = m.order[i++];
            REQ_EQ(p.GetName(), l.name, "plugin number " << i);
            auto a = gAlive.find(&p);
            if (l.path == "builtin") {
                REQ(a == gAlive.end(), "another " << l.name << " than the builtin one was made");
            } else {
                REQ(a != gAlive.end(), l.name << " is not from " << l.path);
                REQ_EQ(Same(a->second.path), Same(l.path), "file of plugin " << l.name);
            }
            auto old = seen.find(l.name);
            if (old != seen.end()) { REQ(old->second == &p, "plugin " << l.name << " was replaced"); }
            seen[l.name] = &p;
        });
        REQ_EQ(i, m.order.size(), "plugins");
    }
    void Instantiate()
    {
        // up to the first that throws
        size_t end = m.instantiated;
        while (end < m.order.size() && !Throws(m.order[end])) { ++end; }
        if (end < m.order.size()) {
            REQ_THROWS(PluginManager::PluginInstantiationError, mgr->InstantiatePlugins(), "instantiating " << m.order[end].name);
        } else {
            try {
                mgr->InstantiatePlugins();
            } catch (const std::exception& e) {
                REQ(false, "instantiation failed: " << e.what());
            }
        }
        m.instantiated = end;
        for (size_t i = 0; i < m.order.size(); ++i) {
            if (m.order[i].path == "builtin") { continue; }
            REQ_EQ(gMade[m.order[i].name], i < end ? 1 : 0, "instances made of " << m.order[i].name);
        }
        CheckInstances();
    }
    ~Subject()
    {
        mgr.reset();
        dev.reset();
    }
};
}   // namespace

CASE(history, 4)
{
    gMade.clear();
    gAlive.clear();
    int failed = 0;
    {
        Subject u;
        u.mgr = std::make_unique<PluginManager>();
        const size_t n = 1 + s.size(14);
        for (size_t i = 0; i < n; ++i) {
            switch (s.weighted({8, 14, 14, 10, 42, 5, 8})) {
                case 0: {
                    vector<fs::path> v;
                    bool bad = false;
                    for (size_t k = s.draw(4); k > 0; --k) {
                        bool b;
                        v.push_back(DrawPath(s, b));
                        bad = bad || b;
                    }
                    c << " set(" << Join(Strings(v)) << ")";
                    if (bad) { REQ_THROWS(PluginManager::BadSearchPath, u.mgr->SetSearchPaths(v), "setting search paths"); }
                    else {
                        u.mgr->SetSearchPaths(v);
                        u.m.paths = v;
                    }
                    break;
                }
                case 1:
                case 2: {
                    bool bad;
                    const bool front = s.flip();
                    const auto p = DrawPath(s, bad);
                    c << (front ? " prepend(" : " append(") << p.string() << ")";
                    auto add = [&] { front ? u.mgr->PrependSearchPath(p) : u.mgr->AppendSearchPath(p); };
                    if (bad) { REQ_THROWS(PluginManager::BadSearchPath, add(), "adding search path " << p); }
                    else {
                        add();
                        u.m.paths.insert(front ? u.m.paths.begin() : u.m.paths.end(), p);
                    }
                    break;
                }
                case 3: {
                    const string name = s.pick({"alpha", "beta", "gamma", "delta", "noopts", "sysnew", "sysold", "nothing", "", "d:alpha"}), want = u.m.Find(name);
                    c << " find(" << name << ")";
                    if (want.empty()) { REQ_THROWS(PluginManager::PluginNotFound, (void)u.mgr->SearchPluginFile(name), "the file of " << name << " does not exist"); }
                    else { REQ_EQ(u.mgr->SearchPluginFile(name).string(), want, "file of " << name); }
                    break;
                }
                case 4: {
                    const string name = DrawName(s);
                    c << " load(" << name << ")";
                    failed += !u.Load(name, [&] { u.mgr->LoadPlugin(name); });
                    break;
                }
                case 5: {
                    vector<string> v;
                    for (size_t k = s.draw(4); k > 0; --k) { v.push_back(DrawName(s)); }
                    c << " load(" << Join(v) << ")";
                    // up to the first that fails
                    Model copy = u.m;
                    bool fails = false;
                    for (auto& a : v) {
                        string name;
                        const string from = copy.Source(a, name);
                        if (copy.Known(name)) { continue; }
                        if (from.empty()) {
                            fails = true;
                            break;
                        }
                        copy.order.push_back({name, from});
                    }
                    if (fails) {
                        REQ_THROWS(PluginManager::PluginLoadError, u.mgr->LoadPlugins(v), "loading a list with one that cannot be loaded");
                        ++failed;
                    } else {
                        u.mgr->LoadPlugins(v);
                    }
                    u.m = copy;
                    break;
                }
                default: {
                    c << " instantiate";
                    if (!u.services) {
                        u.cfg = std::make_unique<ProgOptions>();
                        u.cfg->SetProperty<string>("control", "none");
                        u.cfg->SetProperty<int>("catch-signals", 0);
                        u.dev = std::make_unique<Device>();
                        u.mgr->EmplacePluginServices(*u.cfg, *u.dev);
                        u.services = true;
                    }
                    u.Instantiate();
                    break;
                }
            }
            u.Check();
        }
        c.nontrivial(u.m.order.size() > 1 || (!u.m.order.empty() && failed > 0));
        c.label(u.m.instantiated > 0 ? "instantiated" : u.m.order.empty() ? "nothing loaded" : "loaded");
    }
    REQ(gAlive.empty(), "plugin " << gAlive.begin()->second.name << " outlives its manager");
}

// search paths and plugins given on a command line
CASE(arguments, 1)
{
    gMade.clear();
    gAlive.clear();
    vector<string> args, dirs, front, middle, back, plugins;
    bool bad = false;
    auto draw = [&] {
        const size_t form = s.draw(3);
        bool b;
        const string p = DrawPath(s, b).string();
        bad = bad || b;
        (form == 0 ? middle : form == 1 ? front : back).push_back(p);
        return string(form == 0 ? "" : form == 1 ? "<" : ">") + p;
    };
    const size_t groups = s.draw(4);
    for (size_t g = 0; g < groups; ++g) {
        if (s.chance(60)) {
            args.push_back(s.pick({"-S", "--plugin-search-path"}));
            for (size_t k = 1 + s.draw(3); k > 0; --k) {
                auto a = draw();
                if (a.empty()) { a = ">" + a, bad = true, middle.pop_back(), back.emplace_back(); }   // an empty token would end the list
                args.push_back(a);
            }
        } else {
            const string n = DrawName(s);
            if (n.empty()) { continue; }
            plugins.push_back(n);
            args.push_back(s.pick({"-P", "--plugin"}));
            args.push_back(n);
        }
        if (s.chance(20)) {
            args.push_back("--other");
            args.push_back("value");
        }
    }
    c << Join(args);
    Subject u;
    for (auto& p : front) { u.m.paths.insert(u.m.paths.begin(), p); }
    for (auto& p : middle) { u.m.paths.emplace_back(p); }
    for (auto& p : back) { u.m.paths.emplace_back(p); }
    if (bad) {
        REQ_THROWS(PluginManager::BadSearchPath, PluginManager{args}, "a search path that is none");
        c.label("bad path");
        return;
    }
    bool fails = false;
    for (auto& a : plugins) {
        string name;
        const string from = u.m.Source(a, name);
        if (u.m.Known(name)) { continue; }
        if (from.empty()) {
            fails = true;
            break;
        }
        u.m.order.push_back({name, from});
    }
    if (fails) {
        REQ_THROWS(PluginManager::PluginLoadError, PluginManager{args}, "a plugin that cannot be loaded");
        c.label("cannot load");
        c.nontrivial(true);
        return;
    }
    u.mgr = std::make_unique<PluginManager>(args);
    u.Check();
    c.label("loaded");
    c.nontrivial(!u.m.order.empty() || u.m.paths.size() > 1);
}
