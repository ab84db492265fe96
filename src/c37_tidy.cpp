// C37: generated programs with known uses of deprecated names; the tool must flag exactly these, with the right replacement
#include "harness.h"
#define main tidy_main
#include <fairmq/tidy/runTool.cpp>
#undef main

namespace {

const pbt::RegisterChild kChild{[](const std::vector<std::string>& a) {
    std::vector<std::string> args{"fairmq-tidy"};
    args.insert(args.end(), a.begin(), a.end());
    std::vector<const char*> argv;
    for (auto& x : args) { argv.push_back(x.c_str()); }
    argv.push_back(nullptr);
    return tidy_main(static_cast<int>(args.size()), argv.data());
}};

struct Use
{
    size_t line, col, endCol;   // of the name (or of the leading ::)
    size_t nameCol;             // of the name without the leading ::
    std::string name, target;
    bool macro;                 // only the line is judged
};

// the deprecated names of a program: alias and what it stands for
struct Alias
{
    std::string name, target;
    char kind;   // c class, p pointer-like alias, e enum, f function type alias, v empty class
};

struct Writer
{
    std::string text;
    size_t line = 1, col = 1;
    std::vector<Use> uses;
    void put(const std::string& t)
    {
        for (char ch : t) {
            if (ch == '\n') { ++line; col = 1; } else { ++col; }
        }
        text += t;
    }
    void use(const Alias& a, bool global)
    {
        Use u{line, col, 0, 0, a.name, a.target, false};
        put(global ? "::" : "");
        u.nameCol = col;
        put(a.name);
        u.endCol = col;
        uses.push_back(u);
    }
    void macro(const std::string& t, const Alias& a)
    {
        uses.push_back(Use{line, col, 0, 0, a.name, a.target, true});
        put(t);
    }
};

struct Found
{
    size_t line = 0, col = 0;
    std::string name, target;
    size_t fl = 0, fc = 0, tl = 0, tc = 0;
    std::string fix;
    bool hasFix = false;
};

bool StartsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

// the diagnostics of a run, from what it printed
std::vector<Found> Parse(const std::string& out, const std::string& file)
{
    std::vector<Found> r;
    std::istringstream is(out);
    std::string l;
    while (std::getline(is, l)) {
        if (StartsWith(l, "fix-it:\"")) {
            REQ(!r.empty(), "a replacement without a diagnostic: " << l);
            size_t p = l.find("\":{");
            REQ(p != std::string::npos && l.substr(8, p - 8) == file, "a replacement for another file: " << l);
            unsigned a = 0, b = 0, c = 0, d = 0;
            REQ(sscanf(l.c_str() + p + 2, "{%u:%u-%u:%u}", &a, &b, &c, &d) == 4, "cannot read " << l);
            size_t q = l.find("}:\"", p);
            auto& f = r.back();
            f.fl = a; f.fc = b; f.tl = c; f.tc = d;
            f.fix = l.substr(q + 3, l.size() - q - 4);
            f.hasFix = true;
        } else if (l.find(": error: ") != std::string::npos || l.find(": fatal error: ") != std::string::npos) {
            REQ(false, "the program does not parse: " << l);
        } else if (l.find(": warning: ") != std::string::npos) {
            Found f;
            REQ(StartsWith(l, file + ":"), "a diagnostic outside of the program: " << l);
            unsigned a = 0, b = 0;
            REQ(sscanf(l.c_str() + file.size(), ":%u:%u:", &a, &b) == 2, "cannot read " << l);
            f.line = a; f.col = b;
            REQ(l.find("fairmq-modernize-nonnamespaced-types") != std::string::npos, "an unknown diagnostic: " << l);
            size_t m = l.find("'"), m2 = l.find("'", m + 1), m3 = l.find("'", m2 + 1), m4 = l.find("'", m3 + 1);
            REQ(m4 != std::string::npos, "the diagnostic names no types: " << l);
            f.name = l.substr(m + 1, m2 - m - 1);
            f.target = l.substr(m3 + 1, m4 - m3 - 1);
            r.push_back(f);
        }
    }
    return r;
}

std::string Slurp(const std::string& f)
{
    std::ifstream is(f);
    std::ostringstream o;
    o << is.rdbuf();
    return o.str();
}

int RunInProcess(const std::vector<std::string>& files, const std::vector<std::string>& args, std::string& out)
{
    const std::string log = pbt::Scratch() + "/log" + std::to_string(pbt::WorkerId());
    int save = dup(2);
    int fd = open(log.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    close(fd);
    clang::tooling::FixedCompilationDatabase db(".", args);
    int rc = fair::mq::tidy::Tool::run(db, files);
    llvm::errs().flush();
    dup2(save, 2);
    close(save);
    out = Slurp(log);
    return rc;
}
int RunChild(const std::vector<std::string>& files, const std::vector<std::string>& args, std::string& out)
{
    const std::string log = pbt::Scratch() + "/log" + std::to_string(pbt::WorkerId());
    std::string cmd = "exec " + pbt::SelfExe() + " --child";
    for (auto& f : files) { cmd += " " + f; }
    cmd += " --";
    for (auto& f : args) { cmd += " '" + f + "'"; }
    cmd += " >/dev/null 2>" + log;
    int rc = system(cmd.c_str());
    out = Slurp(log);
    return WIFEXITED(rc) ? WEXITSTATUS(rc) : 1000 + rc;
}

void Judge(const std::string& out, const std::string& file, const std::vector<Use>& uses)
{
    auto found = Parse(out, file);
    std::vector<int> seen(uses.size(), 0);
    for (auto& f : found) {
        bool ok = false;
        for (size_t i = 0; i < uses.size(); ++i) {
            auto& u = uses[i];
            if (u.line != f.line || u.name != f.name) { continue; }
            if (!u.macro && f.col != u.col && f.col != u.nameCol) { continue; }
            ok = true;
            ++seen[i];
            REQ_EQ(f.target, u.target, "replacement named for " << u.name << " in line " << u.line);
            if (!u.macro) {
                REQ(f.hasFix, "no replacement offered for " << u.name << " at " << u.line << ":" << u.col);
                REQ_EQ(f.fix, u.target, "replacement text for " << u.name << " at " << u.line << ":" << u.col);
                REQ(f.fl == u.line && f.tl == u.line && (f.fc == u.col || f.fc == u.nameCol) && f.tc == u.endCol,
                    "the replacement of " << u.name << " at " << u.line << ":" << u.col << " would replace " << f.fl << ":" << f.fc << " to " << f.tl << ":" << f.tc
                                          << ", the name ends at column " << u.endCol);
                break;
            }
        }
        REQ(ok, "diagnostic at " << f.line << ":" << f.col << " for '" << f.name << "', but there is no use of a deprecated name there");
    }
    for (size_t i = 0; i < uses.size(); ++i) {
        REQ(seen[i] > 0, "no diagnostic for the use of " << uses[i].name << " at " << uses[i].line << ":" << uses[i].col);
    }
}

const char* kPrelude =
    "namespace std { template<class E> class initializer_list { const E* b; __SIZE_TYPE__ n; public: constexpr initializer_list() : b(nullptr), n(0) {} constexpr const E* begin() const { return b; } constexpr const E* end() const { return b + n; } }; }\n"
    "namespace fair::mq {\n"
    "struct Message { int n = 0; static int s; using type = int; struct Sub { int k = 0; }; Message() {} explicit Message(int i) : n(i) {} template<class T> T as() const { return T(); } static int make() { return 1; } };\n"
    "struct Parts { int n = 0; static int s; using type = long; struct Sub { int k = 0; }; Parts() {} explicit Parts(int i) : n(i) {} static int make() { return 2; } };\n"
    "struct Device { virtual ~Device() {} virtual void Run() {} int n = 0; static int s; using type = char; struct Sub { int k = 0; }; Device() {} explicit Device(int i) : n(i) {} static int make() { return 3; } };\n"
    "enum class Code { ok, bad };\n"
    "using MessagePtr = Message*;\n"
    "namespace inner { struct Deep { int n = 0; static int s; using type = int; struct Sub { int k = 0; }; Deep() {} explicit Deep(int i) : n(i) {} static int make() { return 4; } }; }\n"
    "}\n"
    "template<class T> struct Box { T t{}; }; template<class A, class B> struct Two { A a{}; B b{}; };\n"
    "template<class T, class U> bool same(T*, U*) { return false; }\n";


// $k: use of class alias k (perhaps with a leading ::), ~k: the same without, @: use of any alias, %k: a new identifier, ^k: target of alias k
const char* const kGlobal[] = {
    "$0 %0{};\n",
    "const $0 %0{};\n",
    "$0 const %0{};\n",
    "extern $0 const& %0;\n",
    "const $0* %0 = nullptr;\n",
    "static $0 volatile* %0 = nullptr, *%1 = nullptr;\n",
    "Box<$0> %0;\n",
    "Two<$0, Box<$1>> %0;\n",
    "Two<Box<Box<@>*>*, @*> %0;\n",
    "$0 %0($0 a, const $1& b);\n",
    "auto %0($0& a) -> $1*;\n",
    "@ (*%0)(@, int) = nullptr;\n",
    "@* %0[3] = {};\n",
    "struct %0 : $0 {};\n",
    "struct %0 : public $0 { %0() : ~0(3) {} };\n",
    "struct %0 : $0 { using ~0::~0; };\n",
    "class %0 final : private virtual $0 { $1 m; static @* p; mutable $0* q = nullptr; };\n",
    "struct %0 { $0 m{1}; $1 f() const; friend @ g%0($0&); operator $0() const; };\n",
    "$0::Sub %0;\n",
    "$0::type %0 = 0;\n",
    "int %0 = sizeof($0) + alignof($1) + ~0::make() + $1(3).n + $0{4}.n;\n",
    "using %0 = $0; %0 %1;\n",
    "typedef $0* %0; %0 %1;\n",
    "template<class T = $0> struct %0 { T t; }; %0<> %1;\n",
    "template<class T> struct %0 {}; template<> struct %0<$0> { $0 x; };\n",
    "template<class T> struct %0 { T t; $0 m; void f(@*) { $1 k; } }; %0<int> %1; template struct %0<char>;\n",
    "template<class T> $0 %0(T) { return $0(); } auto %1 = %0(3); auto %2 = %0('c');\n",
    "template<@* P> struct %0 {}; %0<nullptr> %1;\n",
    "namespace n%0 { $0 a; namespace deep { struct X { $1 b; }; } }\n",
    "inline namespace { @* %0 = nullptr; }\n",
    "static_assert(sizeof($0) == sizeof(^0), \"\");\n",
    "decltype($0(1)) %0;\n",
    "extern \"C\" { void %0($0*); }\n",
    "void %0(int = $0::make());\n",
    "void %0() noexcept(noexcept($0()));\n",
};
const char* const kLocal[] = {
    "$0 %0;\n",
    "auto %0 = $0(2);\n",
    "auto* %0 = new $0(); delete %0;\n",
    "auto* %0 = new $0[4]; delete[] %0;\n",
    "(void)static_cast<const $0*>(nullptr);\n",
    "(void)reinterpret_cast<$0*>(16);\n",
    "(void)(($0*)nullptr);\n",
    "auto %0 = []($0 const& a) -> @* { $1 x; (void)x; (void)a; return nullptr; }; (void)%0;\n",
    "auto %0 = [](auto const& a, $0* b) { $1 x; return b; }; %0(1, nullptr); %0('c', nullptr);\n",
    "try { throw $0(); } catch ($0& e) { (void)e; } catch (const @* e) {}\n",
    "for ($0 %0(3); %0.n > 0; --%0.n) {}\n",
    "for (auto& %0 : {$0(1), $0(2)}) { (void)%0; }\n",
    "for (const $0& %0 : {~0(1)}) { (void)%0; }\n",
    "if ($0* %0 = nullptr) { $1* q = nullptr; (void)q; } else { @* r = nullptr; (void)r; }\n",
    "static $0 %0; %0.n = $1::s;\n",
    "(void)same((@*)nullptr, static_cast<@*>(nullptr));\n",
    "struct L { $0 m; @* f() { return nullptr; } }; L %0;\n",
    "using M = $0; M %0; (void)sizeof(M);\n",
    "constexpr auto %0 = sizeof($0); (void)%0;\n",
    "switch (sizeof(@)) { case 1: { $0* z = nullptr; (void)z; break; } default: ; }\n",
    "int $0::* %0 = &~0::n; (void)%0;\n",
};
const char* const kDecoyGlobal[] = {
    "^0 %0;\n",
    "Box<^0> %0;\n",
    "// ~x FairMQMessage FairMQParts in a comment\n",
    "const char* %0 = \"FairMQMessage x\";\n",
    "using FairMQOther%0 = Box<int>; FairMQOther%0 %1; FairMQOther%0 const* %2 = nullptr;\n",
    "struct FairMQThing%0 { int i; }; FairMQThing%0 %1{1}; FairMQThing%0 f%1(FairMQThing%0*);\n",
    "struct FairMQDecoy%0 { using type = ^0; using FairMQInner = ^0; }; FairMQDecoy%0::type %1; FairMQDecoy%0::FairMQInner %2;\n",
    "namespace FairMQUtil%0 { using M = ^0; } FairMQUtil%0::M %1;\n",
    "namespace my%0 { using FairMQMessage = ^0; FairMQMessage a; } my%0::FairMQMessage %1;\n",
    "int FairMQvar%0 = 0; int %1 = FairMQvar%0 + 1;\n",
    "void FairMQfun%0(int); auto %1 = &FairMQfun%0;\n",
    "template<class FairMQT%0> struct %1 { FairMQT%0 t; }; %1<^0> %2; %1<int> %3;\n",
    "enum class FairMQEnum%0 { a, b }; FairMQEnum%0 %1 = FairMQEnum%0::a;\n",
    "using XFairMQMessage%0 = ^0; XFairMQMessage%0 %1;\n",
    "using fairmqMessage%0 = ^0; fairmqMessage%0 %1;\n",
    "namespace other%0::mq { struct Q {}; } using FairMQElse%0 = other%0::mq::Q; FairMQElse%0 %1;\n",
    "namespace fair { struct Q%0 {}; namespace mq2 { struct R%0 {}; } } using FairMQq%0 = fair::Q%0; using FairMQr%0 = fair::mq2::R%0; FairMQq%0 %1; FairMQr%0* %2 = nullptr;\n",
    "namespace fair::mq { struct FairMQIn%0 {}; using FairMQThere%0 = Message; } fair::mq::FairMQIn%0 %1; fair::mq::FairMQThere%0 %2;\n",
    "union FairMQUnion%0 { int i; char c; }; FairMQUnion%0* %1 = nullptr;\n",
    "struct %0 : ^0 { ^1 FairMQMember; }; auto %1 = %0{}.FairMQMember;\n",
    "auto %0 = ^0::make();\n",
    "using namespace fair::mq; inner::Deep %0;\n",
};
const char* const kDecoyLocal[] = {
    "^0 %0; auto %1 = %0; (void)%1;\n",
    "auto* %0 = new ^0(); delete %0;\n",
    "struct FairMQLocal {}; FairMQLocal %0; (void)%0;\n",
    "int FairMQi = 3; (void)FairMQi;\n",
    "goto FairMQLabel%0; FairMQLabel%0: ;\n",
};

struct Gen
{
    pbt::Src& s;
    Writer w;
    std::vector<Alias> aliases;
    int n = 0;

    const Alias& pickAlias(bool cls)
    {
        std::vector<const Alias*> c;
        for (auto& a : aliases) { if (!cls || a.kind == 'c') { c.push_back(&a); } }
        return *c[s.draw(c.size())];
    }
    void expand(const std::string& t)
    {
        std::map<char, std::string> ids;
        std::map<char, const Alias*> cl;
        auto alias = [&](char k) -> const Alias& {
            if (!cl.count(k)) { cl[k] = &pickAlias(true); }
            return *cl[k];
        };
        for (size_t i = 0; i < t.size(); ++i) {
            char ch = t[i];
            char k = i + 1 < t.size() ? t[i + 1] : ' ';
            bool num = k >= '0' && k <= '9';
            if (ch == '@') {
                w.use(pickAlias(false), s.chance(25));
            } else if (ch == '$' && num) {
                w.use(alias(k), s.chance(25));
                ++i;
            } else if (ch == '~' && num) {
                w.use(alias(k), false);
                ++i;
            } else if (ch == '^' && num) {
                w.put(alias(k).target);
                ++i;
            } else if (ch == '%' && num) {
                if (!ids.count(k)) { ids[k] = "v" + std::to_string(n++); }
                w.put(ids[k]);
                ++i;
            } else {
                w.put(std::string(1, ch));
            }
            if (ch != '\n' && (t[i] == ',' || t[i] == ';' || t[i] == '{') && s.chance(8)) { w.put(s.flip() ? "\n    " : "\t"); }
        }
    }
    template<size_t N>
    void one(const char* const (&table)[N]) { expand(table[s.draw(N)]); }

    void block(int depth)
    {
        size_t k = 1 + s.size(5);
        for (size_t i = 0; i < k; ++i) {
            w.put(std::string(2 * static_cast<size_t>(depth), ' '));
            if (s.chance(20)) { w.put("/* FairMQMessage */ "); }
            switch (depth < 4 ? s.weighted({6, 3, 1}) : s.weighted({6, 3})) {
                case 0: w.put("{ "); one(kLocal); w.put("}\n"); break;
                case 1: w.put("{ "); one(kDecoyLocal); w.put("}\n"); break;
                default: {
                    w.put(std::string(s.pick({"{\n", "if (true) {\n", "while (false) {\n", "[&] {\n"})));
                    bool lambda = w.text.substr(w.text.size() - 4) == "&] {" || w.text.substr(w.text.size() - 5) == "&] {\n";
                    block(depth + 1);
                    w.put(lambda ? "}();\n" : "}\n");
                }
            }
        }
    }
    void header()
    {
        size_t k = s.size(4);
        for (size_t i = 0; i < k; ++i) {
            switch (s.weighted({4, 2, 2})) {
                case 0: one(kGlobal); break;
                case 1: one(kDecoyGlobal); break;
                default:
                    expand("inline void %0() {\n");
                    block(1);
                    w.put("}\n");
            }
        }
    }
    void define()
    {
        static const std::vector<Alias> all{{"FairMQMessage", "fair::mq::Message", 'c'}, {"FairMQParts", "fair::mq::Parts", 'c'}, {"FairMQDevice", "fair::mq::Device", 'c'},
                                            {"FairMQMessagePtr", "fair::mq::MessagePtr", 'o'}, {"FairMQCode", "fair::mq::Code", 'o'}, {"FairMQ_deep2", "fair::mq::inner::Deep", 'c'},
                                            {"FairMQ", "fair::mq::Parts", 'c'}};
        aliases.push_back(all[s.draw(3)]);
        for (auto& a : all) {
            if (a.name != aliases[0].name && s.chance(50)) { aliases.push_back(a); }
        }
        for (auto& a : aliases) {
            w.put("using " + a.name + (s.flip() ? " [[deprecated(\"Use " + a.target + "\")]]" : "") + " = " + a.target + ";\n");
        }
    }
    void program()
    {
        if (s.chance(30)) { w.put("#define FMQ_TYPE " + aliases[0].name + "\n#define FMQ_ID(x) x\n#define FMQ_VAR(t, v) t v\n"); macros = true; }
        size_t k = 1 + s.size(12);
        for (size_t i = 0; i < k; ++i) {
            switch (s.weighted({8, 4, 4, 2})) {
                case 0: one(kGlobal); break;
                case 1: one(kDecoyGlobal); break;
                case 2:
                    expand(s.chance(25) ? "template<class T> void %0(T) {\n" : "void %0() {\n");
                    block(1);
                    w.put("}\n");
                    break;
                default:
                    if (!macros) { break; }
                    switch (s.draw(3)) {
                        case 0: w.macro("FMQ_TYPE", aliases[0]); expand(" %0;\n"); break;
                        case 1: w.macro("FMQ_ID(" + aliases[0].name + ")", aliases[0]); expand(" %0;\n"); break;
                        default: w.macro("FMQ_VAR(" + aliases[0].name + ",", aliases[0]); expand(" %0);\n"); break;
                    }
            }
        }
    }
    bool macros = false;
};

void Program(pbt::Src& s, pbt::Case& c, bool child)
{
    const std::string dir = pbt::Scratch() + "/";
    size_t files = s.chance(12) ? 2 : 1;
    bool header = s.chance(30);
    std::vector<std::string> paths, judged;
    std::vector<Writer> ws;
    size_t uses = 0;
    for (size_t i = 0; i < files; ++i) {
        Gen g{s};
        const std::string base = "w" + std::to_string(pbt::WorkerId()) + "_" + std::to_string(i);
        if (header) {
            Gen h{s};
            h.w.put(kPrelude);
            h.define();
            h.header();
            g.aliases = h.aliases;
            g.n = 1000;
            std::ofstream(dir + base + ".h") << h.w.text;
            c << "header:\n" << h.w.text.substr(std::string(kPrelude).size()) << "program:\n";
            uses += h.w.uses.size();
            judged.push_back(dir + base + ".h");
            ws.push_back(h.w);
            g.w.put("#include \"" + base + ".h\"\n");
        } else {
            g.w.put(kPrelude);
            g.define();
        }
        g.program();
        std::string p = dir + base + s.pick({".cpp", ".cxx", ".cc"});
        std::ofstream(p) << g.w.text;
        paths.push_back(p);
        judged.push_back(p);
        c << (header ? g.w.text : g.w.text.substr(std::string(kPrelude).size())) << "\n";
        uses += g.w.uses.size();
        ws.push_back(g.w);
    }
    std::vector<std::string> args{"-fdiagnostics-parseable-fixits", "-ferror-limit=3"};
    switch (s.draw(4)) {
        case 0: args.push_back("-std=c++17"); break;
        case 1: args.push_back("-std=c++20"); break;
        case 2: args.push_back("-Wall"); args.push_back("-Wextra"); break;
        default: break;
    }
    std::string out;
    int rc = child ? RunChild(paths, args, out) : RunInProcess(paths, args, out);
    for (size_t i = 0; i < judged.size(); ++i) {
        // lines about the other files are not for this one
        std::string mine;
        std::istringstream is(out);
        std::string l;
        while (std::getline(is, l)) {
            bool other = false;
            for (size_t k = 0; k < judged.size(); ++k) { other = other || (k != i && l.find(judged[k] + "\":{") != std::string::npos) || (k != i && StartsWith(l, judged[k] + ":")); }
            if (!other) { mine += l + "\n"; }
        }
        Judge(mine, judged[i], ws[i].uses);
    }
    REQ_EQ(rc, 0, "exit code of the tool (output: " << out << ")");
    c.nontrivial(uses > 0);
    c.count("uses of deprecated names", uses);
    c.label("several files", files > 1);
    for (auto& w : ws) { for (auto& u : w.uses) { c.label("use in macro", u.macro); c.label("use with leading ::", u.nameCol != u.col); } }
}

CASE(program, 12) { Program(s, c, false); }
CASE(tool, 1) { Program(s, c, true); }

// the tool must report a program it cannot read
CASE(broken, 1)
{
    const std::string p = pbt::Scratch() + "/b" + std::to_string(pbt::WorkerId()) + ".cpp";
    const std::string text = s.pick({"int main( {", "#include <no/such/file.h>\n", "using X = ;\n", "class"});
    bool missing = s.chance(30);
    unlink(p.c_str());
    if (!missing) { std::ofstream(p) << text; }
    c << (missing ? "no file" : text);
    std::string out;
    bool child = s.chance(20);
    int rc = child ? RunChild({p}, {}, out) : RunInProcess({p}, {}, out);
    REQ(rc != 0, "the tool reports success for a program that cannot be parsed: " << out);
    c.nontrivial();
}

// the deprecated names of the real headers
struct Real { const char* header; const char* name; };
const Real kReal[] = {
    {"Poller.h", "Poller"}, {"Poller.h", "PollerPtr"}, {"Message.h", "Message"}, {"Message.h", "MessagePtr"}, {"Socket.h", "Socket"}, {"Socket.h", "SocketPtr"},
    {"Parts.h", "Parts"}, {"Channel.h", "Channel"}, {"UnmanagedRegion.h", "RegionInfo"}, {"UnmanagedRegion.h", "RegionBlock"}, {"UnmanagedRegion.h", "RegionConfig"},
    {"UnmanagedRegion.h", "UnmanagedRegion"}, {"UnmanagedRegion.h", "UnmanagedRegionPtr"}, {"UnmanagedRegion.h", "RegionCallback"}, {"UnmanagedRegion.h", "RegionEvent"},
    {"TransportFactory.h", "TransportFactory"}, {"TransportFactory.h", "TransportFactoryError"},
};
CASE(headers, 1)
{
    std::set<std::string> inc;
    Writer w;
    std::vector<const Real*> chosen;
    size_t k = 1 + s.size(3);
    for (size_t i = 0; i < k; ++i) { chosen.push_back(&kReal[s.draw(sizeof(kReal) / sizeof(*kReal))]); inc.insert(chosen.back()->header); }
    for (auto& h : inc) { w.put("#include <fairmq/" + h + ">\n"); }
    std::set<std::string> names;
    for (auto* r : chosen) {
        Alias a{std::string("FairMQ") + r->name, std::string("fair::mq::") + r->name, 'c'};
        static int n = 0;
        w.use(a, s.flip());
        w.put("* p" + std::to_string(n++) + " = nullptr;\n");
        w.put("fair::mq::" + std::string(r->name) + " const* p" + std::to_string(n++) + " = nullptr;\n");
    }
    const std::string p = pbt::Scratch() + "/h" + std::to_string(pbt::WorkerId()) + ".cpp";
    std::ofstream(p) << w.text;
    c << w.text;
    std::string out;
    std::vector<std::string> args{"-fdiagnostics-parseable-fixits", "-DNDEBUG", "-DFAIRMQ_HAS_STD_FILESYSTEM=1", "-DFAIRMQ_HAS_STD_PMR=1"};
    for (auto& i : {INCLUDE_DIRS}) { args.push_back(std::string("-I") + i); }
    int rc = RunChild({p}, args, out);
    Judge(out, p, w.uses);
    REQ_EQ(rc, 0, "exit code of the tool");
    c.nontrivial();
}

}   // namespace
