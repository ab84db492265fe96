// C22, C23: the configuration as a map from key to typed value, and the notifications of its changes
#include "c25.h"
#include "schedule.h"
#include <fairmq/ProgOptions.h>
#include <optional>

using namespace fair::mq;
using c25::Fmt;

namespace c25 {
std::string GenText(pbt::Src& s)
{
    switch (s.draw(3)) {
        case 0: return s.pick({"", "a", "x, y", "/tmp/a b/c.d", "\"q\"", "back\\slash", " lead", "true", "1e5", "\n"});
        case 1: { std::string r; size_t n = s.draw(12); for (size_t i = 0; i < n; ++i) { r += static_cast<char>(1 + s.draw(255)); } return r; }
        default: return s.str("abcXYZ019 ,;=\"\\/._-\t", 0, 24);
    }
}
}   // namespace c25

namespace {

struct Opaque
{
    int x = 0;
};
struct Custom
{
    int a = 0;
};
std::ostream& operator<<(std::ostream& os, const Custom& v) { return os << "custom(" << v.a << ")"; }
const pbt::RegisterWorkerInit kInit{[] { PropertyHelper::AddType<Custom>("my custom"); }};

using Note = std::function<void(const std::string& key, const std::string& fp)>;

// one type of property values: everything the configuration offers for it
struct Ops
{
    std::string name;
    bool registered;   // known to the configuration (can be part of a batch, has a printed form)
    std::function<boost::any(pbt::Src&, std::string& text, std::string& fp)> gen;
    std::function<std::string(const boost::any&)> fp;
    std::function<void(ProgOptions&, const std::string&, const boost::any&)> set, setValue;
    std::function<bool(ProgOptions&, const std::string&, const boost::any&)> update;
    std::function<boost::any(const ProgOptions&, const std::string&)> get, getValue;
    std::function<boost::any(const ProgOptions&, const std::string&, const boost::any&)> getOr;
    std::function<void(ProgOptions&, const std::string&, Note)> subscribe;
    std::function<void(ProgOptions&, const std::string&)> unsubscribe;
};

template<typename T> struct V {
    static T gen(pbt::Src& s, std::string& text) { T v = c25::G<T>::gen(s); text = c25::G<T>::text(v); return v; }
    static std::string fp(const T& v) { return c25::Value<T>(v); }
};
template<typename T> struct V<std::vector<T>> {
    static std::vector<T> gen(pbt::Src& s, std::string& text)
    {
        std::vector<T> v;
        size_t n = s.size(6);
        for (size_t i = 0; i < n; ++i) { T x = c25::G<T>::gen(s); v.push_back(x); text += (i ? ", " : "") + c25::G<T>::text(x); }
        return v;
    }
    static std::string fp(const std::vector<T>& v) { return c25::ValueV<T>(v); }
};
template<> struct V<Custom> {
    static Custom gen(pbt::Src& s, std::string& text) { Custom v{static_cast<int>(s.draw(1000))}; text = "custom(" + std::to_string(v.a) + ")"; return v; }
    static std::string fp(const Custom& v) { return std::to_string(v.a); }
};
template<> struct V<Opaque> {
    static Opaque gen(pbt::Src& s, std::string& text) { Opaque v{static_cast<int>(s.draw(1000))}; text = "[unidentified_type]"; return v; }
    static std::string fp(const Opaque& v) { return std::to_string(v.x); }
};

template<typename T>
Ops Make(const std::string& name, bool registered = true)
{
    Ops o;
    o.name = name;
    o.registered = registered;
    o.gen = [](pbt::Src& s, std::string& text, std::string& fp) { T v = V<T>::gen(s, text); fp = V<T>::fp(v); return boost::any(v); };
    o.fp = [](const boost::any& a) { return V<T>::fp(boost::any_cast<T>(a)); };
    o.set = [](ProgOptions& p, const std::string& k, const boost::any& a) { p.SetProperty(k, boost::any_cast<T>(a)); };
    o.setValue = [](ProgOptions& p, const std::string& k, const boost::any& a) { REQ_EQ(p.SetValue(k, boost::any_cast<T>(a)), 0, "SetValue"); };
    o.update = [](ProgOptions& p, const std::string& k, const boost::any& a) { return p.UpdateProperty(k, boost::any_cast<T>(a)); };
    o.get = [](const ProgOptions& p, const std::string& k) { return boost::any(p.GetProperty<T>(k)); };
    o.getValue = [](const ProgOptions& p, const std::string& k) { return boost::any(p.GetValue<T>(k)); };
    o.getOr = [](const ProgOptions& p, const std::string& k, const boost::any& d) { return boost::any(p.GetProperty<T>(k, boost::any_cast<T>(d))); };
    o.subscribe = [](ProgOptions& p, const std::string& sub, Note f) { p.Subscribe<T>(sub, [f](std::string k, T v) { f(k, V<T>::fp(v)); }); };
    o.unsubscribe = [](ProgOptions& p, const std::string& sub) { p.Unsubscribe<T>(sub); };
    return o;
}
const std::vector<Ops>& Types()
{
    static const std::vector<Ops> t{
        Make<int>("int"), Make<std::string>("string"), Make<bool>("bool"), Make<double>("double"), Make<char>("char"), Make<unsigned long long>("unsigned long long"),
        Make<unsigned short>("unsigned short"), Make<float>("float"), Make<long double>("long double"), Make<c25::fs::path>("path"), Make<std::vector<int>>("vector<int>"),
        Make<std::vector<std::string>>("vector<string>"), Make<std::vector<double>>("vector<double>"), Make<Custom>("Custom"), Make<Opaque>("Opaque", false)};
    return t;
}
size_t GenType(pbt::Src& s, bool batch = false) { return s.chance(50) ? s.draw(3) : s.draw(Types().size() - (batch ? 1 : 0)); }

struct Entry
{
    size_t type;
    std::string text, fp;
    boost::any value;
};
Entry GenEntry(pbt::Src& s, bool batch = false)
{
    Entry e;
    e.type = GenType(s, batch);
    e.value = Types()[e.type].gen(s, e.text, e.fp);
    return e;
}
using Model = std::map<std::string, Entry>;

const char* const kKeys[] = {"a", "b", "ab", "a.b", "abc", "", "x y", "severity", "color", "id", "chans", "A", "session", "a-b", "a*b", "zz"};
std::string GenKey(pbt::Src& s) { return s.chance(93) ? std::string(kKeys[s.draw(sizeof(kKeys) / sizeof(*kKeys))]) : s.str("abzAB._- *+[", 0, 5); }

std::string Show(const Entry& e)
{
    std::string r = Types()[e.type].name + ":";
    for (char ch : e.text.substr(0, 40)) { r += (ch < 32 || ch > 126) ? '?' : ch; }
    return r;
}
void CheckEntry(const ProgOptions& p, const std::string& key, const Entry& e, size_t how, pbt::Src& s)
{
    auto& t = Types()[e.type];
    switch (how) {
        case 0: REQ_EQ(t.fp(t.get(p, key)), e.fp, "GetProperty<" << t.name << ">(" << key << ")"); break;
        case 1: { std::string x, y; REQ_EQ(t.fp(t.getOr(p, key, t.gen(s, x, y))), e.fp, "GetProperty<" << t.name << ">(" << key << ", default)"); break; }
        case 2: REQ_EQ(t.fp(t.getValue(p, key)), e.fp, "GetValue<" << t.name << ">(" << key << ")"); break;
        case 3: REQ_EQ(p.GetPropertyAsString(key), e.text, "GetPropertyAsString(" << key << ")"); break;
        case 4: REQ_EQ(p.GetPropertyAsString(key, "other"), e.text, "GetPropertyAsString(" << key << ", default)"); break;
        case 5: REQ_EQ(p.GetStringValue(key), e.text, "GetStringValue(" << key << ")"); break;
        case 6: REQ_EQ(p.Count(key), 1, "Count(" << key << ")"); break;
        default: {   // another type
            size_t o = GenType(s);
            if (o == e.type) { return; }
            auto& ot = Types()[o];
            std::string x, y;
            auto d = ot.gen(s, x, y);
            switch (s.draw(3)) {
                case 0: REQ_THROWS(boost::bad_any_cast, ot.get(p, key), "reading " << key << " of type " << t.name << " as " << ot.name); break;
                case 1: REQ_THROWS(boost::bad_any_cast, ot.getOr(p, key, d), "reading " << key << " of type " << t.name << " as " << ot.name); break;
                default: REQ_THROWS(boost::bad_any_cast, ot.getValue(p, key), "reading " << key << " of type " << t.name << " as " << ot.name);
            }
        }
    }
}
void CheckMissing(const ProgOptions& p, const std::string& key, size_t how, pbt::Src& s)
{
    auto& t = Types()[GenType(s)];
    std::string x, y;
    auto d = t.gen(s, x, y);
    switch (how) {
        case 0: case 7: REQ_THROWS(PropertyNotFoundError, t.get(p, key), "missing " << key); break;
        case 1: REQ_EQ(t.fp(t.getOr(p, key, d)), y, "default for the missing key " << key); break;
        case 2: { if (t.name == "string") { REQ_EQ(t.fp(t.getValue(p, key)), "", "GetValue of the missing key " << key); } break; }
        case 3: REQ_THROWS(PropertyNotFoundError, p.GetPropertyAsString(key), "missing " << key); break;
        case 4: REQ_EQ(p.GetPropertyAsString(key, "other"), "other", "default for the missing key " << key); break;
        case 5: REQ_EQ(p.GetStringValue(key), "", "GetStringValue of the missing key " << key); break;
        default: REQ_EQ(p.Count(key), 0, "Count of the missing key " << key);
    }
    REQ_EQ(p.Count(key), 0, "reading the missing key " << key << " created it");
}
void CheckAny(const std::string& key, const boost::any& a, const Entry& e)
{
    auto& t = Types()[e.type];
    std::string fp;
    try { fp = t.fp(a); } catch (const boost::bad_any_cast&) { REQ(false, "property " << key << " has another type than " << t.name); }
    REQ_EQ(fp, e.fp, "value of " << key);
}
template<typename M>
void SameKeys(const M& got, const std::vector<std::string>& want, const std::string& what)
{
    for (auto& k : want) { REQ(got.count(k), what << " lacks '" << k << "'"); }
    REQ_EQ(got.size(), want.size(), "number of properties from " << what);
}
std::string Escape(const std::string& k)
{
    std::string r;
    for (char ch : k) { if (!isalnum(static_cast<unsigned char>(ch))) { r += '\\'; } r += ch; }
    return r;
}
void CheckQuery(const ProgOptions& p, const Model& m, pbt::Src& s, pbt::Case& c)
{
    std::string part = GenKey(s);
    if (!m.empty() && s.flip()) { auto it = m.begin(); std::advance(it, s.draw(m.size())); part = it->first; }
    std::string rest = part.substr(0, s.draw(part.size() + 1));
    bool (*match)(const std::string&, const std::string&, const std::string&) = nullptr;
    std::string q;
    std::string b = GenKey(s);
    int kind = static_cast<int>(s.draw(6));
    bool prefix = false;
    switch (kind) {
        case 0: q = ".*"; match = [](const std::string&, const std::string&, const std::string&) { return true; }; break;
        case 1: q = Escape(rest) + ".*"; match = [](const std::string& k, const std::string& a, const std::string&) { return k.size() >= a.size() && k.substr(0, a.size()) == a; }; break;
        case 2: rest = part.substr(part.size() - rest.size()); q = ".*" + Escape(rest);
            match = [](const std::string& k, const std::string& a, const std::string&) { return k.size() >= a.size() && k.substr(k.size() - a.size()) == a; }; break;
        case 3: rest = part; q = "(" + Escape(part) + "|" + Escape(b) + ")"; match = [](const std::string& k, const std::string& a, const std::string& b2) { return k == a || k == b2; }; break;
        case 4: q = Escape(rest); match = [](const std::string& k, const std::string& a, const std::string&) { return k == a; }; break;
        default: prefix = true; q = rest; match = [](const std::string& k, const std::string& a, const std::string&) { return k.size() >= a.size() && k.substr(0, a.size()) == a; };
    }
    std::vector<std::string> want;
    bool printable = true;
    for (auto& [k, e] : m) { if (match(k, rest, b)) { want.push_back(k); printable = printable && Types()[e.type].registered; } }
    c << " query(" << q << ")";
    c.label("query matches several keys", want.size() > 1);
    auto got = prefix ? p.GetPropertiesStartingWith(q) : p.GetProperties(q);
    SameKeys(got, want, "query '" + q + "'");
    for (auto& k : want) { CheckAny(k, got.at(k), m.at(k)); }
    if (printable) {   // values of unknown types have no printed form
        auto str = prefix ? p.GetPropertiesAsStringStartingWith(q) : p.GetPropertiesAsString(q);
        SameKeys(str, want, "query as string '" + q + "'");
        for (auto& k : want) { REQ_EQ(str.at(k), m.at(k).text, "text of " << k << " in a query"); }
    }
}
void CheckAll(const ProgOptions& p, const Model& m, pbt::Src& s)
{
    auto keys = p.GetPropertyKeys();
    std::set<std::string> ks(keys.begin(), keys.end());
    REQ_EQ(ks.size(), keys.size(), "keys listed twice");
    for (auto& [k, e] : m) { REQ(ks.count(k), "GetPropertyKeys lacks '" << k << "'"); }
    REQ_EQ(ks.size(), m.size(), "number of keys");
    auto vm = p.GetVarMap();
    REQ_EQ(vm.size(), m.size(), "size of the container");
    for (auto& [k, e] : m) {
        CheckEntry(p, k, e, 0, s);
        CheckEntry(p, k, e, 3, s);
        CheckAny(k, vm[k].value(), e);
    }
}
Model Defaults()
{
    Model m;
    auto str = [&](const char* k, const std::string& v) { m[k] = Entry{1, v, v, boost::any(v)}; };
    str("severity", "");
    str("file-severity", "debug");
    str("verbosity", "medium");
    str("log-to-file", "");
    m["color"] = Entry{2, "true", "true", boost::any(true)};
    return m;
}

Properties GenBatch(pbt::Src& s, const Model& m, std::map<std::string, Entry>& es, bool known)
{
    Properties in;
    size_t n = s.size(5);
    for (size_t i = 0; i < n; ++i) {
        std::string k = GenKey(s);
        if (known && !m.empty() && s.chance(75)) { auto it = m.begin(); std::advance(it, s.draw(m.size())); k = it->first; }
        Entry e = GenEntry(s, true);
        in[k] = e.value;
        es[k] = e;
    }
    return in;
}

// channels
struct Chan
{
    Channel ch;
    std::string sig;
};
std::string Sig(const Channel& c)
{
    std::ostringstream o;
    o << c.GetType() << "|" << c.GetMethod() << "|" << c.GetAddress() << "|" << c.GetTransportName() << "|" << c.GetSndBufSize() << "|" << c.GetRcvBufSize() << "|" << c.GetSndKernelSize() << "|"
      << c.GetRcvKernelSize() << "|" << c.GetSndTimeout() << "|" << c.GetRcvTimeout() << "|" << c.GetLinger() << "|" << c.GetRateLogging() << "|" << c.GetPortRangeMin() << "|" << c.GetPortRangeMax() << "|"
      << c.GetAutoBind();
    return o.str();
}
Channel GenChannel(pbt::Src& s)
{
    Channel c;
    if (s.chance(80)) { c.UpdateType(s.pick({"push", "pull", "pub", "sub", "pair"})); }
    if (s.chance(80)) { c.UpdateMethod(s.pick({"bind", "connect"})); }
    if (s.chance(80)) { c.UpdateAddress(s.pick({"tcp://*:1", "ipc://x", "tcp://a:1,tcp://b:2", ""})); }
    if (s.chance(60)) { c.UpdateTransport(s.pick({"zeromq", "shmem", "default"})); }
    auto n = [&] { return static_cast<int>(s.edgy(0, 100000)); };
    if (s.flip()) { c.UpdateSndBufSize(n()); }
    if (s.flip()) { c.UpdateRcvBufSize(n()); }
    if (s.flip()) { c.UpdateSndKernelSize(n()); }
    if (s.flip()) { c.UpdateRcvKernelSize(n()); }
    if (s.flip()) { c.UpdateSndTimeout(n() - 1); }
    if (s.flip()) { c.UpdateRcvTimeout(n() - 1); }
    if (s.flip()) { c.UpdateLinger(n() - 1); }
    if (s.flip()) { c.UpdateRateLogging(n()); }
    if (s.flip()) { c.UpdatePortRangeMin(n()); }
    if (s.flip()) { c.UpdatePortRangeMax(n()); }
    if (s.flip()) { c.UpdateAutoBind(s.flip()); }
    return c;
}

}   // namespace

CASE(map_history, 6)
{
    ProgOptions p;
    Model m = Defaults();
    CheckAll(p, m, s);
    size_t steps = 1 + s.size(24);
    size_t changes = 0;
    for (size_t i = 0; i < steps; ++i) {
        switch (s.weighted({6, 4, 3, 3, 3, 8, 4, 1})) {
            case 0: {
                std::string k = GenKey(s);
                Entry e = GenEntry(s);
                c << " set(" << k << "=" << Show(e) << ")";
                if (s.chance(15)) { Types()[e.type].setValue(p, k, e.value); } else { Types()[e.type].set(p, k, e.value); }
                m[k] = e;
                ++changes;
                break;
            }
            case 1: {
                std::string k = GenKey(s);
                Entry e = GenEntry(s);
                c << " update(" << k << "=" << Show(e) << ")";
                bool r = Types()[e.type].update(p, k, e.value);
                REQ_EQ(r, m.count(k) > 0, "result of UpdateProperty(" << k << ")");
                if (m.count(k)) { m[k] = e; ++changes; }
                c.label("update refused", !r);
                break;
            }
            case 2: {
                std::map<std::string, Entry> es;
                auto in = GenBatch(s, m, es, false);
                c << " setAll(" << in.size() << ")";
                p.SetProperties(in);
                for (auto& [k, e] : es) { m[k] = e; ++changes; }
                break;
            }
            case 3: {
                std::map<std::string, Entry> es;
                auto in = GenBatch(s, m, es, true);
                bool ok = true;
                for (auto& [k, e] : es) { ok = ok && m.count(k); c << " updateAll:" << k; }
                bool r = p.UpdateProperties(in);
                REQ_EQ(r, ok, "result of UpdateProperties");
                if (ok) { for (auto& [k, e] : es) { m[k] = e; ++changes; } }
                c.label("batch update refused", !ok);
                c.label("batch update of several", ok && es.size() > 1);
                break;
            }
            case 4: {
                std::string k = GenKey(s);
                c << " delete(" << k << ")";
                p.DeleteProperty(k);
                m.erase(k);
                break;
            }
            case 5: {
                std::string k = GenKey(s);
                if (!m.empty() && s.chance(70)) { auto it = m.begin(); std::advance(it, s.draw(m.size())); k = it->first; }
                size_t how = s.draw(8);
                c << " read" << how << "(" << k << ")";
                if (m.count(k)) { CheckEntry(p, k, m.at(k), how, s); } else { CheckMissing(p, k, how, s); }
                break;
            }
            case 6: CheckQuery(p, m, s, c); break;
            default: CheckAll(p, m, s);
        }
    }
    CheckAll(p, m, s);
    c.nontrivial(changes > 1);
}

CASE(channels, 3)
{
    ProgOptions p;
    std::map<std::string, std::vector<std::string>> m;   // name -> configurations in order
    size_t steps = 1 + s.size(8);
    std::map<std::string, Channel> kept;
    for (size_t i = 0; i < steps; ++i) {
        std::string n = s.pick({"data", "d", "data2", "x-y", "Data"});
        Channel ch = GenChannel(s);
        c << " add(" << n << ": " << Sig(ch) << ")";
        p.AddChannel(n, ch);
        m[n].push_back(Sig(ch));
        auto info = p.GetChannelInfo();
        REQ_EQ(info.size(), m.size(), "number of channels");
        for (auto& [k, v] : m) {
            REQ(info.count(k), "channel '" << k << "' is not in the channel information");
            REQ_EQ(static_cast<size_t>(info.at(k)), v.size(), "number of sub-channels of " << k);
        }
        for (auto& [k, v] : m) {
            for (size_t j = 0; j < v.size(); ++j) {
                Channel got(k, static_cast<int>(j), p.GetPropertiesStartingWith("chans." + k + "."));
                REQ_EQ(Sig(got), v[j], "channel " << k << "[" << j << "] made from the stored properties");
            }
        }
        // types of the stored values
        auto pre = "chans." + n + "." + std::to_string(m[n].size() - 1) + ".";
        REQ_EQ(p.GetProperty<std::string>(pre + "type"), ch.GetType(), pre << "type");
        REQ_EQ(p.GetProperty<int>(pre + "linger"), ch.GetLinger(), pre << "linger");
        REQ_EQ(p.GetProperty<bool>(pre + "autoBind"), ch.GetAutoBind(), pre << "autoBind");
    }
    c.nontrivial(steps > 1);
}

// --- notifications -------------------------------------------------------------------------------------------------
CASE(notify_history, 6)
{
    ProgOptions p;
    Model m = Defaults();
    struct Sub { size_t type; std::string who; int gen; int action; std::string actKey; };   // type == Types().size(): as string
    const size_t kText = Types().size();
    std::vector<Sub> subs;
    std::multiset<std::string> got, want;
    int gens = 0;
    int depth = 0;
    size_t changes = 0, told = 0, nested = 0;
    std::set<int> acted;
    auto line = [](int gen, const std::string& k, const std::string& fp) { return std::to_string(gen) + ":" + k + "=" + fp; };
    auto expect = [&](const std::string& k, const Entry& e) {
        ++changes;
        for (auto& x : subs) {
            if (x.type == e.type) { want.insert(line(x.gen, k, e.fp)); ++told; }
            if (x.type == kText) { want.insert(line(x.gen, k, e.text)); ++told; }
        }
    };
    // what a callback may do: change or delete properties itself, each subscription once
    std::map<int, Entry> actVal;
    auto called = [&](int gen, const std::string& k, const std::string& fp) {
        got.insert(line(gen, k, fp));
        const Sub* x = nullptr;
        for (auto& y : subs) { if (y.gen == gen) { x = &y; } }
        REQ(x, "a callback that is not subscribed (any more) was called for " << k);
        if (x->action == 0 || acted.count(gen)) { return; }
        acted.insert(gen);
        ++depth;
        ++nested;
        const std::string ak = x->action == 2 || x->action == 3 ? k : x->actKey;
        if (x->action == 3) {
            p.DeleteProperty(ak);
            m.erase(ak);
        } else {
            Entry e = actVal.at(gen);
            m[ak] = e;
            expect(ak, e);
            Types()[e.type].set(p, ak, e.value);
        }
        --depth;
    };
    auto judge = [&](const std::string& what) {
        for (auto& w : want) { REQ(got.count(w) >= want.count(w), "after " << what << ": subscriber was not told: " << w); }
        for (auto& g : got) { REQ(want.count(g) >= got.count(g), "after " << what << ": unexpected notification: " << g); }
        got.clear();
        want.clear();
    };
    bool nestedOk = s.chance(35);
    size_t steps = 2 + s.size(24);
    for (size_t i = 0; i < steps; ++i) {
        std::string what;
        switch (s.weighted({6, 2, 6, 4, 3, 3, 1})) {
            case 0: {
                Sub x{s.chance(30) ? kText : GenType(s), s.pick({"me", "you", "device"}), ++gens, 0, ""};
                if (nestedOk && s.chance(30)) {
                    x.action = 1 + static_cast<int>(s.draw(3));
                    x.actKey = GenKey(s);
                    actVal[x.gen] = GenEntry(s);
                }
                for (auto it = subs.begin(); it != subs.end();) { it = (it->type == x.type && it->who == x.who) ? subs.erase(it) : it + 1; }
                subs.push_back(x);
                c << " sub(" << x.who << "," << (x.type == kText ? "text" : Types()[x.type].name) << (x.action ? "!" : "") << ")";
                int g = x.gen;
                if (x.type == kText) {
                    p.SubscribeAsString(x.who, [called, g](std::string k, std::string v) { called(g, k, v); });
                } else {
                    Types()[x.type].subscribe(p, x.who, [called, g](const std::string& k, const std::string& v) { called(g, k, v); });
                }
                what = "subscribing";
                break;
            }
            case 1: {
                if (subs.empty()) { break; }
                size_t j = s.draw(subs.size());
                Sub x = subs[j];
                subs.erase(subs.begin() + static_cast<long>(j));
                c << " unsub(" << x.who << "," << (x.type == kText ? "text" : Types()[x.type].name) << ")";
                if (x.type == kText) { p.UnsubscribeAsString(x.who); } else { Types()[x.type].unsubscribe(p, x.who); }
                what = "unsubscribing";
                break;
            }
            case 2: {
                std::string k = GenKey(s);
                Entry e = GenEntry(s);
                if (!subs.empty() && s.chance(60)) {   // of a type somebody listens to
                    size_t t = subs[s.draw(subs.size())].type;
                    if (t != kText) { e.type = t; e.text.clear(); e.value = Types()[t].gen(s, e.text, e.fp); }
                }
                c << " set(" << k << "=" << Show(e) << ")";
                m[k] = e;
                expect(k, e);
                Types()[e.type].set(p, k, e.value);
                what = "SetProperty(" + k + ")";
                break;
            }
            case 3: {
                std::string k = GenKey(s);
                if (!m.empty() && s.chance(60)) { auto it = m.begin(); std::advance(it, s.draw(m.size())); k = it->first; }
                Entry e = GenEntry(s);
                c << " update(" << k << "=" << Show(e) << ")";
                bool known = m.count(k) > 0;
                if (known) { m[k] = e; expect(k, e); }
                REQ_EQ(Types()[e.type].update(p, k, e.value), known, "result of UpdateProperty(" << k << ")");
                what = "UpdateProperty(" + k + ")";
                break;
            }
            case 4: {
                std::map<std::string, Entry> es;
                auto in = GenBatch(s, m, es, false);
                c << " setAll(" << in.size() << ")";
                for (auto& [k, e] : es) { m[k] = e; }
                for (auto& [k, e] : es) { expect(k, e); }
                p.SetProperties(in);
                what = "SetProperties";
                break;
            }
            case 5: {
                std::map<std::string, Entry> es;
                auto in = GenBatch(s, m, es, true);
                bool ok = true;
                for (auto& [k, e] : es) { ok = ok && m.count(k); }
                c << " updateAll(" << in.size() << (ok ? ")" : ", refused)");
                if (ok) {
                    for (auto& [k, e] : es) { m[k] = e; }
                    for (auto& [k, e] : es) { expect(k, e); }
                }
                REQ_EQ(p.UpdateProperties(in), ok, "result of UpdateProperties");
                what = "UpdateProperties";
                c.label("refused batch with subscribers", !ok && !subs.empty());
                break;
            }
            default: {
                std::string k = GenKey(s);
                m.erase(k);
                p.DeleteProperty(k);
                what = "DeleteProperty";
            }
        }
        judge(what);
    }
    CheckAll(p, m, s);
    c.nontrivial(told > 0 && changes > 1);
    c.label("callback changes properties", nested > 0);
    c.label("several subscribers told", told > changes);
}

// --- several threads -----------------------------------------------------------------------------------------------
namespace {
struct Plan
{
    int kind;
    int a;
};
std::vector<Plan> GenPlan(pbt::Src& s, size_t max)
{
    std::vector<Plan> r;
    size_t n = 1 + s.size(max);
    for (size_t i = 0; i < n; ++i) { r.push_back({static_cast<int>(s.draw(8)), static_cast<int>(s.draw(4))}); }
    return r;
}
struct Shared
{
    ProgOptions p;
    std::atomic<int> next{1};
    std::atomic<size_t> batches{0}, singles{0}, intNotes{0}, textNotes{0}, bad{0};
    std::mutex mtx;
    std::map<int, std::multiset<std::string>> texts;

    void act(size_t thread, const Plan& pl)
    {
        int v = next++;
        const std::string own = "own" + std::to_string(thread);
        switch (pl.kind) {
            case 0: {
                p.SetProperties({{"p.a", v}, {"p.b", v}, {"p.c", v}});
                ++batches;
                break;
            }
            case 1: {
                bool ok = p.UpdateProperties({{"p.a", v}, {"p.b", v}, {"p.c", v}});
                REQ(ok, "updating existing properties was refused");
                ++batches;
                break;
            }
            case 2: {
                bool ok = p.UpdateProperties({{"p.a", -v}, {"p.b", -v}, {"p.c", -v}, {"missing", 1}});
                REQ(!ok, "updating a missing property was accepted");
                break;
            }
            case 3: {
                auto m = p.GetPropertiesStartingWith("p.");
                check(m);
                break;
            }
            case 4: {
                auto m = p.GetProperties("p\\..");
                check(m);
                break;
            }
            case 5: {
                p.SetProperty<int>(own, v);
                ++singles;
                REQ_EQ(p.GetProperty<int>(own), v, "a thread's own property");
                REQ_EQ(p.GetPropertyAsString(own), std::to_string(v), "a thread's own property as text");
                break;
            }
            case 6: {
                p.SetProperty<int>("shared", v);
                ++singles;
                break;
            }
            default: {
                auto m = p.GetPropertiesAsStringStartingWith("p.");
                REQ(m.size() == 3 && m["p.a"] == m["p.b"] && m["p.b"] == m["p.c"], "half of a batch was seen: " << m["p.a"] << " " << m["p.b"] << " " << m["p.c"]);
            }
        }
    }
    void check(const Properties& m)
    {
        REQ_EQ(m.size(), 3u, "properties found");
        int a = boost::any_cast<int>(m.at("p.a")), b = boost::any_cast<int>(m.at("p.b")), c = boost::any_cast<int>(m.at("p.c"));
        REQ(a == b && b == c && a >= 0, "half of a batch, or a refused one, was seen: " << a << " " << b << " " << c);
    }
    std::mutex logMtx;
    std::multiset<std::string> ints, strs;
    void start()
    {
        p.SetProperties({{"p.a", 0}, {"p.b", 0}, {"p.c", 0}});
        p.SetProperty<int>("shared", 0);
        p.Subscribe<int>("s", [this](std::string k, int v) { std::lock_guard<std::mutex> l(logMtx); ints.insert(k + "=" + std::to_string(v)); });
        p.SubscribeAsString("s", [this](std::string k, std::string v) { std::lock_guard<std::mutex> l(logMtx); strs.insert(k + "=" + v); });
    }
    void finish()
    {
        size_t want = 3 * batches + singles;
        REQ_EQ(ints.size(), want, "typed notifications");
        REQ_EQ(strs.size(), want, "notifications as string");
        for (auto& x : ints) {
            REQ_EQ(ints.count(x), 1u, "typed notifications of " << x);
            REQ_EQ(strs.count(x), 1u, "notifications as string of " << x);
        }
    }
};
}   // namespace

#ifndef NO_INTERPOSE
CASE(scheduled, 3)
{
    vsched::Scheduler sc(s);
    Shared sh;
    sh.start();
    size_t n = 2 + s.draw(3);
    size_t acts = 0;
    for (size_t t = 0; t < n; ++t) {
        auto plan = GenPlan(s, 4);
        acts += plan.size();
        c << " [";
        for (auto& x : plan) { c << x.kind; }
        c << "]";
        sc.spawn([&sh, plan, t] { for (auto& x : plan) { sh.act(t, x); } });
    }
    sc.run();
    sh.finish();
    c.nontrivial(acts > 2 && sc.switches() > 3);
}
#endif
RACY_CASE(threads, 1, 20000)
{
    Shared sh;
    sh.start();
    size_t n = 2 + s.draw(4);
    std::vector<std::vector<Plan>> plans;
    for (size_t t = 0; t < n; ++t) { plans.push_back(GenPlan(s, 10)); }
    std::vector<std::thread> th;
    std::mutex fm;
    std::string failed;
    std::atomic<size_t> ready{0};
    size_t acts = 0;
    for (size_t t = 0; t < n; ++t) {
        acts += plans[t].size();
        th.emplace_back([&, t] {
            ++ready;
            while (ready < n) {}
            try {
                for (auto& x : plans[t]) { sh.act(t, x); }
            } catch (const pbt::Failure& f) {
                std::lock_guard<std::mutex> l(fm);
                failed = f.msg;
            } catch (const std::exception& e) {
                std::lock_guard<std::mutex> l(fm);
                failed = e.what();
            }
        });
    }
    for (auto& t : th) { t.join(); }
    REQ(failed.empty(), failed);
    sh.finish();
    c << n << " threads, " << acts << " operations";
    c.nontrivial(acts > 4);
}

