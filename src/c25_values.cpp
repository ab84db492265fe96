// C25: printed form, label and announcement of every supported property type
#include "c25.h"

using namespace fair::mq;

namespace c25 {
std::vector<Type>& Types()
{
    static std::vector<Type> t;
    return t;
}
std::string GenText(pbt::Src& s)
{
    switch (s.draw(4)) {
        case 0: return s.pick({"", "a", "x, y", "/tmp/a b/c.d", "\"q\"", "back\\slash", " lead", "true", "1e5", "\n"});
        case 1: { std::string r; size_t n = s.draw(12); for (size_t i = 0; i < n; ++i) { r += static_cast<char>(1 + s.draw(255)); } return r; }
        case 2: { std::string r; size_t n = s.draw(400); r.assign(n, static_cast<char>('a' + s.draw(26))); return r; }
        default: return s.str("abcXYZ019 ,;=\"\\/._-\t", 0, 24);
    }
}
}   // namespace c25

namespace {

using namespace c25;

struct Setup
{
    Setup() { AddA(); AddB(); AddC(); AddD(); }
} setup;

// types that are not supported
struct Opaque { int x; };
struct Custom { int a; };
std::ostream& operator<<(std::ostream& os, const Custom& v) { return os << "custom(" << v.a << ")"; }

size_t IndexOf(const std::string& name)
{
    for (size_t i = 0; i < Types().size(); ++i) { if (Types()[i].name == name) { return i; } }
    throw std::runtime_error("no type " + name);
}

void Printed(const boost::any& p, const std::string& text, const std::string& label)
{
    auto info = PropertyHelper::GetPropertyInfo(p);
    REQ(info.first == text, label << " printed as \"" << info.first << "\" instead of \"" << text << "\"");
    REQ_EQ(info.second, label, "label");
    REQ(PropertyHelper::ConvertPropertyToString(p) == text, label << " converted to \"" << PropertyHelper::ConvertPropertyToString(p) << "\" instead of \"" << text << "\"");
    std::ostringstream o;
    o << p;
    REQ(o.str() == text, label << " streamed as \"" << o.str() << "\" instead of \"" << text << "\"");
}

}   // namespace

CASE(print, 5)
{
    auto& t = Types()[s.draw(Types().size())];
    std::string text, value;
    boost::any p = t.make(s, text, value);
    c << t.name << " " << text;
    Printed(p, text, t.name);
    // a copy is the same property
    boost::any q = p;
    Printed(q, text, t.name);
    c.label(t.name);
    c.nontrivial(!text.empty());
}

CASE(announce, 3)
{
    EventManager m;
    struct Got { std::string sub, key, value; };
    std::vector<Got> got;
    size_t ti = s.draw(Types().size() + 1);
    // the changed property: one of the types, or a C string, announced as string
    std::string text, value, key = s.pick({"a", "chans.data.0.rateLogging", "", "k k"});
    boost::any p;
    static std::string holder;
    size_t as;
    if (ti == Types().size()) {
        holder = GenText(s).c_str();
        p = boost::any(static_cast<const char*>(holder.c_str()));
        as = IndexOf("string");
        value = holder;
        c << "const char* " << holder;
        Printed(p, holder, "string");
    } else {
        p = Types()[ti].make(s, text, value);
        as = ti;
        c << Types()[ti].name << " " << text;
    }
    // subscribers: of this type under generated names, and of some other types
    size_t own = s.draw(4), others = s.draw(6);
    std::multiset<std::string> expected;
    for (size_t i = 0; i < own; ++i) {
        std::string sub = "own" + std::to_string(i);
        Types()[as].subscribe(m, sub, [&got, sub](const std::string& k, const std::string& v) { got.push_back({sub, k, v}); });
        expected.insert(sub);
    }
    for (size_t i = 0; i < others; ++i) {
        size_t o = s.draw(Types().size());
        std::string sub = "other" + std::to_string(i);
        if (o == as) { expected.insert(sub); }
        Types()[o].subscribe(m, sub, [&got, sub](const std::string& k, const std::string& v) { got.push_back({sub, k, v}); });
    }
    auto it = PropertyHelper::fEventEmitters.find(std::type_index(p.type()));
    REQ(it != PropertyHelper::fEventEmitters.end(), "every printable type can be announced");
    it->second(m, key, p);
    std::multiset<std::string> subs;
    for (auto& g : got) {
        subs.insert(g.sub);
        REQ(g.key == key, g.sub << " was told key \"" << g.key << "\" instead of \"" << key << "\"");
        REQ(g.value == value, g.sub << " was told another value: \"" << g.value << "\" instead of \"" << value << "\"");
    }
    std::string a, b;
    for (auto& x : subs) { a += x + " "; }
    for (auto& x : expected) { b += x + " "; }
    REQ_EQ(a, b, "subscribers told of a change of type " << Types()[as].name);
    c.nontrivial(!expected.empty());
}

CASE(unsupported, 1)
{
    boost::any p;
    std::string what;
    switch (s.draw(8)) {
        case 0: p = boost::any(); what = "empty"; break;
        case 1: p = Opaque{1}; what = "struct"; break;
        case 2: p = std::vector<Opaque>(s.draw(3)); what = "vector of struct"; break;
        case 3: p = static_cast<void*>(nullptr); what = "void*"; break;
        case 4: p = std::make_pair(1, 2); what = "pair"; break;
        case 5: p = wchar_t(L'x'); what = "wchar_t"; break;
        case 6: p = std::vector<const char*>{"a"}; what = "vector of C strings"; break;
        default: p = std::map<int, int>{}; what = "map"; break;
    }
    c << what;
    auto info = PropertyHelper::GetPropertyInfo(p);
    REQ_EQ(info.first, "[unidentified_type]", "printed form of " << what);
    REQ_EQ(info.second, "[unidentified_type]", "label of " << what);
    REQ_THROWS(std::out_of_range, PropertyHelper::ConvertPropertyToString(p), "conversion of " << what);
    std::ostringstream o;
    o << p;
    REQ_EQ(o.str(), "[unidentified_type]", "streamed form of " << what);
    REQ(PropertyHelper::fEventEmitters.count(std::type_index(p.type())) == 0, "no announcement of " << what);
    c.nontrivial();
}

// a type added by the user behaves like the built-in ones and disturbs none of them
CASE(added, 1)
{
    int a = static_cast<int>(s.edgy(-1000000, 1000000));
    std::string label = s.pick({"", "Custom", "my custom"});
    if (label.empty()) { PropertyHelper::AddType<Custom>(); label = boost::core::demangle(typeid(Custom).name()); }
    else { PropertyHelper::AddType<Custom>(label); }
    boost::any p = Custom{a};
    c << label << " " << a;
    Printed(p, "custom(" + std::to_string(a) + ")", label);
    EventManager m;
    int calls = 0, value = 0;
    m.Subscribe<PropertyChange, Custom>("x", std::function<void(std::string, Custom)>([&](std::string, Custom v) { ++calls; value = v.a; }));
    PropertyHelper::fEventEmitters.at(std::type_index(typeid(Custom)))(m, "k", p);
    REQ_EQ(calls, 1, "announcements of the added type");
    REQ_EQ(value, a, "announced value");
    auto& t = Types()[s.draw(Types().size())];
    std::string text, v;
    boost::any q = t.make(s, text, v);
    Printed(q, text, t.name);
    c.nontrivial();
}
