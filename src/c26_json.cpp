// C26: JSON configuration yields exactly the channels of the selected device.
#include "harness.h"
#include "propcmp.h"
#include <boost/property_tree/ptree.hpp>
#include <fairmq/JSONParser.h>
#include <fairmq/Properties.h>

using namespace fair::mq;

namespace {
std::string Ws(pbt::Src& s)
{
    if (!s.chance(15)) { return ""; }
    return s.pick({" ", "\n", "\t", "  ", "\r\n"});
}
std::string Quote(pbt::Src& s, const std::string& t, bool plain = false)
{
    std::string r = "\"";
    for (char ch : t) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; continue; }
        if (!plain && s.chance(4)) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(ch));
            r += b;
        } else if (ch == '/' && !plain && s.chance(10)) {
            r += "\\/";
        } else {
            r += ch;
        }
    }
    return r + "\"";
}
struct Obj
{
    std::vector<std::pair<std::string, std::string>> m;   // already rendered
    void add(const std::string& k, std::string v) { m.emplace_back(k, std::move(v)); }
    std::string render(pbt::Src& s, bool shuffle = true)
    {
        const auto before = m;
        if (shuffle) { for (size_t i = m.size(); i > 1; --i) { std::swap(m[i - 1], m[i - 1 - s.draw(s.chance(20) ? i : 1)]); } }
        std::map<std::string, size_t> next;   // members of the same name stay in their order
        for (auto& e : m) {
            size_t& n = next[e.first];
            while (before[n].first != e.first) { ++n; }
            e.second = before[n++].second;
        }
        std::string r = "{" + Ws(s);
        for (size_t i = 0; i < m.size(); ++i) { r += (i ? "," + Ws(s) : "") + Quote(s, m[i].first, true) + Ws(s) + ":" + Ws(s) + m[i].second + Ws(s); }
        return r + "}";
    }
};
std::string Array(pbt::Src& s, const std::vector<std::string>& v)
{
    std::string r = "[" + Ws(s);
    for (size_t i = 0; i < v.size(); ++i) { r += (i ? "," + Ws(s) : "") + v[i] + Ws(s); }
    return r + "]";
}
std::string GenText(pbt::Src& s, const std::string& k)
{
    if (k == "type") { return s.pick({"push", "pull", "pub", "sub", "pair", "req", "rep", "", "odd one"}); }
    if (k == "method") { return s.pick({"bind", "connect", ""}); }
    if (k == "transport") { return s.pick({"zeromq", "shmem", "default", "ofi"}); }
    if (s.chance(20)) { return s.str("abc,;:/\"\\ @*{}[]", 0, 12); }
    return s.pick({"tcp://*:", "tcp://localhost:", "ipc://x", "inproc://"}) + std::to_string(s.size(70000));
}
std::string Num(pbt::Src& s, int v) { return s.chance(30) ? "\"" + std::to_string(v) + "\"" : std::to_string(v); }

void GenSpec(pbt::Src& s, ChanSpec& sp, Obj& o, unsigned pct)
{
    for (auto& kd : StrKeys()) {
        if (s.chance(pct)) { sp.str[kd.first] = GenText(s, kd.first); o.add(kd.first, Quote(s, sp.str[kd.first])); }
    }
    for (auto& kd : NumKeys()) {
        if (s.chance(pct / 2)) { sp.num[kd.first] = static_cast<int>(s.edgy(INT32_MIN, INT32_MAX)); o.add(kd.first, Num(s, sp.num[kd.first])); }
    }
    if (s.chance(pct / 2)) {
        bool b = s.flip();
        sp.flag["autoBind"] = b;
        o.add("autoBind", s.pick({b ? "true" : "false", b ? "\"true\"" : "\"false\"", b ? "1" : "0"}));
    }
}
std::string Junk(pbt::Src& s, int depth = 0)
{
    switch (s.draw(depth > 2 ? 4 : 6)) {
        case 0: return std::to_string(s.range(-100, 100));
        case 1: return "\"" + s.str("abc", 0, 5) + "\"";
        case 2: return s.pick({"null", "true", "false", "1.5e3"});
        case 3: return "{}";
        case 4: return "[" + Junk(s, depth + 1) + "," + Junk(s, depth + 1) + "]";
        default: return "{\"" + s.pick({"channels", "devices", "id", "x", "name", "sockets"}) + "\":" + Junk(s, depth + 1) + "}";
    }
}

struct Doc
{
    std::string text;
    std::string id;
    Properties want;
    size_t channels = 0, subchannels = 0, matching = 0;
    bool missingName = false, pieces = false;
};
Doc GenDoc(pbt::Src& s)
{
    Doc d;
    const std::vector<std::string> ids{"sampler1", "sink1", "a", "A", "dev.x", "sampler", "with space", "1"};
    d.id = s.pick(ids);
    std::vector<std::string> devices;
    size_t nd = s.size(s.chance(5) ? 20 : 4);
    for (size_t i = 0; i < nd; ++i) {
        Obj dev;
        bool hasKey = s.chance(25), hasId = s.chance(92);
        std::string key = s.chance(50) ? d.id : s.pick(ids), id = s.chance(50) ? d.id : s.pick(ids);
        if (hasKey) { dev.add("key", Quote(s, key)); }
        if (hasId) { dev.add("id", Quote(s, id)); }
        bool mine = hasKey ? key == d.id : hasId && id == d.id;
        d.matching += mine;
        std::vector<std::string> chans;
        std::set<std::string> names;
        size_t nc = s.size(s.chance(5) ? 20 : 4);
        for (size_t k = 0; k < nc; ++k) {
            Obj ch;
            ChanSpec common;
            std::string name = s.str("abcx_-", 1, 4);
            if (names.count(name)) { continue; }
            names.insert(name);
            if (mine && d.want.count("chans." + name + ".0.type")) { continue; }   // not twice
            bool nameless = s.chance(1);
            if (!nameless) { ch.add("name", Quote(s, name)); }
            if (nameless && mine) { d.missingName = true; }
            GenSpec(s, common, ch, s.pick({0u, 20u, 60u}));
            size_t mode = s.weighted({6, 2, 2});
            int num = 0;
            if (mode == 1 || s.chance(10)) {
                num = s.chance(80) ? static_cast<int>(1 + s.size(s.chance(10) ? 300 : 12)) : 0;
                if (s.chance(10)) { num = -static_cast<int>(s.size(3)); }
                ch.add("numSockets", Num(s, num));
            }
            std::vector<std::string> socks;
            std::vector<ChanSpec> own;
            bool hasSockets = mode == 0 || s.chance(20);
            if (hasSockets) {
                size_t ns = s.size(s.chance(3) ? 100 : 6);
                for (size_t x = 0; x < ns; ++x) {
                    Obj so;
                    ChanSpec sp;
                    GenSpec(s, sp, so, s.pick({0u, 30u, 80u}));
                    if (so.m.empty()) { continue; }   // "{}" is an empty socket: kept apart below
                    if (s.chance(10)) { so.add(s.pick({"comment", "name", "numSockets", "sndbufsize"}), Junk(s, 3)); }
                    own.push_back(sp);
                    socks.push_back(so.render(s));
                }
                // the list may come in pieces
                while (socks.size() > 1 && s.chance(15)) {
                    const size_t k = 1 + s.draw(socks.size() - 1);
                    ch.add("sockets", Array(s, std::vector<std::string>(socks.begin(), socks.begin() + static_cast<long>(k))));
                    socks.erase(socks.begin(), socks.begin() + static_cast<long>(k));
                    d.pieces = true;
                }
                ch.add("sockets", Array(s, socks));
            }
            if (s.chance(10)) { ch.add(s.pick({"comment", "socket", "Type"}), Junk(s)); }
            chans.push_back(ch.render(s));
            if (!mine || nameless) { continue; }
            ++d.channels;
            size_t n = 0;
            if (num > 0) {
                for (int x = 0; x < num; ++x, ++n) { Expect(d.want, name, x, common, nullptr); }
            } else if (!own.empty()) {
                for (size_t x = 0; x < own.size(); ++x, ++n) { Expect(d.want, name, static_cast<int>(x), common, &own[x]); }
            } else {
                Expect(d.want, name, 0, common, nullptr);
                n = 1;
            }
            d.subchannels += n;
        }
        while (chans.size() > 1 && s.chance(10)) {
            dev.add("channels", Array(s, {chans.front()}));
            chans.erase(chans.begin());
            d.pieces = true;
        }
        if (s.chance(93) || !chans.empty()) { dev.add("channels", Array(s, chans)); }
        if (s.chance(10)) { dev.add(s.pick({"comment", "channel", "rate"}), Junk(s)); }
        devices.push_back(dev.render(s));
    }
    Obj opt;
    while (devices.size() > 1 && s.chance(10)) {
        opt.add("devices", Array(s, {devices.front()}));
        devices.erase(devices.begin());
        d.pieces = true;
    }
    opt.add("devices", Array(s, devices));
    if (s.chance(10)) { opt.add(s.pick({"comment", "device"}), Junk(s)); }
    Obj root;
    root.add("fairMQOptions", opt.render(s));
    if (s.chance(10)) { root.add("other", Junk(s)); }
    d.text = Ws(s) + root.render(s) + Ws(s);
    return d;
}
std::string WriteFile(const std::string& text)
{
    std::string f = pbt::Scratch() + "/c26." + std::to_string(getpid()) + ".json";
    std::ofstream o(f, std::ios::binary);
    o << text;
    return f;
}
}   // namespace

CASE(documents, 4)
{
    Doc d = GenDoc(s);
    c << "id '" << d.id << "' " << d.text;
    std::string f = WriteFile(d.text);
    c.label("channel without a name", d.missingName);
    if (d.missingName) {
        bool threw = false;
        try { JSONParser(f, d.id); } catch (const std::exception&) { threw = true; }
        REQ(threw, "a channel without a name was accepted");
        return;
    }
    Properties got = JSONParser(f, d.id);
    CompareProps(got, d.want);
    REQ_THROWS(ParserError, JSONParser(f, ""), "no device id");
    c.nontrivial(d.channels > 0);
    c.label("several sub-channels", d.subchannels > d.channels);
    c.label("a list in several pieces", d.pieces);
    c.label("no device matches", d.matching == 0);
    c.label("several devices match", d.matching > 1);
}

// damaged documents are reported by an exception or read as something; they never crash
CASE(damaged, 3)
{
    Doc d = GenDoc(s);
    std::string t = d.text;
    size_t edits = 1 + s.size(4);
    for (size_t i = 0; i < edits; ++i) {
        size_t p = s.draw(t.size() + 1);
        switch (s.draw(5)) {
            case 0: t.insert(p, 1, "{}[]\",:\\/0-.ue \n"[s.draw(16)]); break;
            case 1: t.erase(p, 1 + s.size(10)); break;
            case 2: if (p < t.size()) { t[p] = static_cast<char>(s.draw(256)); } break;
            case 3: t = t.substr(0, p); break;
            default: { size_t q = s.draw(t.size() + 1); t.insert(p, t.substr(q, s.size(30))); }
        }
    }
    // (an absurd number of sub-channels is a valid wish)
    for (size_t p = t.find("numSockets"); p != std::string::npos; p = t.find("numSockets", p + 1)) {
        size_t digits = 0;
        for (size_t i = p; i < t.size() && i < p + 30; ++i) { digits += isdigit(static_cast<unsigned char>(t[i])) != 0; }
        if (digits > 3) { throw pbt::Discard{}; }
    }
    c << "id '" << d.id << "' " << t;
    std::string f = WriteFile(t);
    try {
        Properties got = JSONParser(f, d.id);
        for (auto& [k, v] : got) {
            REQ(k.rfind("chans.", 0) == 0, "property '" << k << "' is no channel property");
            std::string last = k.substr(k.rfind('.') + 1);
            bool isStr = false, isNum = false;
            for (auto& x : StrKeys()) { isStr = isStr || x.first == last; }
            for (auto& x : NumKeys()) { isNum = isNum || x.first == last; }
            REQ(isStr ? v.type() == typeid(std::string) : isNum ? v.type() == typeid(int) : last == "autoBind" && v.type() == typeid(bool), "property '" << k << "' is a " << ShowAny(v));
        }
        c.label("still read");
    } catch (const std::exception&) {
        c.label("reported");
    }
    c.nontrivial();
}

CASE(errors, 1)
{
    std::string dir = pbt::Scratch();
    switch (s.draw(5)) {
        case 0: {
            bool threw = false;
            try { JSONParser(dir + "/does-not-exist.json", "a"); } catch (const std::exception&) { threw = true; }
            REQ(threw, "a missing file was accepted");
            c << "missing file";
            break;
        }
        case 1: {
            std::string t = s.pick({"", "{", "[]x", "{\"fairMQOptions\"}", "{\"fairMQOptions\":{\"devices\":[}}", "garbage", "{\"a\":1"});
            std::string f = WriteFile(t);
            bool threw = false;
            try { JSONParser(f, "a"); } catch (const std::exception&) { threw = true; }
            REQ(threw, "a malformed document was accepted: " << t);
            c << "malformed " << t;
            break;
        }
        case 2: {
            std::string t = s.pick({"{}", "{\"fairmqoptions\":{}}", "{\"devices\":[]}", "[]"});
            std::string f = WriteFile(t);
            bool threw = false;
            try { JSONParser(f, "a"); } catch (const std::exception&) { threw = true; }
            REQ(threw, "a document without fairMQOptions was accepted: " << t);
            c << "no options " << t;
            break;
        }
        case 3: {
            boost::property_tree::ptree pt;
            pt.add_child("fairMQOptions.devices", {});
            REQ_THROWS(ParserError, PtreeParser(pt, ""), "no device id");
            REQ(PtreeParser(pt, "x").empty(), "properties from nowhere");
            c << "tree";
            break;
        }
        default: {
            Doc d = GenDoc(s);
            std::string f = WriteFile(d.text);
            std::string other = d.id + s.str("xyz", 1, 3);
            if (!d.missingName) { REQ(JSONParser(f, other).empty(), "another device's channels were read"); }
            c << "other id";
        }
    }
    c.nontrivial();
}
