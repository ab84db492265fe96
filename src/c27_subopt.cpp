// C27: channel option strings yield exactly the described channels, or an error.
#include "harness.h"
#include "propcmp.h"
#include <fairmq/JSONParser.h>
#include <fairmq/Properties.h>
#include <fairmq/SuboptParser.h>

using namespace fair::mq;

namespace {
std::string Value(pbt::Src& s, const std::string& k)
{
    if (k == "type") { return s.pick({"push", "pull", "pub", "sub", "pair", "dealer", "x"}); }
    if (k == "method") { return s.pick({"bind", "connect", "y"}); }
    if (k == "transport") { return s.pick({"zeromq", "shmem", "default"}); }
    if (s.chance(25)) { return s.str("abc/:;=@*.+- []{}", 1, 14); }
    return s.pick({"tcp://*:", "tcp://localhost:", "ipc://x", "inproc://", "@tcp://127.0.0.1:"}) + std::to_string(s.size(70000));
}
struct Desc
{
    std::string text, name;
    ChanSpec common;
    std::vector<std::string> addresses;
    int numSockets = 0;
};
Desc Gen(pbt::Src& s, const std::string& name)
{
    Desc d;
    d.name = name;
    std::vector<std::pair<std::string, std::string>> kv;
    bool prefix = s.chance(35), named = !prefix || s.chance(10);
    std::string shown = name;
    if (named) { kv.emplace_back("name", name); }
    if (prefix && named && s.flip()) { shown = "other"; }   // the name given last counts
    for (auto& k : StrKeys()) {
        if (k.first == "address") { continue; }
        if (s.chance(60)) { d.common.str[k.first] = Value(s, k.first); kv.emplace_back(k.first, d.common.str[k.first]); }
    }
    for (auto& k : NumKeys()) {
        if (s.chance(20)) { d.common.num[k.first] = static_cast<int>(s.edgy(INT32_MIN, INT32_MAX)); kv.emplace_back(k.first, std::to_string(d.common.num[k.first])); }
    }
    if (s.chance(20)) {
        bool b = s.flip();
        d.common.flag["autoBind"] = b;
        kv.emplace_back("autoBind", b ? s.pick({"true", "1"}) : s.pick({"false", "0"}));
    }
    if (s.chance(15)) {
        d.numSockets = static_cast<int>(s.size(s.chance(10) ? 300 : 8));
        kv.emplace_back("numSockets", std::to_string(d.numSockets));
    }
    if (d.numSockets == 0) {
        size_t n = s.chance(60) ? 1 : s.size(s.chance(5) ? 60 : 5);
        for (size_t i = 0; i < n; ++i) { d.addresses.push_back(Value(s, "address")); kv.emplace_back("address", d.addresses.back()); }
    }
    // any order (addresses keep theirs); a repeated key: the last one counts
    std::vector<std::pair<std::string, std::string>> out;
    std::vector<size_t> adr;
    for (size_t i = kv.size(); i > 1; --i) { std::swap(kv[i - 1], kv[s.draw(i)]); }
    size_t a = 0;
    for (auto& x : kv) { if (x.first == "address") { x.second = d.addresses[a++]; } }
    for (auto& x : kv) {
        if (x.first != "address" && x.first != "name" && s.chance(5)) { out.emplace_back(x.first, x.first == "autoBind" ? "true" : "7"); }
        if (s.chance(4)) { out.emplace_back(s.pick({"unknown", "names", "typ", "Address", "sndbufsize"}), "1"); }
        out.push_back(x);
    }
    if (prefix) { d.text = shown + ":"; }
    for (size_t i = 0; i < out.size(); ++i) { d.text += (i ? "," : "") + out[i].first + "=" + out[i].second; }
    if (s.chance(5)) { d.text += ","; }
    return d;
}
}   // namespace

CASE(descriptions, 4)
{
    std::vector<std::string> texts;
    Properties want;
    std::set<std::string> names;
    size_t n = s.size(5);
    size_t subs = 0;
    for (size_t i = 0; i < n; ++i) {
        std::string name = s.str("abcxyz_-01", 1, 5);
        if (!names.insert(name).second || name == "other") { continue; }
        Desc d = Gen(s, name);
        texts.push_back(d.text);
        c << "'" << d.text << "' ";
        if (d.numSockets > 0) {
            for (int k = 0; k < d.numSockets; ++k) { Expect(want, name, k, d.common, nullptr); }
            subs += static_cast<size_t>(d.numSockets);
        } else if (d.addresses.empty()) {
            Expect(want, name, 0, d.common, nullptr);
            ++subs;
        } else {
            for (size_t k = 0; k < d.addresses.size(); ++k) {
                ChanSpec own;
                own.str["address"] = d.addresses[k];
                Expect(want, name, static_cast<int>(k), d.common, &own);
            }
            subs += d.addresses.size();
        }
    }
    const std::vector<std::string> before = texts;
    std::string id = s.pick({"dev", "a", "with space", "x.y"});
    Properties got = SuboptParser(texts, id);
    CompareProps(got, want);
    REQ(texts == before, "the descriptions were changed");
    REQ_THROWS(ParserError, SuboptParser(texts, ""), "no device id");
    c.nontrivial(subs > 0);
    c.label("several channels", texts.size() > 1);
    c.label("several sub-channels", subs > texts.size());
}

// anything else is reported or read as something, but never crashes
CASE(arbitrary, 3)
{
    std::vector<std::string> texts;
    size_t n = 1 + s.size(2);
    static const char* words[] = {"name", "type", "method", "address", "transport", "sndBufSize", "linger", "autoBind", "numSockets", "portRangeMin", "=", "=", ",", ",", ":", " ", "a", "1", "-5", "true", "tcp://x:1", "push", "\"", "", "foo"};
    for (size_t i = 0; i < n; ++i) {
        std::string t;
        if (s.chance(40)) {
            t = Gen(s, s.str("abc", 1, 3)).text;
            size_t edits = 1 + s.size(3);
            for (size_t k = 0; k < edits; ++k) {
                size_t p = s.draw(t.size() + 1);
                switch (s.draw(4)) {
                    case 0: t.insert(p, 1, ",=: \"a1"[s.draw(7)]); break;
                    case 1: t.erase(p, 1 + s.size(12)); break;
                    case 2: if (p < t.size()) { t[p] = static_cast<char>(s.draw(256)); } break;
                    default: t = t.substr(0, p);
                }
            }
        } else {
            size_t k = s.size(12);
            for (size_t x = 0; x < k; ++x) { t += s.chance(95) ? words[s.draw(25)] : std::string(1, static_cast<char>(s.draw(256))); }
        }
        for (size_t p = t.find("numSockets"); p != std::string::npos; p = t.find("numSockets", p + 1)) {
            size_t digits = 0;
            for (size_t x = p; x < t.size() && x < p + 30; ++x) { digits += isdigit(static_cast<unsigned char>(t[x])) != 0; }
            if (digits > 3) { throw pbt::Discard{}; }
        }
        texts.push_back(t);
        c << "'" << t << "' ";
    }
    try {
        Properties got = SuboptParser(texts, "dev");
        for (auto& [k, v] : got) { REQ(k.rfind("chans.", 0) == 0, "property '" << k << "' is no channel property"); }
        c.label("read");
    } catch (const std::exception&) {
        c.label("reported");
    }
    c.nontrivial();
}

// a description without a channel name, or with a key without its value
CASE(incomplete, 2)
{
    std::string name = s.str("abc", 1, 4);
    bool named = s.flip();
    std::string t = named ? "name=" + name : "type=push";
    std::vector<std::string> keys{"name", "address", "type", "method", "transport", "linger", "numSockets", "autoBind"};
    std::string bare;
    bool dropName = false;
    if (s.chance(80)) {
        bare = s.pick(keys);
        if (s.flip()) { t += "," + bare; } else { t = bare + "," + t; }
        dropName = bare == "name";
    }
    if (named) { t += ",method=bind"; }
    c << "'" << t << "'";
    bool threw = false;
    Properties got;
    try {
        got = SuboptParser({t}, "dev");
    } catch (const std::exception&) {
        threw = true;
    }
    if (!named) { REQ(threw, "a description without a channel name was accepted"); }
    if (named && !threw) {
        // what was spelled is kept
        Properties want;
        ChanSpec sp;
        sp.str["method"] = "bind";
        Expect(want, name, 0, sp, nullptr);
        CompareProps(got, want);
    }
    c.nontrivial();
    c.label("reported", threw);
    c.label("bare name", dropName);
}
