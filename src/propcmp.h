// comparison of property maps by type and value
#ifndef VERIF_PROPCMP_H
#define VERIF_PROPCMP_H
#include "harness.h"
#include <boost/any.hpp>
#include <fairmq/Properties.h>

inline std::string ShowAny(const boost::any& a)
{
    if (a.type() == typeid(std::string)) { return "string '" + boost::any_cast<std::string>(a) + "'"; }
    if (a.type() == typeid(int)) { return "int " + std::to_string(boost::any_cast<int>(a)); }
    if (a.type() == typeid(bool)) { return boost::any_cast<bool>(a) ? "bool true" : "bool false"; }
    return std::string("type ") + a.type().name();
}
inline void CompareProps(const fair::mq::Properties& got, const fair::mq::Properties& want)
{
    for (auto& [k, v] : want) {
        auto it = got.find(k);
        REQ(it != got.end(), "property '" << k << "' is missing, expected " << ShowAny(v));
        REQ_EQ(ShowAny(it->second), ShowAny(v), "property '" << k << "'");
    }
    for (auto& [k, v] : got) { REQ(want.count(k), "unexpected property '" << k << "' = " << ShowAny(v)); }
}
// one channel's values; unset ones take those of the parent or the documented defaults
struct ChanSpec
{
    std::map<std::string, std::string> str;   // type, method, address, transport
    std::map<std::string, int> num;
    std::map<std::string, bool> flag;
};
inline const std::vector<std::pair<std::string, std::string>>& StrKeys()
{
    static const std::vector<std::pair<std::string, std::string>> k{{"type", "unspecified"}, {"method", "unspecified"}, {"address", "unspecified"}, {"transport", "default"}};
    return k;
}
inline const std::vector<std::pair<std::string, int>>& NumKeys()
{
    static const std::vector<std::pair<std::string, int>> k{{"sndBufSize", 1000}, {"rcvBufSize", 1000}, {"sndKernelSize", 0}, {"rcvKernelSize", 0}, {"sndTimeoutMs", -1}, {"rcvTimeoutMs", -1},
                                                            {"linger", 500}, {"rateLogging", 1}, {"portRangeMin", 22000}, {"portRangeMax", 23000}};
    return k;
}
inline void Expect(fair::mq::Properties& want, const std::string& name, int index, const ChanSpec& common, const ChanSpec* own)
{
    const std::string p = "chans." + name + "." + std::to_string(index) + ".";
    for (auto& [k, d] : StrKeys()) {
        std::string v = d;
        if (common.str.count(k)) { v = common.str.at(k); }
        if (own && own->str.count(k)) { v = own->str.at(k); }
        want.emplace(p + k, v);
    }
    for (auto& [k, d] : NumKeys()) {
        int v = d;
        if (common.num.count(k)) { v = common.num.at(k); }
        if (own && own->num.count(k)) { v = own->num.at(k); }
        want.emplace(p + k, v);
    }
    bool b = true;
    if (common.flag.count("autoBind")) { b = common.flag.at("autoBind"); }
    if (own && own->flag.count("autoBind")) { b = own->flag.at("autoBind"); }
    want.emplace(p + "autoBind", b);
}
#endif
