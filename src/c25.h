#ifndef C25_H
#define C25_H
#include "harness.h"
#include <boost/any.hpp>
#include <cmath>
#include <filesystem>
#include <fairmq/Properties.h>
#include <fairmq/PropertyOutput.h>

namespace c25 {

namespace fs = std::filesystem;

struct Hit
{
    size_t type;   // index of the subscribed type
    std::string key;
    std::string text;
};

struct Type
{
    std::string name;    // documented label
    bool vector;
    // a generated property, its expected text, and the fingerprint of its value
    std::function<boost::any(pbt::Src&, std::string& text, std::string& value)> make;
    // typed subscription; fingerprint of the value received
    std::function<void(fair::mq::EventManager&, const std::string& sub, std::function<void(const std::string& key, const std::string& value)>)> subscribe;
    std::string receivedAs;   // type under which the change is announced
};

std::vector<Type>& Types();

inline std::string Fmt(const char* f, ...)
{
    char b[512];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof(b), f, a);
    va_end(a);
    return b;
}

std::string GenText(pbt::Src& s);

template<typename T> struct G;
template<> struct G<char> {
    static char gen(pbt::Src& s) { return static_cast<char>(s.flip() ? 33 + s.draw(94) : s.draw(256)); }
    static std::string text(char v) { return std::string(1, v); }
};
template<typename T>
struct GInt {
    static T gen(pbt::Src& s)
    {
        switch (s.draw(5)) {
            case 0: return static_cast<T>(s.draw(20));
            case 1: return std::numeric_limits<T>::min();
            case 2: return std::numeric_limits<T>::max();
            case 3: return static_cast<T>(0 - s.draw(20));
            default: return static_cast<T>(s.u64());
        }
    }
    static std::string text(T v)
    {
        if (std::is_signed<T>::value) { return Fmt("%lld", static_cast<long long>(v)); }
        return Fmt("%llu", static_cast<unsigned long long>(v));
    }
};
template<> struct G<signed char> : GInt<signed char> {};
template<> struct G<unsigned char> : GInt<unsigned char> {};
template<> struct G<int> : GInt<int> {};
template<> struct G<short> : GInt<short> {};
template<> struct G<long> : GInt<long> {};
template<> struct G<long long> : GInt<long long> {};
template<> struct G<unsigned> : GInt<unsigned> {};
template<> struct G<unsigned short> : GInt<unsigned short> {};
template<> struct G<unsigned long> : GInt<unsigned long> {};
template<> struct G<unsigned long long> : GInt<unsigned long long> {};
template<typename T>
struct GFloat {
    static T gen(pbt::Src& s)
    {
        switch (s.draw(6)) {
            case 0: return static_cast<T>(s.draw(100));
            case 1: return static_cast<T>(static_cast<double>(s.range(-100000, 100000)) / 64);
            case 2: return static_cast<T>(1.0 / static_cast<double>(1 + s.draw(1000)));
            case 3: { T l[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min(), T(-0.0), std::numeric_limits<T>::quiet_NaN()}; return l[s.draw(7)]; }
            case 4: return static_cast<T>(std::ldexp(static_cast<double>(s.u64()), static_cast<int>(s.range(-180, 60))));
            default: return static_cast<T>(-1000000 + static_cast<int64_t>(s.draw(2000001)));
        }
    }
    static std::string text(T v) { return std::is_same<T, long double>::value ? Fmt("%Lg", static_cast<long double>(v)) : Fmt("%g", static_cast<double>(v)); }
};
template<> struct G<float> : GFloat<float> {};
template<> struct G<double> : GFloat<double> {};
template<> struct G<long double> : GFloat<long double> {};
template<> struct G<bool> {
    static bool gen(pbt::Src& s) { return s.flip(); }
    static std::string text(bool v) { return v ? "true" : "false"; }
};
template<> struct G<std::string> {
    static std::string gen(pbt::Src& s) { return GenText(s); }
    static std::string text(const std::string& v) { return v; }
};
template<> struct G<fs::path> {
    static fs::path gen(pbt::Src& s) { return GenText(s); }
    static std::string text(const fs::path& v)   // quoted, as std::filesystem prints paths
    {
        std::string r = "\"";
        for (char ch : v.string()) { if (ch == '"' || ch == '\\') { r += '\\'; } r += ch; }
        return r + "\"";
    }
};

template<typename T>
std::string Bits(const T& v) { return G<T>::text(v) + (std::is_floating_point<T>::value && v == 0 && std::signbit(static_cast<long double>(v)) ? "-" : ""); }
template<typename T>
struct PrintF { static std::string p(const T& v) { return Fmt("%a", static_cast<double>(v)); } };
template<typename T>
std::string Value(const T& v)
{
    if constexpr (std::is_same<T, long double>::value) { return Fmt("%La", v); }
    else if constexpr (std::is_floating_point<T>::value) { return Fmt("%a", static_cast<double>(v)); }
    else { return G<T>::text(v); }
}
template<typename T>
std::string ValueV(const std::vector<T>& v)
{
    std::string r = "[" + std::to_string(v.size()) + "]";
    for (size_t i = 0; i < v.size(); ++i) { T x = v[i]; r += Value<T>(x) + "\x01"; }
    return r;
}

template<typename T>
void AddScalar(const std::string& label)
{
    Type t;
    t.name = t.receivedAs = label;
    t.vector = false;
    t.make = [](pbt::Src& s, std::string& text, std::string& value) {
        T v = G<T>::gen(s);
        text = G<T>::text(v);
        value = Value<T>(v);
        return boost::any(v);
    };
    t.subscribe = [](fair::mq::EventManager& m, const std::string& sub, std::function<void(const std::string&, const std::string&)> f) {
        m.Subscribe<fair::mq::PropertyChange, T>(sub, std::function<void(std::string, T)>([f](std::string k, T v) { f(k, Value<T>(v)); }));
    };
    Types().push_back(t);
}
template<typename T>
void AddVector(const std::string& label)
{
    Type t;
    t.name = t.receivedAs = label;
    t.vector = true;
    t.make = [](pbt::Src& s, std::string& text, std::string& value) {
        std::vector<T> v;
        size_t n = s.size(12);
        text.clear();
        for (size_t i = 0; i < n; ++i) {
            T x = G<T>::gen(s);
            v.push_back(x);
            text += (i ? ", " : "") + G<T>::text(x);
        }
        value = ValueV<T>(v);
        return boost::any(v);
    };
    t.subscribe = [](fair::mq::EventManager& m, const std::string& sub, std::function<void(const std::string&, const std::string&)> f) {
        m.Subscribe<fair::mq::PropertyChange, std::vector<T>>(sub, std::function<void(std::string, std::vector<T>)>([f](std::string k, std::vector<T> v) { f(k, ValueV<T>(v)); }));
    };
    Types().push_back(t);
}

void AddA();
void AddB();
void AddC();
void AddD();

}   // namespace c25
#endif
