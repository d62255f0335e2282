// Replays model traces on generated C++ code: lines  id class mode start end hex json  ->  id and the observations.
#ifndef ZVF_REPLAY_H
#define ZVF_REPLAY_H
#include <cstdint>
#include <string>
#include <vector>
#include <type_traits>
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/BitBuffer.h"
#include "zserio/AllocatorPropagatingCopy.h"
#include "zserio/SerializeUtil.h"
#include "zserio/CppRuntimeException.h"
#ifdef ZVF_JSON
#include "zserio/DebugStringUtil.h"
#endif

namespace zvf
{

struct Line
{
    std::string id, cls, mode;
    size_t start, end;
    std::vector<uint8_t> data;
    std::string json; // decoded; "" with hasJson false when absent
    bool hasJson;
    std::string out;
    std::string stage;
};

std::string b64(const std::string& s);
std::string unb64(const std::string& s);
std::vector<uint8_t> unhex(const std::string& s);
std::string hex(const uint8_t* d, size_t n);

typedef void (*Handler)(Line&);
struct Entry
{
    const char* name;
    Handler fn;
};

template <typename T>
std::string writeTo(T& o, size_t start, size_t capacityBits)
{
    // exactly as many bytes as needed, so that any access behind them is an error (reported by the writer or the address sanitizer)
    std::vector<uint8_t> buf((capacityBits + 7) / 8);
    zserio::BitStreamWriter w(buf.data(), capacityBits, zserio::BitsTag());
    for (size_t i = 0; i < start; ++i)
        w.writeBits(1, 1);
    o.write(w);
    return std::to_string(w.getBitPosition()) + ":" + hex(buf.data(), (w.getBitPosition() + 7) / 8);
}

template <typename T>
auto initChildren(T& o, int) -> decltype(o.initializeChildren(), void())
{
    o.initializeChildren();
}
template <typename T>
void initChildren(T&, long)
{}

template <typename T>
struct Json
{
#ifdef ZVF_JSON
    static std::string to(const T& o)
    {
        const auto s = zserio::toJsonString(o);
        return std::string(s.begin(), s.end());
    }
    static T from(const std::string& s)
    {
        std::istringstream is(s);
        return zserio::fromJsonStream<T>(is);
    }
    static const bool on = true;
#else
    static std::string to(const T&)
    {
        return "";
    }
    static T from(const std::string&)
    {
        throw zserio::CppRuntimeException("no JSON");
    }
    static const bool on = false;
#endif
};

#ifdef ZVF_EQ
template <typename T>
void equality(Line& l)
{
    std::vector<T> v;
    std::string flags;
    for (size_t i = 0; i < l.json.size();)
    {
        const size_t e = l.json.find('\n', i);
        const std::string x = l.json.substr(i, e - i);
        i = e + 1;
        l.stage = x.substr(0, 1);
        const std::string arg = x.substr(x.find(' ', 2) + 1);
        if (x[0] == 'R')
        {
            const std::vector<uint8_t> d = arg == "-" ? std::vector<uint8_t>() : unhex(arg);
            zserio::BitStreamReader r(d.data(), static_cast<size_t>(std::stoul(x.substr(2))), zserio::BitsTag());
            v.emplace_back(r);
        }
        else
        {
            v.push_back(Json<T>::from(unb64(arg)));
            initChildren(v.back(), 0);
        }
        l.stage = "initializeOffsets";
        v.back().initializeOffsets(0);
        const uint32_t h = v.back().hashCode();
        v.back().bitSizeOf(0);
        flags += h == v.back().hashCode() ? '1' : '0';
    }
    l.stage = "equals";
    l.out += "\tOK\t";
    for (size_t i = 0; i < v.size(); ++i)
        l.out += (i > 0 ? "," : "") + std::to_string(v[i].hashCode());
    l.out += "\t";
    for (const T& a : v)
        for (const T& b : v)
            l.out += a == b ? '1' : '0';
    l.stage = "less";
    l.out += "\t";
    for (const T& a : v)
        for (const T& b : v)
            l.out += a < b ? '1' : '0';
    l.out += "\t" + flags;
}
#endif

template <typename T>
void handle(Line& l)
{
#ifdef ZVF_EQ
    equality<T>(l);
#else
    l.stage = "read";
    // exact heap copy of the bits for the address sanitizer
    std::vector<uint8_t> exact(l.data.begin(), l.data.begin() + static_cast<std::ptrdiff_t>((l.end + 7) / 8));
    zserio::BitStreamReader r(exact.data(), l.end, zserio::BitsTag());
    if (l.mode == "W")
    {
        r.setBitPosition(l.start);
        T o(r);
        l.out += "\tOK\t" + std::to_string(r.getBitPosition() - l.start);
        l.stage = "bitSizeOf";
        l.out += "\t" + std::to_string(o.bitSizeOf(l.start));
        l.stage = "initializeOffsets";
        l.out += "\t" + std::to_string(o.initializeOffsets(l.start));
        l.stage = "write";
        l.out += "\t" + writeTo(o, l.start, l.end);
        if (Json<T>::on && l.hasJson)
        {
            l.stage = "toJson";
            l.out += "\t" + b64(Json<T>::to(o));
            l.stage = "fromJson";
            T p = Json<T>::from(l.json);
            l.stage = "initializeChildren";
            initChildren(p, 0);
            l.stage = "initializeOffsets2";
            p.initializeOffsets(l.start);
            l.stage = "write2";
            l.out += "\t" + writeTo(p, l.start, l.end);
            l.stage = "equals";
            l.out += std::string("\t") + (p == o && o == p ? "true" : "false") + (p.hashCode() == o.hashCode() ? "true" : "false");
        }
        else
            l.out += "\t-\t-\t";
        l.stage = "equals";
        zserio::BitStreamReader r2(exact.data(), l.end, zserio::BitsTag());
        r2.setBitPosition(l.start);
        T q(r2);
        l.out += q == o && o == q ? "true" : "false";
        l.out += q.hashCode() == o.hashCode() ? "true" : "false";
        l.stage = "copy";
        T c(q);
        l.out += c == o && c.hashCode() == o.hashCode() && writeTo(c, l.start, l.end) == writeTo(o, l.start, l.end) ? "true" : "false";
        l.stage = "move";
        T m(std::move(c));
        l.out += m == o && writeTo(m, l.start, l.end) == writeTo(o, l.start, l.end) ? "true" : "false";
        l.stage = "assign";
        q = m;
        l.out += q == o && writeTo(q, l.start, l.end) == writeTo(o, l.start, l.end) ? "true" : "false";
        q = std::move(m);
        l.out += q == o ? "true" : "false";
        l.stage = "allocatorCopy";
        T a(zserio::PropagateAllocator, o, typename T::allocator_type());
        l.out += a == o && writeTo(a, l.start, l.end) == writeTo(o, l.start, l.end) ? "true" : "false";
        if (l.start == 0)
        {
            l.stage = "SerializeUtil";
            T s(o);
            const auto bb = zserio::serialize(s);
            const T u = zserio::deserialize<T>(bb);
            l.out += bb.getBitSize() == l.end && u == o ? "true" : "false";
        }
    }
    else if (l.mode == "D")
    {
        T o(r);
        l.out += "\tOK\t" + std::to_string(r.getBitPosition()) + "\t";
        l.stage = "write";
        try
        {
            l.out += writeTo(o, 0, l.end + 512);
        }
        catch (const std::exception& e)
        {
            std::string s(e.what());
            for (char& c : s)
                if (c == '\t' || c == '\n')
                    c = ' ';
            l.out += "EXC " + s;
        }
        l.stage = "toJson";
        l.out += "\t" + (Json<T>::on ? b64(Json<T>::to(o)) : std::string("-"));
    }
    else if (l.mode == "J" && Json<T>::on)
    {
        l.stage = "fromJson";
        T p = Json<T>::from(l.json);
        initChildren(p, 0);
        l.stage = "write";
        const std::string w = writeTo(p, l.start, 1 << 16);
        l.out += "\tOK\t" + w;
    }
#endif
}

} // namespace zvf
#endif
