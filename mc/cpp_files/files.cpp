#include <cstdio>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
#include "ff/En.h"
#include "ff/Item.h"
#include "ff/Mk.h"
#include "ff/Par.h"
#include "zserio/Walker.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/SerializeUtil.h"

// Runs the operations of mc/files.py.
typedef std::vector<std::string> Words;

static std::string raw(const std::string& t)
{
    std::string b;
    if (t != "-")
        for (size_t i = 0; i + 1 < t.size(); i += 2)
            b += static_cast<char>(std::stoi(t.substr(i, 2), nullptr, 16));
    return b;
}
template <typename B> static std::string plain(const B& b)
{
    static const char* const H = "0123456789abcdef";
    std::string s;
    for (auto c : b)
    {
        const uint8_t x = static_cast<uint8_t>(c);
        s += H[x >> 4], s += H[x & 15];
    }
    return s;
}
template <typename B> static std::string hx(const B& b) { return b.size() == 0 ? "-" : plain(b); }
static ff::Item item(const std::string& s)
{
    const size_t c = s.find(',');
    return ff::Item(static_cast<uint8_t>(std::stoi(s)), raw(c + 1 == s.size() ? "-" : s.substr(c + 1)));
}
static ff::Par par(const std::string& s)
{
    const size_t c = s.find(',');
    std::vector<uint8_t> xs;
    std::istringstream in(s.substr(0, c));
    for (std::string w; std::getline(in, w, '.');)
        xs.push_back(static_cast<uint8_t>(std::stoi(w)));
    return ff::Par(xs, s[c + 1] == '1');
}
static std::string shown(const ff::Item& o) { return std::to_string(o.getA()) + "," + plain(o.getS()); }
static std::string shown(const ff::Par& o)
{
    std::string s;
    for (auto x : o.getXs())
        s += (s.empty() ? "" : ".") + std::to_string(x);
    return s + "," + (o.getLast() ? "1" : "0");
}
static std::string shown(ff::En o) { return std::to_string(zserio::enumToValue(o)); }
static std::string shown(const ff::Mk& o) { return std::to_string(o.getValue()); }

template <typename T> static std::string toBuffer(T&& b) { return std::to_string(b.getBitSize()) + " " + hx(std::vector<uint8_t>(b.getBuffer(), b.getBuffer() + b.getByteSize())); }
template <typename T> static std::string json(const T& o, const Words& f)
{
    const bool d = f[4] == "D";
    const uint8_t n = static_cast<uint8_t>(d ? 4 : std::stoi(f[4]));
    const bool w = f[5] == "L1";
    zserio::ArrayLengthWalkFilter flt(1);
    if (f[0] == "jst")
        return hx(d ? w ? zserio::toJsonString(o, flt) : zserio::toJsonString(o) : w ? zserio::toJsonString(o, n, flt) : zserio::toJsonString(o, n));
    if (f[0] == "jss")
    {
        std::ostringstream s;
        if (d) { if (w) zserio::toJsonStream(o, s, flt); else zserio::toJsonStream(o, s); }
        else { if (w) zserio::toJsonStream(o, s, n, flt); else zserio::toJsonStream(o, s, n); }
        return hx(s.str());
    }
    if (d) { if (w) zserio::toJsonFile(o, f[6], flt); else zserio::toJsonFile(o, f[6]); }
    else { if (w) zserio::toJsonFile(o, f[6], n, flt); else zserio::toJsonFile(o, f[6], n); }
    return "ok";
}
static int count = 0;
template <typename T> static T fromJson(const Words& f)
{
    const bool variant = (count & 1) != 0;
    if (f[0] == "kst")
    {
        if (!variant)
            return zserio::fromJsonString<T>(raw(f[2]));
        auto r = zserio::fromJsonString(T::typeInfo(), raw(f[2]));
        return r->getAnyValue().template get<std::reference_wrapper<T>>().get();
    }
    if (f[0] == "kss")
    {
        std::istringstream s(raw(f[2]));
        if (!variant)
            return zserio::fromJsonStream<T>(s);
        auto r = zserio::fromJsonStream(T::typeInfo(), s);
        return r->getAnyValue().template get<std::reference_wrapper<T>>().get();
    }
    if (!variant)
        return zserio::fromJsonFile<T>(f[2]);
    auto r = zserio::fromJsonFile(T::typeInfo(), f[2]);
    return r->getAnyValue().template get<std::reference_wrapper<T>>().get();
}
static std::string run(const Words& f)
{
    const bool variant = (count++ & 1) != 0;
    const std::string& op = f[0];
    if (op == "ser" || op == "sby" || op == "sfi")
    {
        const char k = f[1][0];
        const uint8_t n = static_cast<uint8_t>(std::stoi(f[3]));
        ff::Item i;
        ff::Par p;
        if (k == 'I') i = item(f[2]);
        if (k == 'P') p = par(f[2]);
        if (op == "ser")
        {
            if (k == 'I') return toBuffer(zserio::serialize(i));
            if (k == 'P') return toBuffer(zserio::serialize(p, n));
            if (k == 'E') return toBuffer(zserio::serialize(zserio::valueToEnum<ff::En>(static_cast<uint16_t>(std::stoi(f[2])))));
            ff::Mk m(static_cast<uint8_t>(std::stoi(f[2])));
            return toBuffer(zserio::serialize(m));
        }
        if (op == "sby")
        {
            if (k == 'I') return hx(zserio::serializeToBytes(i));
            if (k == 'P') return hx(zserio::serializeToBytes(p, n));
            if (k == 'E') return hx(zserio::serializeToBytes(zserio::valueToEnum<ff::En>(static_cast<uint16_t>(std::stoi(f[2])))));
            ff::Mk m(static_cast<uint8_t>(std::stoi(f[2])));
            return hx(zserio::serializeToBytes(m));
        }
        if (k == 'I') zserio::serializeToFile(i, f[4]);
        else zserio::serializeToFile(p, f[4], n);
        return "ok";
    }
    if (op == "des")
    {
        const std::string b = raw(f[3]);
        const zserio::BitBuffer bb(zserio::vector<uint8_t>(b.begin(), b.end()), static_cast<size_t>(std::stoi(f[2])));
        switch (f[1][0])
        {
        case 'I': return shown(zserio::deserialize<ff::Item>(bb));
        case 'P': return shown(zserio::deserialize<ff::Par>(bb, static_cast<uint8_t>(std::stoi(f[4]))));
        case 'E': return shown(zserio::deserialize<ff::En>(bb));
        default: return shown(zserio::deserialize<ff::Mk>(bb));
        }
    }
    if (op == "dby")
    {
        const std::string b = raw(f[2]);
        const std::vector<uint8_t> v(b.begin(), b.end());
        switch (f[1][0])
        {
        case 'I': return shown(zserio::deserializeFromBytes<ff::Item>(v));
        case 'P': return shown(zserio::deserializeFromBytes<ff::Par>(v, static_cast<uint8_t>(std::stoi(f[3]))));
        case 'E': return shown(zserio::deserializeFromBytes<ff::En>(v));
        default: return shown(zserio::deserializeFromBytes<ff::Mk>(v));
        }
    }
    if (op == "dfi")
    {
        if (f[1] == "I") return shown(zserio::deserializeFromFile<ff::Item>(f[2]));
        return shown(zserio::deserializeFromFile<ff::Par>(f[2], static_cast<uint8_t>(std::stoi(f[3]))));
    }
    if (op[0] == 'j')
    {
        if (f[1] == "I") return json(item(f[2]), f);
        ff::Par p = par(f[2]);
        p.initialize(static_cast<uint8_t>(std::stoi(f[3])));
        return json(p, f);
    }
    if (op[0] == 'k')
        return f[1] == "I" ? shown(fromJson<ff::Item>(f)) : shown(fromJson<ff::Par>(f));
    if (op == "put")
    {
        const std::string b = raw(f[2]);
        std::ofstream(f[1].c_str(), std::ios::binary | std::ios::trunc).write(b.data(), static_cast<std::streamsize>(b.size()));
        return "ok";
    }
    if (op == "del") { std::remove(f[1].c_str()); return "ok"; }
    if (op == "cat")
    {
        std::ifstream in(f[1].c_str(), std::ios::binary);
        if (!in) return "NONE";
        return hx(std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()));
    }
    int k = 0;
    DIR* d = opendir("/proc/self/fd");
    for (dirent* e = readdir(d); e != nullptr; e = readdir(d))
    {
        char b[4096];
        const ssize_t l = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b);
        if (l > 0 && std::string(b, static_cast<size_t>(l)).find(f[1]) == 0) k++;
    }
    closedir(d);
    (void)variant;
    return std::to_string(k);
}
int main(int, char** a)
{
    std::ifstream in(a[1]);
    std::ofstream out(a[2]);
    for (std::string line; std::getline(in, line);)
    {
        Words f;
        std::istringstream s(line);
        for (std::string w; std::getline(s, w, ' ');)
            f.push_back(w);
        std::string r;
        try { r = run(f); } catch (const std::exception&) { r = "ERR"; }
        out << r << "\n";
    }
    return 0;
}
