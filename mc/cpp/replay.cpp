#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <typeinfo>
#include "replay.h"

namespace zvf
{
extern const Entry entries[];
extern const size_t numEntries;

static const char* const B = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string b64(const std::string& s)
{
    std::string o;
    uint32_t acc = 0;
    int n = 0;
    for (unsigned char c : s)
    {
        acc = (acc << 8) | c;
        for (n += 8; n >= 6; n -= 6)
            o += B[(acc >> (n - 6)) & 63];
        acc &= 0xFF;
    }
    if (n > 0)
        o += B[(acc << (6 - n)) & 63];
    while (o.size() % 4 != 0)
        o += '=';
    return o;
}

std::string unb64(const std::string& s)
{
    std::string o;
    uint32_t acc = 0;
    int n = 0;
    const std::string t(B);
    for (char c : s)
    {
        if (c == '=')
            break;
        acc = ((acc << 6) | static_cast<uint32_t>(t.find(c))) & 0xFFFFFF;
        n += 6;
        if (n >= 8)
        {
            o += static_cast<char>((acc >> (n - 8)) & 0xFF);
            n -= 8;
        }
    }
    return o;
}

std::string hex(const uint8_t* d, size_t n)
{
    static const char* const H = "0123456789abcdef";
    std::string s;
    s.reserve(2 * n);
    for (size_t i = 0; i < n; ++i)
    {
        s += H[d[i] >> 4];
        s += H[d[i] & 15];
    }
    return s;
}

static uint8_t nib(char c)
{
    return static_cast<uint8_t>(c <= '9' ? c - '0' : c - 'a' + 10);
}

std::vector<uint8_t> unhex(const std::string& s)
{
    std::vector<uint8_t> d;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        d.push_back(static_cast<uint8_t>(nib(s[i]) << 4 | nib(s[i + 1])));
    return d;
}

static int run(const char* in, const char* outName)
{
    std::map<std::string, Handler> fns;
    for (size_t i = 0; i < numEntries; ++i)
        fns[entries[i].name] = entries[i].fn;
    std::ifstream f(in);
    std::ofstream out(outName);
    std::string line;
    while (std::getline(f, line))
    {
        std::vector<std::string> p;
        std::stringstream ss(line);
        std::string x;
        while (std::getline(ss, x, '\t'))
            p.push_back(x);
        while (p.size() < 7)
            p.push_back("");
        Line l;
        l.id = p[0];
        l.cls = p[1];
        l.mode = p[2];
        l.start = std::stoul(p[3]);
        l.end = std::stoul(p[4]);
        l.data = unhex(p[5]);
        l.hasJson = p[6] != "-" && p[6] != "+";
        if (l.hasJson)
            l.json = unb64(p[6]);
        l.out = l.id;
        l.stage = "load";
        try
        {
            fns.at(l.cls)(l);
        }
        catch (const std::exception& e)
        {
            l.out = l.id + "\tEXC\t" + l.stage + "\t" + typeid(e).name() + "\t" + b64(e.what());
        }
        out << l.out << "\n";
    }
    return 0;
}
} // namespace zvf

int main(int, char** a)
{
    return zvf::run(a[1], a[2]);
}
