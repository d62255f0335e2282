// Parses JSON texts in several chunkings: lines  hex of the text  ->  events and outcome, "=" for every agreeing chunking.
#include <algorithm>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "zserio/JsonEncoder.h"
#include "zserio/JsonParser.h"

struct Drip : std::streambuf
{
    Drip(const std::string& t, size_t n) : s(t), k(n) {}
    std::streamsize xsgetn(char* b, std::streamsize len) override
    {
        size_t n = std::min(std::min(static_cast<size_t>(len), k), s.size() - pos);
        std::memcpy(b, s.data() + pos, n);
        pos += n;
        return static_cast<std::streamsize>(n);
    }
    std::string s;
    size_t k, pos = 0;
};

static std::string hex(zserio::StringView v)
{
    std::string o;
    for (char c : v)
    {
        o += "0123456789abcdef"[(c >> 4) & 15];
        o += "0123456789abcdef"[c & 15];
    }
    return o;
}

struct Obs : zserio::JsonParser::IObserver
{
    std::ostringstream o;
    void beginObject() override { o << "{ "; }
    void endObject() override { o << "} "; }
    void beginArray() override { o << "[ "; }
    void endArray() override { o << "] "; }
    void visitKey(zserio::StringView k) override { o << 'k' << hex(k) << ' '; }
    void visitValue(std::nullptr_t) override { o << "n "; }
    void visitValue(bool v) override { o << (v ? "t " : "f "); }
    void visitValue(int64_t v) override { o << 'i' << v << ' '; }
    void visitValue(uint64_t v) override { o << 'i' << v << ' '; }
    void visitValue(double v) override
    {
        if (v != v)
        {
            o << "d7ff8000000000000 ";
            return;
        }
        uint64_t b;
        std::memcpy(&b, &v, 8);
        o << 'd' << std::hex << b << std::dec << ' ';
    }
    void visitValue(zserio::StringView v) override { o << 's' << hex(v) << ' '; }
};

static std::string parse(const std::string& text, size_t k)
{
    Obs obs;
    std::stringbuf whole(text);
    Drip drip(text, k);
    std::istream in(k == 0 ? static_cast<std::streambuf*>(&whole) : &drip);
    try
    {
        zserio::JsonParser p(in, obs);
        obs.o << (p.parse() ? "T" : "F");
    }
    catch (const zserio::JsonParserException& e)
    {
        std::string m = e.what();
        size_t a = m.find(':'), b = m.find(':', a + 1), c = m.find(':', b + 1);
        if (c == std::string::npos)
            obs.o << "E " << m;
        else
            obs.o << "E " << m.substr(a + 1, b - a - 1) << ' ' << m.substr(b + 1, c - b - 1);
    }
    catch (const std::exception& e)
    {
        obs.o << "X " << e.what();
    }
    return obs.o.str();
}

int main(int, char** a)
{
    std::ifstream in(a[1]);
    std::ofstream o(a[2]);
    std::string l;
    std::getline(in, l);
    std::istringstream cs(l);
    std::vector<size_t> chunks;
    for (size_t c; cs >> c;)
        chunks.push_back(c);
    while (std::getline(in, l))
    {
        if (!l.empty() && l[0] == 'N')
        {
            uint64_t b = std::stoull(l.substr(1), nullptr, 16);
            double d;
            std::memcpy(&d, &b, 8);
            std::ostringstream s;
            zserio::JsonEncoder::encodeFloatingPoint(s, d);
            o << s.str() << '\t' << parse("[" + s.str() + "]", 0) << '\n';
            continue;
        }
        std::string text, first;
        for (size_t i = 0; i + 1 < l.size(); i += 2)
            text += static_cast<char>(std::stoi(l.substr(i, 2), nullptr, 16));
        for (size_t i = 0; i < chunks.size(); ++i)
        {
            std::string r = parse(text, chunks[i]);
            if (i == 0)
                o << (first = r);
            else
                o << '\t' << (r == first ? "=" : r);
        }
        o << '\n';
    }
    return 0;
}
