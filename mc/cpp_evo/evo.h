// Histories of objects with extended fields: lines  id TAB class TAB fields TAB operation...  ->  id TAB observation...
#ifndef ZVF_EVO_H
#define ZVF_EVO_H
#include <cstdint>
#include <fstream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"

namespace zvf
{

struct Bits
{
    std::vector<uint8_t> data;
    size_t n;
};

inline Bits bits(const std::string& s)
{
    const size_t c = s.find(':');
    Bits b;
    b.n = static_cast<size_t>(std::stoul(s.substr(0, c)));
    for (size_t i = c + 1; i < s.size(); i += 2)
        b.data.push_back(static_cast<uint8_t>(std::stoul(s.substr(i, 2), nullptr, 16)));
    return b;
}

template <typename T>
auto initChildren(T& o, int) -> decltype(o.initializeChildren(), void())
{
    o.initializeChildren();
}
template <typename T>
void initChildren(T&, long)
{}

template <typename T>
std::string written(T& o)
{
    std::string s;
    try
    {
        initChildren(o, 0);
        s += std::to_string(o.bitSizeOf());
    }
    catch (const std::exception&)
    {
        s += 'x';
    }
    s += ';';
    try
    {
        initChildren(o, 0);
        o.initializeOffsets(0);
        std::vector<uint8_t> buf(4096);
        zserio::BitStreamWriter w(buf.data(), buf.size() * 8, zserio::BitsTag());
        o.write(w);
        s += std::to_string(w.getBitPosition()) + ":";
        static const char* d = "0123456789abcdef";
        for (size_t i = 0; i < (w.getBitPosition() + 7) / 8; ++i)
        {
            s += d[buf[i] >> 4];
            s += d[buf[i] & 15];
        }
    }
    catch (const std::exception&)
    {
        s += 'x';
    }
    return s;
}

// generated: flags of the fields, setting a field to the one of another object, resetting it
template <typename T>
struct Acc;

template <typename T>
std::string history(const std::vector<std::string>& f)
{
    std::unique_ptr<T> o;
    std::string res;
    for (size_t i = 3; i < f.size(); ++i)
    {
        const std::string& op = f[i];
        std::string head = "ok";
        try
        {
            if (op[0] == 'R')
            {
                o.reset();
                const Bits b = bits(op.substr(1));
                zserio::BitStreamReader r(b.data.data(), b.n, zserio::BitsTag());
                o.reset(new T(r));
                head = std::to_string(r.getBitPosition());
            }
            else if (op[0] == 'N')
                o.reset(new T());
            else if (op[0] == 's')
            {
                const size_t at = op.find(',');
                const Bits b = bits(op.substr(at + 1));
                zserio::BitStreamReader r(b.data.data(), b.n, zserio::BitsTag());
                T donor(r);
                Acc<T>::set(*o, std::stoi(op.substr(1, at - 1)), donor);
            }
            else if (op[0] == 'x')
                Acc<T>::reset(*o, std::stoi(op.substr(1)));
            else if (op[0] == 'c')
            {
                std::unique_ptr<T> p(new T(*o));
                const std::string a = written(*p);
                T q;
                q = *p;
                if (written(q) != a)
                    throw std::runtime_error("assigned object differs");
                T m(std::move(q));
                if (written(m) != a)
                    throw std::runtime_error("moved object differs");
                *o = std::move(m);
            }
        }
        catch (const std::exception& e)
        {
            head = std::string("x") + e.what();
            for (char& c : head)
                if (c == '\n' || c == '\t')
                    c = ' ';
        }
        res += "\t" + head;
        if (head[0] != 'x')
            res += ";" + Acc<T>::flags(*o) + ";" + written(*o);
        else if (!o)
            break;
    }
    return res;
}

typedef std::string (*Fn)(const std::vector<std::string>&);
Fn handler(const std::string& name);

inline int runAll(const char* in, const char* out)
{
    std::ifstream i(in);
    std::ofstream o(out);
    std::string line;
    while (std::getline(i, line))
    {
        std::vector<std::string> f;
        std::string x;
        std::istringstream s(line);
        while (std::getline(s, x, '\t'))
            f.push_back(x);
        o << f[0] << handler(f[1])(f) << "\n";
    }
    return 0;
}

} // namespace zvf
#endif
