// Tells what type information and reflection say (see mc/tinfo.py).
#ifndef ZVF_INFOS_H
#define ZVF_INFOS_H
#include <string>
#include <vector>
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/IReflectable.h"
#include "zserio/ITypeInfo.h"

namespace zvf
{

struct Line
{
    std::vector<std::string> f;
    std::string out;
};

typedef void (*Handler)(Line&);
struct Entry
{
    const char* name;
    Handler fn;
};

std::vector<uint8_t> unhex(const std::string& s);
void graph(const zserio::ITypeInfo& t, std::string& out);
// every query on a constant object and on a mutable one
void answers(const zserio::IReflectableConstPtr& r, const zserio::IReflectablePtr& m, const std::string& queries, std::string& out);
// sets all fields to the values they have
void setAll(const zserio::IReflectablePtr& m);

template <typename T>
void handle(Line& l)
{
    if (l.f[2] == "T")
    {
        graph(T::typeInfo(), l.out);
        return;
    }
    const std::vector<uint8_t> d = unhex(l.f[4]);
    zserio::BitStreamReader r(d.data(), static_cast<size_t>(std::stoul(l.f[3])), zserio::BitsTag());
    const T o(r);
    zserio::BitStreamReader rm(d.data(), static_cast<size_t>(std::stoul(l.f[3])), zserio::BitsTag());
    T m(rm);
    answers(o.reflectable(), m.reflectable(), l.f[5], l.out);
    if (o == o)
    {
        setAll(m.reflectable());
        if (!(m == o))
            l.out += " changed-by-setField";
    }
}

} // namespace zvf
#endif
