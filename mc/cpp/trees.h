// Walks and builds object trees as told by model traces (see mc/trees.py).
#ifndef ZVF_TREES_H
#define ZVF_TREES_H
#include <memory>
#include <string>
#include <vector>
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"

namespace zvf
{

struct Line
{
    std::vector<std::string> f;
    std::string out;
};

typedef void (*Handler)(Line&);
struct Entry
{
    const char* name;
    Handler fn;
};

std::vector<uint8_t> unhex(const std::string& s);
std::string hex(const uint8_t* d, size_t n);
void walkTree(const zserio::IReflectableConstPtr& r, const std::string& spec, std::string& out);
void create(const zserio::ITypeInfo& ti, const std::string& ops, std::string& out);

template <typename T>
auto initChildren(T& o, int) -> decltype(o.initializeChildren(), void())
{
    o.initializeChildren();
}
template <typename T>
void initChildren(T&, long)
{}

template <typename T>
void handle(Line& l)
{
    if (l.f[2] == "K")
    {
        const std::vector<uint8_t> d = unhex(l.f[4]);
        zserio::BitStreamReader r(d.data(), static_cast<size_t>(std::stoul(l.f[3])), zserio::BitsTag());
        const T o(r);
        walkTree(o.reflectable(), l.f[5], l.out);
    }
    else
        create(T::typeInfo(), l.f[3], l.out);
}

} // namespace zvf
#endif
