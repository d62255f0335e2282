// Generated code with polymorphic allocators: all memory of an object comes from the resource it was given, is returned to it,
// and nothing leaks when any one of the allocations fails.
#ifndef ZVF_REPLAY_H
#define ZVF_REPLAY_H
#include <cstdint>
#include <cstdlib>
#include <map>
#include <new>
#include <string>
#include <type_traits>
#include <vector>
#include "zserio/AllocatorPropagatingCopy.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/pmr/MemoryResource.h"
#include "zserio/pmr/PolymorphicAllocator.h"

namespace zvf
{

struct Line
{
    std::string id, cls, mode;
    size_t start, end;
    std::vector<uint8_t> data;
    std::string json;
    bool hasJson;
    std::string out;
    std::string stage;
};

std::string b64(const std::string& s);
std::string unb64(const std::string& s);
std::vector<uint8_t> unhex(const std::string& s);
std::string hex(const uint8_t* d, size_t n);

typedef void (*Handler)(Line&);
struct Entry
{
    const char* name;
    Handler fn;
};

// what happened to memory, judged at once
extern std::string memoryProblem;

class Arena : public zserio::pmr::MemoryResource
{
public:
    explicit Arena(const char* n) : name(n), count(0), failAt(0) {}
    const char* name;
    long count;  // allocations so far
    long failAt; // this one fails
    std::map<void*, std::pair<size_t, size_t>> live;

    void complain(const std::string& what)
    {
        if (memoryProblem.empty())
            memoryProblem = std::string(name) + ": " + what;
    }

private:
    void* doAllocate(size_t bytes, size_t alignment) override
    {
        if (++count == failAt)
            throw std::bad_alloc();
        void* p = std::malloc(bytes ? bytes : 1);
        live[p] = std::make_pair(bytes, alignment);
        return p;
    }
    void doDeallocate(void* p, size_t bytes, size_t alignment) override
    {
        auto it = live.find(p);
        if (it == live.end())
            return complain("memory returned to a resource that did not give it");
        if (it->second != std::make_pair(bytes, alignment))
            complain("memory returned with another size or alignment");
        live.erase(it);
        std::free(p);
    }
    bool doIsEqual(const MemoryResource& other) const noexcept override
    {
        return this == &other;
    }
};

struct Default
{
    Arena arena;
    zserio::pmr::MemoryResource* before;
    Default() : arena("default resource"), before(zserio::pmr::setDefaultResource(&arena)) {}
    ~Default()
    {
        zserio::pmr::setDefaultResource(before);
    }
};

template <typename T>
std::string written(T& o, size_t bits)
{
    std::vector<uint8_t> buf((bits + 7) / 8);
    zserio::BitStreamWriter w(buf.data(), bits, zserio::BitsTag());
    o.write(w);
    return std::to_string(w.getBitPosition()) + ":" + hex(buf.data(), (w.getBitPosition() + 7) / 8);
}

struct Bad
{
    std::string what;
};

inline void require(bool ok, const std::string& what)
{
    if (!ok)
        throw Bad{what};
    if (!memoryProblem.empty())
        throw Bad{memoryProblem};
}

template <typename T>
void memory(Line& l)
{
    using A = typename T::allocator_type;
    Default d;
    Arena r1("first resource"), r2("second resource"), r3("third resource");
    memoryProblem.clear();
    const std::string want = std::to_string(l.end) + ":" + hex(l.data.data(), (l.end + 7) / 8);
    long n1 = 0, n2 = 0, faults = 0;
    {
        l.stage = "read";
        zserio::BitStreamReader in(l.data.data(), l.end, zserio::BitsTag());
        T o(in, A(&r1));
        n1 = r1.count;
        require(d.arena.count == 0, "reading with an allocator took memory from the default resource");
        l.stage = "copy";
        {
            T c(zserio::PropagateAllocator, o, A(&r2));
            n2 = r2.count;
            require(d.arena.count == 0, "a propagating copy took memory from the default resource");
            require(r1.count == n1, "a propagating copy took memory from the resource of its source");
            require(c == o && o == c, "a propagating copy is not equal");
            require(written(c, l.end) == want, "a propagating copy is not written equally");
            require(c.hashCode() == o.hashCode(), "a propagating copy has another hash code");
            c.initializeOffsets(0);
            require(c.bitSizeOf(0) == l.end, "bitSizeOf of a propagating copy");
            l.stage = "move";
            T m(std::move(c));
            require(d.arena.count == 0, "moving took memory from the default resource");
            require(m == o && written(m, l.end) == want, "a moved object is not the same");
        }
        require(r2.live.empty(), "memory of a destroyed copy was not returned");
        l.stage = "default constructor";
        {
            T e((A(&r2)));
            require(d.arena.count == 0, "the default constructor took memory from the default resource");
            l.stage = "assignment";
            e = o;
            require(e == o && written(e, l.end) == want, "an assigned object is not the same");
            T p(o);
            require(p == o && written(p, l.end) == want, "a copied object is not the same");
            p = std::move(e);
            require(p == o && written(p, l.end) == want, "a move-assigned object is not the same");
            require(written(o, l.end) == want, "the source of copies is not the same");
        }
        require(r2.live.empty() && d.arena.live.empty(), "memory of a destroyed object was not returned");
        l.stage = "failing copies";
        for (long k = 1; k <= n2; ++k, ++faults)
        {
            r2.count = 0;
            r2.failAt = k;
            bool threw = false;
            try
            {
                T c(zserio::PropagateAllocator, o, A(&r2));
            }
            catch (const std::bad_alloc&)
            {
                threw = true;
            }
            require(threw, "allocation " + std::to_string(k) + " did not happen again");
            require(r2.live.empty(), "memory leaks when allocation " + std::to_string(k) + " of a propagating copy fails");
        }
        require(written(o, l.end) == want, "the source of failed copies is not the same");
        // ordinary assignments with failures: the target stays usable
        l.stage = "failing assignments";
        d.arena.count = 0;
        for (long k = 1; k < 100; ++k, ++faults)
        {
            T e((A(&r3)));
            d.arena.count = r3.count = 0;
            d.arena.failAt = r3.failAt = k;
            bool threw = false;
            try
            {
                e = o;
            }
            catch (const std::bad_alloc&)
            {
                threw = true;
            }
            d.arena.failAt = r3.failAt = 0;
            if (!threw)
                break;
            e = o;
            require(e == o && written(e, l.end) == want, "an object assigned after a failed assignment is not the same");
        }
        require(r3.live.empty() && d.arena.live.empty(), "memory leaks after a failed assignment");
    }
    require(r1.live.empty(), "memory of a destroyed object was not returned");
    l.stage = "failing reads";
    for (long k = 1; k <= n1; ++k, ++faults)
    {
        r3.count = 0;
        r3.failAt = k;
        bool threw = false;
        try
        {
            zserio::BitStreamReader in(l.data.data(), l.end, zserio::BitsTag());
            T o(in, A(&r3));
        }
        catch (const std::bad_alloc&)
        {
            threw = true;
        }
        require(threw, "allocation " + std::to_string(k) + " did not happen again");
        require(r3.live.empty(), "memory leaks when allocation " + std::to_string(k) + " of reading fails");
    }
    // damaged data: nothing leaks either
    l.stage = "truncated reads";
    r3.failAt = 0;
    for (size_t bits = 0; bits < l.end; bits += l.end > 64 ? 5 : 1, ++faults)
    {
        try
        {
            zserio::BitStreamReader in(l.data.data(), bits, zserio::BitsTag());
            T o(in, A(&r3));
        }
        catch (const zserio::CppRuntimeException&)
        {}
        require(r3.live.empty(), "memory leaks when reading " + std::to_string(bits) + " bits only");
    }
    require(memoryProblem.empty(), "memory");
    l.out += "\tOK\t" + std::to_string(n1) + "\t" + std::to_string(n2) + "\t" + std::to_string(faults);
}

template <typename T>
auto dispatch(Line& l, int) -> typename std::enable_if<std::is_constructible<T, zserio::BitStreamReader&, const typename T::allocator_type&>::value &&
        std::is_constructible<T, const typename T::allocator_type&>::value>::type
{
    try
    {
        memory<T>(l);
    }
    catch (const Bad& b)
    {
        l.out = l.id + "\tBAD\t" + l.stage + "\t" + b64(b.what);
    }
}

template <typename T>
void dispatch(Line& l, long)
{
    l.out += "\tNONE";
}

template <typename T>
void handle(Line& l)
{
    dispatch<T>(l, 0);
}

} // namespace zvf
#endif
