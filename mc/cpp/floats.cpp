// All 16-bit patterns and all 32-bit floats: args  file with the values (as float bits) of patterns 0..7c00, output.
#include <cstdio>
#include <cstring>
#include <fstream>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "zserio/FloatUtil.h"

static const uint32_t INF16 = 0x7c00, INF32 = 0x7f800000;
static double table[INF16 + 1];
static std::mutex mtx;
static std::vector<std::string> bad;

static float fl(uint32_t b)
{
    float f;
    std::memcpy(&f, &b, 4);
    return f;
}

static uint32_t bitsOf(float f)
{
    uint32_t b;
    std::memcpy(&b, &f, 4);
    return b;
}

template <typename... A>
static void say(const char* fmt, A... a)
{
    char buf[300];
    std::snprintf(buf, sizeof(buf), fmt, a...);
    std::lock_guard<std::mutex> g(mtx);
    bad.push_back(buf);
}

static const char* judge(uint32_t i, double v, uint32_t r, bool neg)
{
    uint32_t m = r & 0x7fff;
    if ((r >> 15 != 0) != neg)
        return "sign lost";
    if (v == table[i])
        return m == i ? nullptr : "not exact";
    if (i == INF16)
        return m == INF16 ? nullptr : "not infinity";
    if (m != i && m != i + 1)
        return "not one of the neighbours";
    if (i < 0x400)
        return nullptr;
    if (v >= 65536.0)
        return m == INF16 ? nullptr : "not infinity";
    double up = i + 1 == INF16 ? 65536.0 : table[i + 1], d = (v - table[i]) - (up - v);
    return (d < 0 && m != i) || (d > 0 && m != i + 1) ? "not the nearest" : nullptr;
}

static void range(uint32_t lo, uint32_t hi)
{
    uint32_t i = 0;
    while (i < INF16 && table[i + 1] <= fl(lo))
        ++i;
    for (uint32_t bits = lo; bits < hi; ++bits)
    {
        double v = fl(bits);
        while (i < INF16 && table[i + 1] <= v)
            ++i;
        for (uint32_t s = 0; s < 2; ++s)
        {
            uint32_t r = zserio::convertFloatToUInt16(fl(bits | s << 31));
            if (const char* e = judge(i, v, r, s != 0))
            {
                say("float %08x (%.9g): pattern %04x, %s", bits | s << 31, v, r, e);
                return;
            }
        }
    }
}

int main(int, char** a)
{
    std::ifstream in(a[1]);
    std::string l;
    for (uint32_t i = 0; i <= INF16; ++i)
    {
        in >> l;
        uint32_t want = static_cast<uint32_t>(std::stoul(l, nullptr, 16));
        table[i] = fl(want);
        for (uint32_t s = 0; s < 2; ++s)
        {
            uint32_t got = bitsOf(zserio::convertUInt16ToFloat(static_cast<uint16_t>(i | s << 15)));
            if (got != (want | s << 31))
                say("pattern %04x: float %08x, model %08x", i | s << 15, got, want | s << 31);
        }
    }
    for (uint32_t i = INF16 + 1; i < 0x10000; ++i)
    {
        if ((i & 0x7fff) <= INF16)
            continue;
        float f = zserio::convertUInt16ToFloat(static_cast<uint16_t>(i));
        uint32_t back = zserio::convertFloatToUInt16(f);
        if (f == f || back != i)
            say("NaN pattern %04x: %g, back %04x", i, static_cast<double>(f), back);
    }
    for (uint32_t bits = INF32 + 1; bits < 0x80000000; bits += bits < INF32 + 0x4000 ? 1 : 0x3fb)
    {
        uint32_t r = zserio::convertFloatToUInt16(fl(bits));
        if ((r & 0x7fff) <= INF16)
        {
            say("NaN %08x becomes pattern %04x", bits, r);
            break;
        }
    }
    std::vector<std::thread> ts;
    const uint32_t step = INF32 / 64;
    for (uint32_t t = 0; t < 8; ++t)
        ts.emplace_back([t, step] {
            for (uint32_t k = t; k <= 64; k += 8)
                range(k * step, k * step + step < INF32 + 1 ? k * step + step : INF32 + 1);
        });
    for (auto& t : ts)
        t.join();
    // the 32 and 64 bit conversions keep all bits
    for (uint32_t e = 0; e < 512; ++e)
        for (uint32_t m = 0; m < 1u << 23; m = m * 3 + 1)
        {
            uint32_t b = e << 23 | m;
            if (e % 256 != 255 && (zserio::convertFloatToUInt32(fl(b)) != b || bitsOf(zserio::convertUInt32ToFloat(b)) != b))
                say("float32 %08x changed", b);
        }
    for (uint64_t e = 0; e < 4096; ++e)
        for (uint64_t m = 0; m < 1ull << 52; m = m * 5 + 1)
        {
            uint64_t b = e << 52 | m;
            if (e % 2048 != 2047 && zserio::convertDoubleToUInt64(zserio::convertUInt64ToDouble(b)) != b)
                say("float64 %016llx changed", static_cast<unsigned long long>(b));
        }
    std::ofstream o(a[2]);
    for (auto& s : bad)
        o << s << '\n';
    return 0;
}
