// Exhaustive comparison of StringView, Span and number conversion of the C++ runtime with the standard library.
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

#include "zserio/CppRuntimeException.h"
#include "zserio/Span.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/StringView.h"

static long long states = 0, transitions = 0;
static std::map<std::string, std::string> bad;

static std::string esc(const std::string& s)
{
    std::string r = "\"";
    for (char c : s)
    {
        char b[8];
        if (c >= 32 && c < 127)
            r += c;
        else
        {
            std::snprintf(b, sizeof b, "\\x%02x", static_cast<unsigned char>(c));
            r += b;
        }
    }
    return r + "\"";
}

static void report(const char* what, const std::string& detail)
{
    if (!bad.count(what))
        bad[what] = detail;
}

using Z = zserio::StringView;
using S = std::string_view;

static std::string num(size_t n)
{
    return n == std::string::npos ? "npos" : std::to_string(n);
}

static void same(const char* op, size_t z, size_t s, const std::string& a, const std::string& b, size_t pos)
{
    transitions++;
    if (z != s)
        report(op, esc(a) + "." + op + "(" + esc(b) + ", " + num(pos) + ") is " + num(z) + ", expected " + num(s));
}

static int sign(int x)
{
    return x < 0 ? -1 : x > 0;
}

template <typename F, typename G>
static void outcome(const char* op, F f, G g, const std::string& detail)
{
    transitions++;
    std::string x, y;
    try
    {
        x = f();
    }
    catch (const zserio::CppRuntimeException&)
    {
        x = "exception";
    }
    try
    {
        y = g();
    }
    catch (const std::out_of_range&)
    {
        y = "exception";
    }
    if (x != y)
        report(op, detail + " is " + esc(x) + ", expected " + esc(y));
}

static std::vector<std::string> all(const std::string& alphabet, size_t n)
{
    std::vector<std::string> r = {""};
    for (size_t i = 0, from = 0; i < n; ++i)
    {
        size_t to = r.size();
        for (; from < to; ++from)
            for (char c : alphabet)
                r.push_back(r[from] + c);
    }
    return r;
}

// a view into the middle of a bigger text, so that reading outside of it is noticed
struct Held
{
    char* p;
    size_t n;
    explicit Held(const std::string& s) : p(static_cast<char*>(std::malloc(s.size() ? s.size() : 1))), n(s.size())
    {
        std::copy(s.begin(), s.end(), p);
    }
    ~Held()
    {
        std::free(p);
    }
    Held(const Held&) = delete;
    Z view() const
    {
        return Z(p, n);
    }
};

static void strings(const std::string& alphabet, size_t la, size_t lb)
{
    const size_t NP = std::string::npos;
    for (const std::string& a : all(alphabet, la))
    {
        Held ha(a);
        const Z z = ha.view();
        const S s(a);
        states++;
        outcome("size", [&] { return num(z.size()) + num(z.length()) + (z.empty() ? "e" : "f") + std::string(z.begin(), z.end()) + std::string(z.rbegin(), z.rend()) + std::string(z.cbegin(), z.cend()) + std::string(z.crbegin(), z.crend()); },
                [&] { return num(s.size()) + num(s.length()) + (s.empty() ? "e" : "f") + std::string(s.begin(), s.end()) + std::string(s.rbegin(), s.rend()) + std::string(s) + std::string(s.rbegin(), s.rend()); }, esc(a));
        if (!a.empty() && (z.front() != s.front() || z.back() != s.back() || z[0] != s[0]))
            report("front/back", esc(a));
        outcome("toString", [&] { return zserio::stringViewToString(z) + zserio::toString<std::allocator<char>>(z); }, [&] { return std::string(s) + std::string(s); }, esc(a));
        outcome("operator+=", [&] { std::string t = "q"; t += z; return t; }, [&] { return "q" + std::string(s); }, esc(a));
        outcome("exception text", [&] { return std::string((zserio::CppRuntimeException("e") << z).what()); }, [&] { return std::string(("e" + a).c_str()); }, esc(a));
        outcome("from string", [&] { std::string t(a); Z v(t); return std::string(v.data(), v.size()); }, [&] { return a; }, esc(a));
        outcome("from chars", [&] { Z v(a.c_str()); return std::string(v.data(), v.size()); }, [&] { return std::string(a.c_str()); }, esc(a));
        for (size_t i = 0; i <= a.size(); ++i)
        {
            outcome("remove_prefix", [&] { Z t = z; t.remove_prefix(i); return std::string(t.data(), t.size()); }, [&] { return a.substr(i); }, esc(a) + " " + num(i));
            outcome("remove_suffix", [&] { Z t = z; t.remove_suffix(i); return std::string(t.data(), t.size()); }, [&] { return a.substr(0, a.size() - i); }, esc(a) + " " + num(i));
        }
        std::vector<size_t> positions;
        for (size_t i = 0; i <= la + 1; ++i)
            positions.push_back(i);
        positions.push_back(NP - 1);
        positions.push_back(NP);
        for (size_t pos : positions)
        {
            outcome("at", [&] { return std::string(1, z.at(pos)); }, [&] { return std::string(1, s.at(pos)); }, esc(a) + ".at(" + num(pos) + ")");
            outcome("substr", [&] { Z t = z.substr(pos); return std::string(t.data(), t.size()); }, [&] { return std::string(s.substr(pos)); }, esc(a) + ".substr(" + num(pos) + ")");
            for (size_t n : positions)
            {
                outcome("substr", [&] { Z t = z.substr(pos, n); return std::string(t.data(), t.size()); }, [&] { return std::string(s.substr(pos, n)); }, esc(a) + ".substr(" + num(pos) + ", " + num(n) + ")");
                outcome("copy", [&] { char d[16] = {}; size_t k = z.copy(d, n, pos); return num(k) + std::string(d, 16); }, [&] { char d[16] = {}; size_t k = s.copy(d, n, pos); return num(k) + std::string(d, 16); }, esc(a) + ".copy(" + num(n) + ", " + num(pos) + ")");
            }
        }
        for (const std::string& b : all(alphabet, lb))
        {
            Held hb(b);
            const Z y = hb.view();
            const S t(b);
            states++;
            outcome("compare", [&] { return std::to_string(sign(z.compare(y))); }, [&] { return std::to_string(sign(s.compare(t))); }, esc(a) + " " + esc(b));
            outcome("operators", [&] { return std::string() + char('0' + (z == y)) + char('0' + (z != y)) + char('0' + (z < y)) + char('0' + (z <= y)) + char('0' + (z > y)) + char('0' + (z >= y)); },
                    [&] { return std::string() + char('0' + (s == t)) + char('0' + (s != t)) + char('0' + (s < t)) + char('0' + (s <= t)) + char('0' + (s > t)) + char('0' + (s >= t)); }, esc(a) + " " + esc(b));
            outcome("compare(const char*)", [&] { return std::to_string(sign(z.compare(b.c_str()))); }, [&] { return std::to_string(sign(s.compare(b.c_str()))); }, esc(a) + " " + esc(b));
            outcome("swap", [&] { Z p = z, q = y; p.swap(q); return std::string(p.data(), p.size()) + "/" + std::string(q.data(), q.size()); }, [&] { return b + "/" + a; }, esc(a) + " " + esc(b));
            for (size_t pos : positions)
                for (size_t n : {size_t(0), size_t(1), size_t(2), NP})
                {
                    outcome("compare(pos, count)", [&] { return std::to_string(sign(z.compare(pos, n, y))) + std::to_string(sign(z.compare(pos, n, b.c_str()))) + std::to_string(sign(z.compare(pos, n, b.data(), b.size()))); },
                            [&] { return std::to_string(sign(s.compare(pos, n, t))) + std::to_string(sign(s.compare(pos, n, b.c_str()))) + std::to_string(sign(s.compare(pos, n, b.data(), b.size()))); }, esc(a) + ".compare(" + num(pos) + ", " + num(n) + ", " + esc(b) + ")");
                    for (size_t pos2 : {size_t(0), size_t(1), size_t(3)})
                        outcome("compare(pos, count, pos, count)", [&] { return std::to_string(sign(z.compare(pos, n, y, pos2, 1))); }, [&] { return std::to_string(sign(s.compare(pos, n, t, pos2, 1))); }, esc(a) + ".compare(" + num(pos) + ", " + num(n) + ", " + esc(b) + ", " + num(pos2) + ", 1)");
                }
            // searching: what is found for an empty needle at or behind the end, or for an empty set, is open
            for (size_t pos : positions)
            {
                const char* c = b.c_str();
                const S tc(c);
                if (!b.empty() || pos < a.size())
                {
                    same("find", z.find(y, pos), s.find(t, pos), a, b, pos);
                    same("find", z.find(b.data(), pos, b.size()), s.find(t, pos), a, b, pos);
                }
                if (!tc.empty() || pos < a.size())
                    same("find", z.find(c, pos), s.find(tc, pos), a, b, pos);
                same("rfind", z.rfind(y, pos), s.rfind(t, pos), a, b, pos);
                same("rfind", z.rfind(b.data(), pos, b.size()), s.rfind(t, pos), a, b, pos);
                same("rfind", z.rfind(c, pos), s.rfind(tc, pos), a, b, pos);
#define SET(OP) \
    if (!b.empty()) \
    { \
        same(#OP, z.OP(y, pos), s.OP(t, pos), a, b, pos); \
        same(#OP, z.OP(b.data(), pos, b.size()), s.OP(t, pos), a, b, pos); \
    } \
    if (!tc.empty()) \
        same(#OP, z.OP(c, pos), s.OP(tc, pos), a, b, pos); \
    if (b.size() == 1) \
        same(#OP, z.OP(b[0], pos), s.OP(b[0], pos), a, b, pos);
                SET(find_first_of)
                SET(find_last_of)
                SET(find_first_not_of)
                SET(find_last_not_of)
                if (b.size() == 1)
                {
                    same("find", z.find(b[0], pos), s.find(b[0], pos), a, b, pos);
                    same("rfind", z.rfind(b[0], pos), s.rfind(b[0], pos), a, b, pos);
                }
            }
            if (!b.empty())
            {
                same("find", z.find(y), s.find(t), a, b, NP);
                same("rfind", z.rfind(y), s.rfind(t), a, b, NP);
                same("find_first_of", z.find_first_of(y), s.find_first_of(t), a, b, NP);
                same("find_last_of", z.find_last_of(y), s.find_last_of(t), a, b, NP);
                same("find_first_not_of", z.find_first_not_of(y), s.find_first_not_of(t), a, b, NP);
                same("find_last_not_of", z.find_last_not_of(y), s.find_last_not_of(t), a, b, NP);
                same("find_last_of", z.find_last_of(b[0]), s.find_last_of(b[0]), a, b, NP);
                same("find_last_not_of", z.find_last_not_of(b[0]), s.find_last_not_of(b[0]), a, b, NP);
                same("rfind", z.rfind(b[0]), s.rfind(b[0]), a, b, NP);
            }
        }
    }
    transitions++;
    if (zserio::makeStringView("ab") != Z("ab", 2) || zserio::makeStringView("a\0b") != Z("a\0b", 3))
        report("makeStringView", "literal");
    const char raw[] = {'x', 'y'};
    if (zserio::makeStringView(raw) != Z("xy", 2))
        report("makeStringView", "array");
    using namespace zserio::literals;
    if ("a\0b"_sv != Z("a\0b", 3) || ""_sv.size() != 0)
        report("literal", "_sv");
}

// ------------------------------------------------------------------------------------------- spans
template <typename SP>
static void span(const SP& sp, const std::vector<int>& v, size_t from, size_t n, const char* what, int depth = 2)
{
    states++;
    transitions++;
    bool ok = sp.size() == n && sp.size_bytes() == n * sizeof(int) && sp.empty() == (n == 0);
    ok = ok && std::equal(sp.begin(), sp.end(), v.begin() + from, v.begin() + from + n);
    std::vector<int> r(sp.rbegin(), sp.rend());
    std::reverse(r.begin(), r.end());
    ok = ok && std::equal(r.begin(), r.end(), v.begin() + from, v.begin() + from + n);
    if (n > 0)
        ok = ok && sp.front() == v[from] && sp.back() == v[from + n - 1] && sp.data() == &sp[0];
    for (size_t i = 0; ok && i < n; ++i)
        ok = sp[i] == v[from + i];
    if (!ok)
        return report(what, "elements " + num(from) + " to " + num(from + n));
    if (depth == 0)
        return;
    for (size_t i = 0; i <= n; ++i)
    {
        span(sp.first(i), v, from, i, "Span.first", depth - 1);
        span(sp.last(i), v, from + n - i, i, "Span.last", depth - 1);
        span(sp.subspan(i), v, from + i, n - i, "Span.subspan", depth - 1);
        for (size_t k = 0; i + k <= n; ++k)
            span(sp.subspan(i, k), v, from + i, k, "Span.subspan", depth - 1);
    }
}

template <typename SP>
static void fixedSpan(const SP& sp, const std::vector<int>& v, const char* what)
{
    span(sp, v, 0, 4, what);
    span(sp.template first<0>(), v, 0, 0, "Span.first<>", 1);
    span(sp.template first<3>(), v, 0, 3, "Span.first<>", 1);
    span(sp.template first<4>(), v, 0, 4, "Span.first<>", 1);
    span(sp.template last<0>(), v, 4, 0, "Span.last<>", 1);
    span(sp.template last<3>(), v, 1, 3, "Span.last<>", 1);
    span(sp.template last<4>(), v, 0, 4, "Span.last<>", 1);
    span(sp.template subspan<0>(), v, 0, 4, "Span.subspan<>", 1);
    span(sp.template subspan<1>(), v, 1, 3, "Span.subspan<>", 1);
    span(sp.template subspan<4>(), v, 4, 0, "Span.subspan<>", 1);
    span(sp.template subspan<1, 2>(), v, 1, 2, "Span.subspan<>", 1);
    span(sp.template subspan<2, 2>(), v, 2, 2, "Span.subspan<>", 1);
    span(sp.template subspan<0, 0>(), v, 0, 0, "Span.subspan<>", 1);
}

static void spans()
{
    std::vector<int> v = {3, 1, 4, 1, 5};
    for (size_t n = 0; n <= v.size(); ++n)
    {
        std::vector<int> w(v.begin(), v.begin() + n);
        const std::vector<int>& cw = w;
        span(zserio::Span<int>(w), w, 0, n, "Span(vector)");
        span(zserio::Span<const int>(w), w, 0, n, "Span<const>(vector)");
        span(zserio::Span<const int>(cw), w, 0, n, "Span<const>(const vector)");
        span(zserio::Span<int>(w.data(), n), w, 0, n, "Span(pointer, size)");
        span(zserio::Span<int>(w.data(), w.data() + n), w, 0, n, "Span(pointer, pointer)");
        zserio::Span<int> p(w);
        span(zserio::Span<const int>(p), w, 0, n, "Span<const>(Span)");
    }
    zserio::Span<int> none;
    if (none.size() != 0 || !none.empty() || none.data() != nullptr)
        report("Span()", "default constructed");
    v.resize(4);
    int raw[4] = {3, 1, 4, 1};
    std::array<int, 4> arr = {{3, 1, 4, 1}};
    const std::array<int, 4>& carr = arr;
    fixedSpan(zserio::Span<int, 4>(raw), v, "Span<4>(array)");
    fixedSpan(zserio::Span<int>(raw), v, "Span(array)");
    fixedSpan(zserio::Span<int, 4>(arr), v, "Span<4>(std::array)");
    fixedSpan(zserio::Span<int>(arr), v, "Span(std::array)");
    fixedSpan(zserio::Span<const int, 4>(carr), v, "Span<const, 4>(const std::array)");
    fixedSpan(zserio::Span<const int>(carr), v, "Span<const>(const std::array)");
    fixedSpan(zserio::Span<int, 4>(v.data(), 4), v, "Span<4>(pointer, size)");
    fixedSpan(zserio::Span<int>(zserio::Span<int, 4>(raw)), v, "Span(Span<4>)");
    zserio::Span<int> a(raw), b(v);
    a = b;
    if (a.data() != v.data())
        report("Span.operator=", "assignment");
}

// ------------------------------------------------------------------------------------------- numbers
template <typename T>
static void number(T value)
{
    states++;
    transitions++;
    std::array<char, 24> buffer;
    std::string want = std::to_string(static_cast<long long>(value));
    if (std::is_unsigned<T>::value)
        want = std::to_string(static_cast<unsigned long long>(value));
    if (zserio::convertIntToString(buffer, value) != want)
        report("convertIntToString", want + " is " + zserio::convertIntToString(buffer, value));
    if (zserio::toString(value) != want)
        report("toString", want + " is " + zserio::toString(value));
    zserio::CppRuntimeException e("");
    e << value;
    if (sizeof(T) > 1 && e.what() != want)
        report("exception number", want + " is " + e.what());
}

template <typename T>
static void wide()
{
    for (int bit = 0; bit < static_cast<int>(sizeof(T) * 8); ++bit)
        for (int d = -12; d <= 12; ++d)
        {
            uint64_t x = (uint64_t(1) << bit) + static_cast<uint64_t>(d);
            number(static_cast<T>(x));
            number(static_cast<T>(0 - x));
        }
    uint64_t p = 1;
    for (int k = 0; k < 20; ++k, p *= 10)
        for (uint64_t m = 1; m < 100; ++m)
            for (int d = -1; d <= 1; ++d)
            {
                number(static_cast<T>(p * m + static_cast<uint64_t>(d)));
                number(static_cast<T>(0 - (p * m + static_cast<uint64_t>(d))));
            }
    number(std::numeric_limits<T>::max());
    number(std::numeric_limits<T>::min());
}

static void numbers()
{
    for (int i = 0; i < 256; ++i)
    {
        number(static_cast<uint8_t>(i));
        number(static_cast<int8_t>(i));
    }
    for (int i = 0; i < 65536; ++i)
    {
        number(static_cast<uint16_t>(i));
        number(static_cast<int16_t>(i));
    }
    wide<uint32_t>();
    wide<int32_t>();
    wide<uint64_t>();
    wide<int64_t>();
}

int main(int argc, char** argv)
{
    int d = argc > 1 ? std::atoi(argv[1]) : 4;
    strings(std::string("a\xe9", 2), d, 3);
    strings(std::string("a\0", 2), 3, 2);
    strings("abc", d - 1, 2);
    spans();
    numbers();
    std::printf("COUNT\t%lld\t%lld\t%lld\n", states, transitions, transitions);
    for (auto& b : bad)
        std::printf("BAD\t%s\t%s\n", b.first.c_str(), b.second.c_str());
    return 0;
}
