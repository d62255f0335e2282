// Runs histories of SQL operations on generated databases (see mc/sql.py); the table handlers are generated by mc/sql.py.
#ifndef ZVF_SQL_H
#define ZVF_SQL_H
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/Enums.h"
#include "zserio/ISqliteDatabase.h"
#include "zserio/IValidationObserver.h"

namespace zvf
{

typedef std::vector<std::string> Strings;

inline Strings split(const std::string& s, char c)
{
    Strings out(1);
    for (char x : s)
    {
        if (x == c)
            out.emplace_back();
        else
            out.back() += x;
    }
    return out;
}

inline std::vector<uint8_t> unhex(const std::string& s)
{
    std::vector<uint8_t> out;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        out.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
    return out;
}

inline std::string hex(const uint8_t* p, size_t n)
{
    std::string out;
    char b[3];
    for (size_t i = 0; i < n; ++i)
    {
        std::snprintf(b, 3, "%02x", p[i]);
        out += b;
    }
    return out;
}

template <typename T>
T num(const std::string& x)
{
    return x[0] == '-' ? static_cast<T>(std::stoll(x)) : static_cast<T>(std::stoull(x));
}

// ---- values from tokens
template <typename T, typename = void>
struct As;
template <typename T>
struct As<T, typename std::enable_if<std::is_integral<T>::value>::type>
{
    static T get(const std::string& c) { return num<T>(c.substr(1)); }
};
template <typename T>
struct As<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T get(const std::string& c)
    {
        const uint64_t u = std::stoull(c.substr(1), nullptr, 16);
        double d;
        std::memcpy(&d, &u, 8);
        return static_cast<T>(d);
    }
};
template <typename T>
struct As<T, typename std::enable_if<std::is_enum<T>::value>::type>
{
    static T get(const std::string& c) { return zserio::valueToEnum<T>(num<typename std::underlying_type<T>::type>(c.substr(1))); }
};
template <typename T>
struct As<T, typename std::enable_if<std::is_class<T>::value && !std::is_same<T, std::string>::value>::type>
{
    static T get(const std::string& c) { return T(num<typename T::underlying_type>(c.substr(1))); }
};
template <>
struct As<std::string>
{
    static std::string get(const std::string& c)
    {
        const auto b = unhex(c.substr(1));
        return std::string(b.begin(), b.end());
    }
};

// ---- tokens of values
template <typename T>
typename std::enable_if<std::is_integral<T>::value, std::string>::type token(T v) { return "i" + std::to_string(v); }
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, std::string>::type token(T v)
{
    const double d = static_cast<double>(v);
    uint64_t u;
    std::memcpy(&u, &d, 8);
    char b[20];
    std::snprintf(b, 20, "f%016llx", static_cast<unsigned long long>(u));
    return b;
}
template <typename T>
typename std::enable_if<std::is_enum<T>::value, std::string>::type token(T v) { return "i" + std::to_string(static_cast<typename std::underlying_type<T>::type>(v)); }
inline std::string token(const std::string& s) { return "s" + hex(reinterpret_cast<const uint8_t*>(s.data()), s.size()); }
template <typename T>
auto token(const T& v) -> decltype(v.getValue(), typename T::underlying_type(), std::string()) { return "i" + std::to_string(v.getValue()); }
template <typename T>
std::string blobToken(const T& v)
{
    zserio::BitBuffer b(v.bitSizeOf());
    zserio::BitStreamWriter w(b);
    v.write(w);
    return "b" + hex(b.getBuffer(), b.getByteSize());
}

struct Blob        // blob token: bytes and parameters
{
    Strings p;
    std::vector<uint8_t> d;
    zserio::BitStreamReader r;
    explicit Blob(const std::string& c) : p(split(c.substr(1), ':')), d(unhex(p[0])), r(d.data(), d.size()) {}
};

struct Observer : zserio::IValidationObserver
{
    explicit Observer(int s) : stop(s) {}
    int stop;                   // the error at which the observer says stop; 0: none
    std::string log;
    void beginDatabase(size_t n) override { log += "B" + std::to_string(n); }
    void endDatabase(size_t n) override { log += ";E" + std::to_string(n); }
    bool beginTable(zserio::StringView t, size_t n) override { log += ";b" + std::string(t.data(), t.size()) + "," + std::to_string(n); return true; }
    bool endTable(zserio::StringView t, size_t n) override { log += ";e" + std::string(t.data(), t.size()) + "," + std::to_string(n); return true; }
    bool reportError(zserio::StringView t, zserio::StringView f, zserio::Span<const zserio::StringView> keys, ErrorType e, zserio::StringView) override
    {
        static const char* const names[] = {"INVALID_COLUMN_TYPE", "INVALID_COLUMN_CONSTRAINT", "COLUMN_MISSING", "COLUMN_SUPERFLUOUS", "VALUE_OUT_OF_RANGE", "INVALID_VALUE", "BLOB_PARSE_FAILED", "BLOB_COMPARE_FAILED"};
        log += ";" + std::string(t.data(), t.size()) + "," + std::string(f.data(), f.size()) + ",";
        for (size_t i = 0; i < keys.size(); ++i)
            log += (i ? "/" : "") + std::string(keys[i].data(), keys[i].size());
        log += std::string(",") + names[e];
        return !(stop > 0 && --stop == 0);
    }
};

struct Provider { int cnt = 3; int flag = 1; };

// one per database class
struct Database
{
    virtual ~Database() {}
    virtual zserio::ISqliteDatabase& db() = 0;
    virtual void createSchema(const std::set<std::string>& s) = 0;
    virtual std::string table(const std::string& op, const std::string& name, const Strings& a) = 0;
    virtual void validate(Observer& o) = 0;
    Provider prov;
};
typedef std::map<std::string, std::string> Relocation;
std::unique_ptr<Database> open(const std::string& cls, const std::string& file, const Relocation& r);

inline Strings cols(const std::string& s) { return s == "*" ? Strings() : split(s, ','); }

inline void raw(Database& d, const std::string& s)
{
    // not through the class under test
    char* err = nullptr;
    if (sqlite3_exec(d.db().connection().getConnection(), s.c_str(), nullptr, nullptr, &err) != SQLITE_OK)
        throw std::runtime_error(err ? err : "sqlite3_exec");
}

inline std::unique_ptr<Database> reopen(const std::string& cls, const std::string& file, const Relocation& r, const Provider& p)
{
    auto d = open(cls, file, r);
    d->prov = p;
    raw(*d, "PRAGMA synchronous=OFF");
    return d;
}

inline int runAll(const char* in, const char* outName)
{
    std::ifstream f(in);
    std::ofstream out(outName);
    std::string line;
    while (std::getline(f, line))
    {
        const Strings l = split(line, '\t');
        const Strings files = split(l[2], '+');
        Relocation rel;
        for (size_t i = 1; i < files.size(); ++i)
            rel[split(files[i], '=')[0]] = split(files[i], '=')[1];
        std::unique_ptr<Database> d = reopen(l[1], files[0], rel, Provider());
        out << l[0];
        for (size_t i = 3; i < l.size(); ++i)
        {
            const Strings a = split(l[i], '|');
            std::string r = "ok";
            try
            {
                if (a[0] == "p")
                {
                    d->prov.cnt = std::stoi(a[1]);
                    d->prov.flag = std::stoi(a[2]);
                }
                else if (a[0] == "c" && a.size() > 1)
                {
                    const Strings s = split(a[1], ',');
                    d->createSchema(std::set<std::string>(s.begin(), s.end()));
                }
                else if (a[0] == "c")
                    d->db().createSchema();
                else if (a[0] == "d")
                    d->db().deleteSchema();
                else if (a[0] == "q")
                    raw(*d, a[1]);
                else if (a[0] == "t")
                    raw(*d, "BEGIN");
                else if (a[0] == "k")
                    raw(*d, "COMMIT");
                else if (a[0] == "b")
                    raw(*d, "ROLLBACK");
                else if (a[0] == "o")
                {
                    const Provider p = d->prov;
                    d.reset();
                    d = reopen(l[1], files[0], rel, p);
                }
                else if (a[0] == "v")
                {
                    Observer o(std::stoi(a[1]));
                    d->validate(o);
                    r = o.log;
                }
                else
                    r = d->table(a[0], a[1], a);
            }
            catch (const zserio::CppRuntimeException& e)
            {
                r = std::string("x") + e.what();
            }
            catch (const std::exception& e)
            {
                r = std::string("X") + e.what();
            }
            for (char& c : r)
                if (c == '\n' || c == '\t')
                    c = ' ';
            out << "\t" << r;
        }
        out << "\n";
    }
    return 0;
}

} // namespace zvf
#endif
