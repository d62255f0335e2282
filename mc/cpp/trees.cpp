#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include "trees.h"

namespace zvf
{
extern const Entry entries[];
extern const size_t numEntries;

std::vector<uint8_t> unhex(const std::string& s)
{
    std::vector<uint8_t> o;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        o.push_back(static_cast<uint8_t>(std::stoul(s.substr(i, 2), nullptr, 16)));
    return o;
}

std::string hex(const uint8_t* d, size_t n)
{
    static const char* const H = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; ++i)
    {
        s += H[d[i] >> 4];
        s += H[d[i] & 15];
    }
    return s;
}

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> o(1);
    for (char x : s)
        if (x == c)
            o.emplace_back();
        else
            o.back() += x;
    return o;
}

static std::string str(zserio::StringView v)
{
    return std::string(v.begin(), v.end());
}

static std::string show(const zserio::IReflectableConstPtr& v)
{
    if (!v)
        return "n";
    const zserio::ITypeInfo& t = v->getTypeInfo();
    switch (t.getCppType())
    {
    case zserio::CppType::BOOL:
        return v->getBool() ? "b1" : "b0";
    case zserio::CppType::FLOAT:
    case zserio::CppType::DOUBLE:
    {
        const double d = v->toDouble();
        uint64_t u;
        std::memcpy(&u, &d, 8);
        uint8_t b[8];
        for (int i = 0; i < 8; ++i)
            b[i] = static_cast<uint8_t>(u >> (56 - 8 * i));
        return "f" + hex(b, 8);
    }
    case zserio::CppType::STRING:
    {
        const auto s = v->getStringView();
        return "s" + hex(reinterpret_cast<const uint8_t*>(s.data()), s.size());
    }
    case zserio::CppType::BYTES:
    {
        const auto s = v->getBytes();
        return "B" + hex(s.data(), s.size());
    }
    case zserio::CppType::BIT_BUFFER:
    {
        const zserio::BitBuffer& b = v->getBitBuffer();
        return "X" + std::to_string(b.getBitSize()) + ":" + hex(b.getBuffer(), b.getByteSize());
    }
    case zserio::CppType::ENUM:
        return "e" + (zserio::TypeInfoUtil::isSigned(t.getUnderlyingType().getCppType()) ? std::to_string(v->toInt()) : std::to_string(v->toUInt()));
    case zserio::CppType::BITMASK:
        return "m" + std::to_string(v->toUInt());
    default:
        return "i" + (zserio::TypeInfoUtil::isSigned(t.getCppType()) ? std::to_string(v->toInt()) : std::to_string(v->toUInt()));
    }
}

static std::string num(size_t i)
{
    return i == zserio::WALKER_NOT_ELEMENT ? "-1" : std::to_string(i);
}

struct Log
{
    std::string& s;
    void add(const std::string& x)
    {
        if (!s.empty())
            s += ' ';
        s += x;
    }
};

struct Obs : zserio::IWalkObserver
{
    typedef zserio::IReflectableConstPtr P;
    typedef zserio::FieldInfo F;
    Log& log;
    explicit Obs(Log& l) : log(l)
    {}
    void beginRoot(const P&) override
    {
        log.add("R+");
    }
    void endRoot(const P&) override
    {
        log.add("R-");
    }
    void beginArray(const P& a, const F& f) override
    {
        log.add("A+" + str(f.schemaName) + ":" + std::to_string(a->size()));
    }
    void endArray(const P& a, const F& f) override
    {
        log.add("A-" + str(f.schemaName) + ":" + std::to_string(a->size()));
    }
    void beginCompound(const P&, const F& f, size_t i) override
    {
        log.add("C+" + str(f.schemaName) + ":" + num(i));
    }
    void endCompound(const P&, const F& f, size_t i) override
    {
        log.add("C-" + str(f.schemaName) + ":" + num(i));
    }
    void visitValue(const P& v, const F& f, size_t i) override
    {
        log.add("V" + str(f.schemaName) + ":" + num(i) + "=" + show(v));
    }
};

struct Script : zserio::IWalkFilter
{
    typedef zserio::IReflectableConstPtr P;
    typedef zserio::FieldInfo F;
    std::string bits;
    Log& log;
    size_t n = 0;
    Script(const std::string& b, Log& l) : bits(b), log(l)
    {}
    bool ask(const char* what, const F& f, size_t i)
    {
        const bool r = n >= bits.size() || bits[n] == '1';
        ++n;
        log.add(what + str(f.schemaName) + ":" + num(i) + "=" + (r ? "1" : "0"));
        return r;
    }
    bool beforeArray(const P&, const F& f) override
    {
        return ask("?A", f, zserio::WALKER_NOT_ELEMENT);
    }
    bool afterArray(const P&, const F& f) override
    {
        return ask("!A", f, zserio::WALKER_NOT_ELEMENT);
    }
    bool beforeCompound(const P&, const F& f, size_t i) override
    {
        return ask("?C", f, i);
    }
    bool afterCompound(const P&, const F& f, size_t i) override
    {
        return ask("!C", f, i);
    }
    bool beforeValue(const P&, const F& f, size_t i) override
    {
        return ask("?V", f, i);
    }
    bool afterValue(const P&, const F& f, size_t i) override
    {
        return ask("!V", f, i);
    }
};

struct Filters
{
    std::vector<std::unique_ptr<zserio::IWalkFilter>> own;
    zserio::IWalkFilter& make(const std::string& spec, Log& log)
    {
        const std::string a = spec.substr(1);
        switch (spec[0])
        {
        case '-':
            own.emplace_back(new zserio::DefaultWalkFilter());
            break;
        case 'D':
            own.emplace_back(new zserio::DepthWalkFilter(std::stoul(a)));
            break;
        case 'L':
            own.emplace_back(new zserio::ArrayLengthWalkFilter(std::stoul(a)));
            break;
        case 'R':
        {
            const auto b = unhex(a);
            own.emplace_back(new zserio::RegexWalkFilter(std::string(b.begin(), b.end()).c_str()));
            break;
        }
        case '&':
        {
            zserio::AndWalkFilter::WalkFilters fs;
            for (const auto& s : split(a, ';'))
                if (!s.empty())
                    fs.push_back(make(s, log));
            own.emplace_back(new zserio::AndWalkFilter(fs));
            break;
        }
        default:
            own.emplace_back(new Script(a, log));
        }
        return *own.back();
    }
};

void walkTree(const zserio::IReflectableConstPtr& r, const std::string& spec, std::string& out)
{
    std::string s;
    Log log{s};
    try
    {
        Filters fs;
        Obs obs(log);
        zserio::Walker w(obs, fs.make(spec, log));
        w.walk(r);
    }
    catch (const std::exception& e)
    {
        log.add(std::string("EXC ") + e.what());
    }
    out += "\t" + s;
}

template <typename FN>
static void withValue(const std::string& tok, FN fn)
{
    const std::string a = tok.substr(1);
    switch (tok[0])
    {
    case 'n':
        fn.null();
        break;
    case 'b':
        fn(a == "1");
        break;
    case 's':
    {
        const auto b = unhex(a);
        fn(std::string(b.begin(), b.end()));
        break;
    }
    case 'B':
        fn(zserio::vector<uint8_t>(unhex(a)));
        break;
    case 'X':
    {
        const auto d = unhex(a.substr(a.find(':') + 1));
        fn(zserio::BitBuffer(d.data(), std::stoul(a)));
        break;
    }
    case 'f':
    {
        const uint64_t u = std::stoull(a.substr(2), nullptr, 16);
        double d;
        std::memcpy(&d, &u, 8);
        if (a[0] == '6')
            fn(d);
        else
            fn(static_cast<float>(d));
        break;
    }
    case 'e':
        fn(split(a, ':')[1]);
        break;
    case 'm':
        fn(static_cast<uint64_t>(std::stoull(split(a, ':')[1])));
        break;
    default:
        if (a[1] == '-')
            fn(static_cast<int64_t>(std::stoll(a.substr(1))));
        else
            fn(static_cast<uint64_t>(std::stoull(a.substr(1))));
    }
}

struct Setter
{
    zserio::ZserioTreeCreator& c;
    std::string name;
    template <typename T>
    void operator()(T&& v)
    {
        c.setValue(name, std::forward<T>(v));
    }
    void null()
    {
        c.setValue(name, nullptr);
    }
};

struct Adder
{
    zserio::ZserioTreeCreator& c;
    template <typename T>
    void operator()(T&& v)
    {
        c.addValueElement(std::forward<T>(v));
    }
    void null()
    {}
};

void create(const zserio::ITypeInfo& ti, const std::string& ops, std::string& out)
{
    zserio::ZserioTreeCreator c(ti);
    std::string res, trees;
    for (const auto& op : split(ops, ' '))
    {
        const auto p = split(op, ',');
        const std::string& k = p[0];
        std::string r = "k";
        try
        {
            if (k == "BR")
                c.beginRoot();
            else if (k == "ER")
            {
                const zserio::IReflectablePtr o = c.endRoot();
                std::string w;
                try
                {
                    o->initializeChildren();
                    std::vector<uint8_t> buf(o->initializeOffsets(0) / 8 + 9);
                    zserio::BitStreamWriter bw(buf.data(), buf.size());
                    o->write(bw);
                    w = std::to_string(bw.getBitPosition()) + ":" + hex(buf.data(), (bw.getBitPosition() + 7) / 8);
                }
                catch (const std::exception&)
                {
                    w = "EXC";
                }
                trees += "\t" + w;
            }
            else if (k == "BA")
                c.beginArray(p[1]);
            else if (k == "EA")
                c.endArray();
            else if (k == "BC")
                c.beginCompound(p[1]);
            else if (k == "EC")
                c.endCompound();
            else if (k == "SV")
                withValue(p[2], Setter{c, p[1]});
            else if (k == "GF")
                r = "t" + str(c.getFieldType(p[1]).getSchemaName());
            else if (k == "BE")
                c.beginCompoundElement();
            else if (k == "EE")
                c.endCompoundElement();
            else if (k == "AV")
                withValue(p[1], Adder{c});
            else
                r = "t" + str(c.getElementType().getSchemaName());
        }
        catch (const zserio::CppRuntimeException&)
        {
            r = "r";
        }
        catch (const std::exception& e)
        {
            r = "EXC";
        }
        res += (res.empty() ? "" : " ") + r;
    }
    out += "\t" + res + trees;
}

} // namespace zvf

int main(int, char** argv)
{
    std::map<std::string, zvf::Handler> table;
    for (size_t i = 0; i < zvf::numEntries; ++i)
        table[zvf::entries[i].name] = zvf::entries[i].fn;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(in, line))
    {
        zvf::Line l;
        l.f = zvf::split(line, '\t');
        l.out = l.f[0];
        try
        {
            table.at(l.f[1])(l);
        }
        catch (const std::exception& e)
        {
            l.out += std::string("\tEXC ") + e.what();
        }
        out << l.out << "\n";
    }
    return 0;
}
