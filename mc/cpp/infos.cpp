#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include "infos.h"
#include "zserio/TypeInfoUtil.h"
#include "zserio/BitBuffer.h"

namespace zvf
{
extern const Entry entries[];
extern const size_t numEntries;

std::vector<uint8_t> unhex(const std::string& s)
{
    std::vector<uint8_t> o;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        o.push_back(static_cast<uint8_t>(std::stoul(s.substr(i, 2), nullptr, 16)));
    return o;
}

static std::string hex(const uint8_t* d, size_t n)
{
    static const char* const H = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; ++i)
    {
        s += H[d[i] >> 4];
        s += H[d[i] & 15];
    }
    return s;
}

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> o(1);
    for (char x : s)
        if (x == c)
            o.emplace_back();
        else
            o.back() += x;
    return o;
}

static std::string str(zserio::StringView v)
{
    return std::string(v.begin(), v.end());
}

static const char* kind(const zserio::ITypeInfo& t)
{
    switch (t.getSchemaType())
    {
    case zserio::SchemaType::STRUCT:
        return "struct";
    case zserio::SchemaType::CHOICE:
        return "choice";
    case zserio::SchemaType::UNION:
        return "union";
    case zserio::SchemaType::ENUM:
        return "enum";
    case zserio::SchemaType::BITMASK:
        return "bitmask";
    default:
        return nullptr;
    }
}

static std::string strip(const std::string& n)
{
    if (n.size() < 10 || n[n.size() - 9] != '_')
        return n;
    for (size_t i = n.size() - 8; i < n.size(); ++i)
        if (std::strchr("0123456789ABCDEF", n[i]) == nullptr)
            return n;
    return n.substr(0, n.size() - 9);
}

struct Graph
{
    std::map<std::string, int> num;
    std::deque<const zserio::ITypeInfo*> queue;

    std::string ref(const zserio::ITypeInfo& t)
    {
        const std::string n = str(t.getSchemaName());
        if (kind(t) == nullptr)
            return n;
        if (num.find(n) == num.end())
        {
            const int k = static_cast<int>(num.size());
            num[n] = k;
            queue.push_back(&t);
        }
        return strip(n) + "#" + std::to_string(num[n]);
    }

    static std::string b(bool x)
    {
        return x ? "1" : "0";
    }

    std::string one(const zserio::ITypeInfo& t)
    {
        const std::string k = kind(t);
        std::string s = "T " + k + " " + strip(str(t.getSchemaName()));
        if (k == "enum" || k == "bitmask")
        {
            const zserio::ITypeInfo& u = t.getUnderlyingType();
            s += ";U " + ref(u) + " " + (t.getUnderlyingTypeArguments().empty() ? "-" : std::to_string(t.getUnderlyingTypeArguments().size()));
            const bool sg = zserio::TypeInfoUtil::isSigned(u.getCppType());
            for (const zserio::ItemInfo& i : k == "enum" ? t.getEnumItems() : t.getBitmaskValues())
                s += ";I " + str(i.schemaName) + " " + (sg ? std::to_string(static_cast<int64_t>(i.value)) : std::to_string(i.value)) + " " + b(i.isDeprecated) + " " + b(i.isRemoved);
            return s;
        }
        for (const auto& f : t.getFields())
        {
            const std::string arr = !f.isArray ? "no" : f.isImplicit ? f.arrayLength.empty() ? "implicit" : "?" : f.arrayLength.empty() ? "auto" : "fixed";
            const std::string opt = !f.isOptional ? "no" : f.optionalCondition.empty() ? "auto" : "cond";
            s += ";F " + str(f.schemaName) + " " + ref(f.typeInfo) + " " + arr + " " + b(f.isPacked) + " " + b(f.isExtended) + " " + opt + " " + b(!f.alignment.empty()) + " " + b(!f.offset.empty()) + " " + b(!f.initializer.empty()) + " " +
                    b(!f.constraint.empty()) + " " + std::to_string(f.typeArguments.size());
        }
        for (const auto& p : t.getParameters())
            s += ";P " + str(p.schemaName) + " " + ref(p.typeInfo);
        for (const auto& p : t.getFunctions())
            s += ";N " + str(p.schemaName) + " " + ref(p.typeInfo) + (p.functionResult.empty() ? "?" : "");
        if (k == "choice")
        {
            if (t.getSelector().empty())
                s += ";?";
            for (const auto& c : t.getCases())
                s += ";C " + std::to_string(c.caseExpressions.size()) + " " + (c.field == nullptr ? "-" : str(c.field->schemaName));
        }
        if (!t.getTemplateName().empty())
        {
            s += ";G " + str(t.getTemplateName());
            for (const auto& a : t.getTemplateArguments())
                s += " " + ref(a.typeInfo);
        }
        else if (!t.getTemplateArguments().empty())
            s += ";?";
        return s;
    }
};

void graph(const zserio::ITypeInfo& t, std::string& out)
{
    Graph g;
    g.ref(t);
    out += "\t";
    bool first = true;
    while (!g.queue.empty())
    {
        const zserio::ITypeInfo* x = g.queue.front();
        g.queue.pop_front();
        out += (first ? "" : "|") + g.one(*x);
        first = false;
    }
}

static std::string token(const zserio::IReflectableConstPtr& v)
{
    if (!v)
        return "n";
    if (v->isArray())
        return "A" + std::to_string(v->size());
    const zserio::ITypeInfo& t = v->getTypeInfo();
    switch (t.getCppType())
    {
    case zserio::CppType::BOOL:
        return v->getBool() ? "b1" : "b0";
    case zserio::CppType::FLOAT:
    case zserio::CppType::DOUBLE:
    {
        const double d = v->toDouble();
        uint64_t u;
        std::memcpy(&u, &d, 8);
        uint8_t b[8];
        for (int i = 0; i < 8; ++i)
            b[i] = static_cast<uint8_t>(u >> (56 - 8 * i));
        return "f" + hex(b, 8);
    }
    case zserio::CppType::STRING:
    {
        const auto s = v->getStringView();
        return "s" + hex(reinterpret_cast<const uint8_t*>(s.data()), s.size());
    }
    case zserio::CppType::BYTES:
    {
        const auto s = v->getBytes();
        return "B" + hex(s.data(), s.size());
    }
    case zserio::CppType::BIT_BUFFER:
    {
        const zserio::BitBuffer& b = v->getBitBuffer();
        return "X" + std::to_string(b.getBitSize()) + ":" + hex(b.getBuffer(), b.getByteSize());
    }
    case zserio::CppType::ENUM:
        return "e" + (zserio::TypeInfoUtil::isSigned(t.getUnderlyingType().getCppType()) ? std::to_string(v->toInt()) : std::to_string(v->toUInt()));
    case zserio::CppType::BITMASK:
        return "m" + std::to_string(v->toUInt());
    case zserio::CppType::STRUCT:
    case zserio::CppType::CHOICE:
    case zserio::CppType::UNION:
        return "C";
    default:
        return "i" + (zserio::TypeInfoUtil::isSigned(t.getCppType()) ? std::to_string(v->toInt()) : std::to_string(v->toUInt()));
    }
}

template <typename PTR>
static std::string answer(PTR r, const std::string& q)
{
    const size_t slash = q.find('/');
    std::string path;
    bool whole = true;      // path has no array elements
    const PTR root = r;
    if (slash > 0)
        for (const std::string& step : split(q.substr(0, slash), ','))
        {
            const auto p = split(step, ':');
            const auto& f = r->getTypeInfo().getFields()[static_cast<size_t>(std::stoul(p[0]))];
            r = r->getField(f.schemaName);
            path += str(f.schemaName) + ".";
            if (p[1][0] != '-')
            {
                r = r->at(static_cast<size_t>(std::stoul(p[1])));
                whole = false;
            }
        }
    const zserio::ITypeInfo& t = r->getTypeInfo();
    const std::string a = q.substr(slash + 2);
    switch (q[slash + 1])
    {
    case 'Q':
        return token(r->getParameter(zserio::StringView(a.data(), a.size())));
    case 'N':
        return token(r->callFunction(t.getFunctions()[static_cast<size_t>(std::stoul(a))].schemaName));
    case 'X':
        return str(r->getChoice());
    case 'F':
    {
        const std::string found = token(r->find(zserio::StringView(a.data(), a.size())));
        return token((*r)[zserio::StringView(a.data(), a.size())]) == found ? found : "operator[]" + found;
    }
    case 'W':
    {
        std::vector<uint8_t> buf(r->bitSizeOf(0) / 8 + 1);
        zserio::BitStreamWriter w(buf.data(), buf.size());
        r->write(w);
        return std::to_string(w.getBitPosition()) + ":" + hex(buf.data(), (w.getBitPosition() + 7) / 8) + ":" + std::to_string(r->bitSizeOf(0));
    }
    default:
    {
        const auto p = split(a, '.');
        const auto& f = t.getFields()[static_cast<size_t>(std::stoul(p[0]))];
        const auto v = r->getField(f.schemaName);
        if (p.size() > 1)
            return token(v->at(static_cast<size_t>(std::stoul(p[1]))));
        path += str(f.schemaName);
        if (whole && token(root->find(zserio::StringView(path.data(), path.size()))) != token(v))
            return "find_" + path;
        return token(v);
    }
    }
}

template <typename PTR>
static std::string safeAnswer(const PTR& r, const std::string& q)
{
    try
    {
        return answer(r, q);
    }
    catch (const std::exception& e)
    {
        std::string a = std::string("EXC-") + e.what();
        for (char& c : a)
            if (c == ' ')
                c = '_';
        return a;
    }
}

void answers(const zserio::IReflectableConstPtr& r, const zserio::IReflectablePtr& m, const std::string& queries, std::string& out)
{
    out += "\t";
    bool first = true;
    for (const std::string& q : split(queries, ' '))
    {
        if (q.empty())
            continue;
        const std::string a = safeAnswer(r, q);
        const std::string b = safeAnswer(m, q);
        out += (first ? "" : " ") + a + (a == b ? "" : "/mutable:" + b);
        first = false;
    }
}

void setAll(const zserio::IReflectablePtr& m)
{
    const auto& t = m->getTypeInfo();
    for (const auto& f : t.getFields())
    {
        if (zserio::TypeInfoUtil::hasChoice(t.getCppType()) && m->getChoice() != f.schemaName)
            continue;
        const auto v = m->getField(f.schemaName);
        if (!v)
            continue;
        // compounds and arrays are not set: nothing but their own C++ type would be accepted
        if (v->isArray())
            continue;
        const auto type = v->getTypeInfo().getCppType();
        if (zserio::TypeInfoUtil::isCompound(type))
            setAll(v);
        else if (type == zserio::CppType::STRING)
            m->setField(f.schemaName, zserio::AnyHolder<>(str(v->getStringView())));
        else if (type == zserio::CppType::BYTES)
            m->setField(f.schemaName, zserio::AnyHolder<>(std::vector<uint8_t>(v->getBytes().begin(), v->getBytes().end())));
        else if (type == zserio::CppType::BIT_BUFFER)
            m->setField(f.schemaName, zserio::AnyHolder<>(zserio::BitBuffer(v->getBitBuffer())));
        else
            m->setField(f.schemaName, v->getAnyValue());
    }
}

} // namespace zvf

int main(int, char** argv)
{
    std::map<std::string, zvf::Handler> table;
    for (size_t i = 0; i < zvf::numEntries; ++i)
        table[zvf::entries[i].name] = zvf::entries[i].fn;
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    while (std::getline(in, line))
    {
        zvf::Line l;
        l.f = zvf::split(line, '\t');
        l.out = l.f[0];
        try
        {
            table.at(l.f[1])(l);
        }
        catch (const std::exception& e)
        {
            l.out += std::string("\tEXC ") + e.what();
        }
        out << l.out << "\n";
    }
    return 0;
}
