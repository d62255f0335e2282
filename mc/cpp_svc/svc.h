// Histories of calls, publications and subscriptions; see mc/svc.py.
#ifndef ZVF_SVC_H
#define ZVF_SVC_H
#include <cstdint>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/IPubsub.h"
#include "zserio/IService.h"
#include "zserio/PubsubException.h"
#include "zserio/ServiceException.h"

namespace zvf
{

typedef std::vector<uint8_t> Data;

static std::vector<std::string> events;
static std::string mode;
static Data resp;

inline Data unhex(const std::string& s)
{
    Data d;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        d.push_back(static_cast<uint8_t>(std::stoul(s.substr(i, 2), nullptr, 16)));
    return d;
}

inline std::string hex(const Data& d)
{
    static const char* t = "0123456789abcdef";
    std::string s;
    for (uint8_t b : d)
    {
        s += t[b >> 4];
        s += t[b & 15];
    }
    return s;
}

inline std::string text(zserio::StringView v)
{
    return std::string(v.begin(), v.end());
}

inline Data bytes(zserio::Span<const uint8_t> s)
{
    return Data(s.begin(), s.end());
}

inline std::string ctx(void* c)
{
    return c ? *static_cast<std::string*>(c) : "-";
}

template <typename T>
Data out(const T& o)
{
    Data d((o.bitSizeOf() + 7) / 8);
    zserio::BitStreamWriter w(d.data(), d.size());
    o.write(w);
    return d;
}
inline Data out(const Data& d)
{
    return d;
}
inline Data out(const zserio::Span<const uint8_t>& d)
{
    return bytes(d);
}

template <typename T>
struct Make
{
    static T make(const Data& d)
    {
        zserio::BitStreamReader r(d.data(), d.size());
        return T(r);
    }
};
template <>
struct Make<Data>
{
    static Data make(const Data& d)
    {
        return d;
    }
};
template <typename T>
T make(const Data& d)
{
    return Make<T>::make(d);
}

template <typename T>
T implement(const std::string& what, const Data& request, void* context)
{
    events.push_back("I:" + what + ":" + hex(request) + ":" + ctx(context));
    if (mode == "f")
        throw std::invalid_argument("failed");
    return make<T>(resp);
}

zserio::IService* service(const std::string& n);
std::string names();
std::vector<uint8_t> client(const std::string& svc, const std::string& m, const std::vector<uint8_t>& d, void* ctx);

#ifdef ZSERIO_REFLECTABLE_H_INC
#endif
inline Data direct(const std::string& svc, const std::string& name, const Data& data, void* context)
{
    auto r = service(svc)->callMethod(zserio::StringView(name.data(), name.size()), data, context);
    const Data a = bytes(r->getData());
    if (a != bytes(r->getData()))
        throw std::logic_error("data changed");
    auto reflectable = r->getReflectable();
    events.push_back("A:" + hex(a) + ":" + (reflectable ? "1" : "0"));
    if (reflectable)
    {
        Data again((reflectable->bitSizeOf() + 7) / 8);
        zserio::BitStreamWriter w(again.data(), again.size());
        reflectable->write(w);
        if (again != a)
            throw std::logic_error("reflected object differs");
    }
    return a;
}

class Transport : public zserio::IServiceClient
{
public:
    explicit Transport(const std::string& s) : svc(s) {}
    std::vector<uint8_t> callMethod(zserio::StringView name, const zserio::IServiceData& request, void* context) override
    {
        const Data d = bytes(request.getData());
        events.push_back("B:" + text(name) + ":" + hex(d) + ":" + (request.getReflectable() ? "1" : "0") + ":" + ctx(context));
        if (mode == "n")
            throw zserio::ServiceException("no transport");
        if (mode[0] == 'b')
            return unhex(mode.substr(1));
        return direct(svc, text(name), d, context);
    }

private:
    std::string svc;
};

class Broker : public zserio::IPubsub
{
public:
    void publish(zserio::StringView topic, zserio::Span<const uint8_t> data, void* context) override
    {
        events.push_back("P:" + text(topic) + ":" + hex(bytes(data)) + ":" + ctx(context));
        deliver(text(topic), bytes(data));
    }
    SubscriptionId subscribe(zserio::StringView topic, const std::shared_ptr<OnTopicCallback>& callback, void* context) override
    {
        events.push_back("S:" + text(topic) + ":" + ctx(context) + "=" + std::to_string(next));
        subs[next] = std::make_pair(text(topic), callback);
        return next++;
    }
    void unsubscribe(SubscriptionId id) override
    {
        events.push_back("U:" + std::to_string(id));
        if (subs.erase(id) == 0)
            throw zserio::PubsubException("no subscription");
    }
    void deliver(const std::string& topic, const Data& data)
    {
        for (auto& e : subs)
            if (e.second.first == topic)
                try
                {
                    (*e.second.second)(zserio::StringView(topic.data(), topic.size()), data);
                }
                catch (const std::exception&)
                {
                    events.push_back("E:" + std::to_string(e.first));
                }
    }
    std::map<size_t, std::pair<std::string, std::shared_ptr<OnTopicCallback>>> subs;
    size_t next = 1;
};

struct All;
All* makeAll(Broker& b);
void freeAll(All* a);
void publish(All& a, const std::string& ps, const std::string& m, const std::vector<uint8_t>& d, void* ctx);
size_t subscribe(All& a, const std::string& ps, const std::string& m, size_t id, void* ctx);
void unsubscribe(All& a, const std::string& ps, size_t id);

inline std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> f(1);
    for (char x : s)
        if (x == c)
            f.push_back("");
        else
            f.back() += x;
    return f;
}

inline std::string run(const std::vector<std::string>& op, Broker& b, All& all)
{
    std::string c;
    if (op[0] == "n")
        return names();
    if (op[0] == "m" || op[0] == "d")
    {
        resp = unhex(op[4]);
        mode = op[6];
        c = op[5];
        void* p = c == "-" ? nullptr : &c;
        return "=" + hex(op[0] == "m" ? client(op[1], op[2], unhex(op[3]), p) : direct(op[1], op[2], unhex(op[3]), p));
    }
    if (op[0] == "p")
    {
        c = op[4];
        publish(all, op[1], op[2], unhex(op[3]), c == "-" ? nullptr : &c);
        return "=";
    }
    if (op[0] == "s")
    {
        c = op[3];
        return "=" + std::to_string(subscribe(all, op[1], op[2], b.next, c == "-" ? nullptr : &c));
    }
    if (op[0] == "u")
        unsubscribe(all, op[1], std::stoul(op[2]));
    else
        b.deliver(op[1], unhex(op[2]));
    return "=";
}

inline int runAll(const char* in, const char* outName)
{
    std::ifstream i(in);
    std::ofstream o(outName);
    std::string line;
    while (std::getline(i, line))
    {
        const auto f = split(line, '\t');
        Broker b;
        std::shared_ptr<All> all(makeAll(b), freeAll);
        o << f[0];
        for (size_t k = 1; k < f.size(); ++k)
        {
            events.clear();
            std::string r;
            try
            {
                r = run(split(f[k], '|'), b, *all);
            }
            catch (const std::logic_error& e)
            {
                r = mode == "f" ? "x" : std::string("driver: ") + e.what();
            }
            catch (const std::exception&)
            {
                r = "x";
            }
            o << "\t";
            for (const auto& e : events)
                o << e << ";";
            o << r;
        }
        o << "\n";
    }
    return 0;
}

} // namespace zvf
#endif
