// Exhaustive exploration of operation sequences on the holders of the C++ runtime (optional holders, AnyHolder, unique_ptr).
// Every sequence of a given depth is run against a model; afterwards its last operation is run again with every possible
// failure of an allocation or element construction. Elements and memory are tracked: double construction or destruction,
// use of dead elements, memory returned twice, to the wrong arena or not at all are reported.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "zserio/AllocatorPropagatingCopy.h"
#include "zserio/AnyHolder.h"
#include "zserio/OptionalHolder.h"
#include "zserio/UniquePtr.h"

static long long states = 0, transitions = 0, traces = 0;
static std::map<std::string, std::string> bad; // kind -> first history
static std::string history;
static std::string problem;

static void fail(const std::string& what)
{
    if (problem.empty())
        problem = what;
}

extern "C" void __asan_set_death_callback(void (*callback)(void));
static const char* machine;
static const std::vector<int>* currentOps;
static long currentFault;
static std::string (*currentName)(int);
static void report();
static void died()
{
    std::string m = machine, h = m + ":";
    for (int o : *currentOps)
        h += " " + currentName(o);
    if (currentFault)
        h += " (failure at point " + std::to_string(currentFault) + " of the last operation)";
    bad[m + (currentFault ? ":failure:" : ":") + currentName(currentOps->back()) + ":memory error found by AddressSanitizer"] = h;
    report();
}

// ------------------------------------------------------------------------------------------- failures
struct Fault
{};
static long failAt = 0; // 0: never
static void point()
{
    if (failAt > 0 && --failAt == 0)
        throw Fault();
}

// ------------------------------------------------------------------------------------------- arenas
struct Arenas
{
    std::map<void*, std::pair<int, size_t>> live;
    void* get(int arena, size_t n)
    {
        point();
        void* p = std::malloc(n ? n : 1);
        live[p] = std::make_pair(arena, n);
        return p;
    }
    void put(int arena, void* p, size_t n)
    {
        auto it = live.find(p);
        if (it == live.end())
            return fail("memory returned that was not allocated (or returned twice)");
        if (it->second.first != arena)
            fail("memory of allocator " + std::to_string(it->second.first) + " returned to allocator " + std::to_string(arena));
        if (it->second.second != n)
            fail("memory returned with another size");
        live.erase(it);
        std::memset(p, 0xdd, n);
        std::free(p);
    }
};
static Arenas arenas;

template <typename T, int P> // P: 1 propagate on copy assignment, 2 on move assignment, 4 selected on copy construction
struct TA
{
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (P & 1) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (P & 2) != 0>;
    using propagate_on_container_swap = std::integral_constant<bool, (P & 2) != 0>;
    template <typename U>
    struct rebind
    {
        using other = TA<U, P>;
    };
    int arena;
    TA(int a = 9) : arena(a) {}
    template <typename U>
    TA(const TA<U, P>& o) : arena(o.arena)
    {}
    T* allocate(size_t n)
    {
        return static_cast<T*>(arenas.get(arena, n * sizeof(T)));
    }
    void deallocate(T* p, size_t n)
    {
        arenas.put(arena, p, n * sizeof(T));
    }
    TA select_on_container_copy_construction() const
    {
        return (P & 4) ? *this : TA(8);
    }
    template <typename U>
    bool operator==(const TA<U, P>& o) const
    {
        return arena == o.arena;
    }
    template <typename U>
    bool operator!=(const TA<U, P>& o) const
    {
        return arena != o.arena;
    }
};

// ------------------------------------------------------------------------------------------- elements
static std::set<const void*> alive;

struct Tracked
{
    int v;
    char how; // c: constructed or copied with initialization, n: without
    explicit Tracked(int value) : v(value), how('c')
    {
        born();
    }
    Tracked(const Tracked& o) : v(o.v), how('c')
    {
        o.check();
        point();
        born();
    }
    Tracked(Tracked&& o) noexcept : v(o.v), how('c')
    {
        o.check();
        o.v = -1;
        born();
    }
    struct MayThrow
    {};
    Tracked(MayThrow, Tracked& o) : v(o.v), how('c')
    {
        o.check();
        point();
        o.v = -1;
        born();
    }
    Tracked& operator=(const Tracked& o)
    {
        check();
        o.check();
        point();
        v = o.v;
        how = 'c';
        return *this;
    }
    Tracked& operator=(Tracked&& o)
    {
        check();
        o.check();
        v = o.v;
        how = 'c';
        if (&o != this)
            o.v = -1;
        return *this;
    }
    ~Tracked()
    {
        if (alive.erase(this) == 0)
            fail("element destroyed that is not alive");
        v = -99;
    }
    void born()
    {
        if (!alive.insert(this).second)
            fail("element constructed over a living element");
    }
    void check() const
    {
        if (alive.count(this) == 0)
            fail("use of an element that is not alive");
    }
    bool operator==(const Tracked& o) const
    {
        check();
        o.check();
        return v == o.v;
    }
    bool operator<(const Tracked& o) const
    {
        check();
        o.check();
        return v < o.v;
    }
};

struct Small : Tracked // in place in AnyHolder
{
    using Tracked::Tracked;
};
struct Big : Tracked // on the heap in AnyHolder
{
    explicit Big(int v) : Tracked(v), inner(v + 50) {}
    Small inner;
    char fill[64] = {};
};
struct Thrower : Tracked // move may throw
{
    explicit Thrower(int v) : Tracked(v) {}
    Thrower(const Thrower& o) : Tracked(o) {}
    Thrower(Thrower&& o) : Tracked(MayThrow(), o) {}
    Thrower& operator=(const Thrower&) = default;
    Thrower& operator=(Thrower&&) = default;
};
struct Plain : Tracked // has constructors without initialization
{
    explicit Plain(int v) : Tracked(v) {}
    Plain(const Plain& o) = default;
    Plain(Plain&& o) noexcept : Tracked(std::move(o)) {}
    Plain(zserio::NoInitT, const Plain& o) : Tracked(o)
    {
        how = 'n';
    }
    Plain(zserio::NoInitT, Plain&& o) : Tracked(std::move(o))
    {
        how = 'n';
    }
    Plain& operator=(const Plain&) = default;
    Plain& operator=(Plain&&) = default;
};
struct Tree : Tracked // contains others of its kind
{
    std::vector<Tree> kids;
    explicit Tree(int v) : Tracked(v)
    {
        if (v < 100 && v > 0)
            kids.emplace_back(v + 100);
    }
    Tree(const Tree& o) = default;
    Tree(Tree&& o) noexcept = default;
    Tree& operator=(const Tree& o) = default;
    Tree& operator=(Tree&& o) = default;
};

// ------------------------------------------------------------------------------------------- model
struct Slot
{
    int type; // -1: empty; 0 for optional holders
    int v;
    char how; // '?': either
};
static const Slot EMPTY = {-1, 0, 'c'};

static bool check(const Slot& want, bool has, const Tracked* e, const char* name)
{
    if (has != (want.type >= 0))
        fail(std::string(name) + (has ? " has a value, expected none" : " has no value, expected one"));
    else if (has)
    {
        e->check();
        if (e->v != want.v)
            fail(std::string(name) + " holds " + std::to_string(e->v) + ", expected " + std::to_string(want.v));
        else if (want.how != '?' && e->how != want.how)
            fail(std::string(name) + " holds a value constructed " + (e->how == 'n' ? "without" : "with") + " initialization");
    }
    return problem.empty();
}

template <typename T>
using noinit = std::integral_constant<bool, std::is_constructible<T, zserio::NoInitT, T>::value>;

// ------------------------------------------------------------------------------------------- optional holders
template <typename H, typename T>
struct Opt
{
    H x, y;
    Slot mx = EMPTY, my = EMPTY;
    Opt(const H& a, const H& b) : x(a), y(b) {}

    static const Tracked* elem(const H& h)
    {
        return h.hasValue() ? h.operator->() : nullptr;
    }
    // what a moved-from holder keeps is its own business, as long as it is one value or none
    static void moved(H& h, Slot& m)
    {
        m = h.hasValue() ? Slot{0, h->v, h->how} : EMPTY;
    }
    bool agree()
    {
        for (int i = 0; i < 2; ++i)
        {
            H& h = i ? y : x;
            const H& c = h;
            Slot& m = i ? my : mx;
            const char* n = i ? "y" : "x";
            if (!check(m, h.hasValue(), elem(h), n))
                return false;
            if (static_cast<bool>(h) != h.hasValue())
                fail(std::string(n) + ": operator bool");
            int ok = 0;
            for (int k = 0; k < 4; ++k)
            {
                try
                {
                    const Tracked& e = k == 0 ? *h : k == 1 ? *c : k == 2 ? h.value() : c.value();
                    ok += &e == elem(h);
                }
                catch (const zserio::CppRuntimeException&)
                {}
            }
            if (ok != (h.hasValue() ? 4 : 0))
                fail(std::string(n) + ": value accessors");
        }
        bool eq = mx.type == my.type && (mx.type < 0 || mx.v == my.v);
        bool lt = mx.type < 0 ? my.type >= 0 : my.type >= 0 && mx.v < my.v;
        if ((x == y) != eq || (y == x) != eq || !(x == x))
            fail("operator==");
        if ((x < y) != lt || x < x)
            fail("operator<");
        return problem.empty();
    }
    static const int OPS = 25;
    void assignNoInit(std::true_type, int op)
    {
        Slot b = my;
        switch (op)
        {
        case 0:
            x.assign(zserio::NoInit, y);
            mx = b.type < 0 ? EMPTY : Slot{0, b.v, 'n'};
            break;
        case 1:
            x.assign(zserio::NoInit, std::move(y));
            mx = b.type < 0 ? EMPTY : Slot{0, b.v, '?'};
            moved(y, my);
            break;
        case 2:
        {
            H z(zserio::NoInit, x);
            check(mx.type < 0 ? EMPTY : Slot{0, mx.v, 'n'}, z.hasValue(), elem(z), "z");
            break;
        }
        case 3:
        {
            Slot was = mx;
            H z(zserio::NoInit, std::move(x));
            moved(x, mx);
            check(was.type < 0 ? EMPTY : Slot{0, was.v, '?'}, z.hasValue(), elem(z), "z");
            break;
        }
        default:
        {
            H z(zserio::NoInit, T(5));
            check(Slot{0, 5, 'n'}, z.hasValue(), elem(z), "z");
            H u(zserio::NullOpt);
            u.assign(zserio::NoInit, z);
            check(Slot{0, 5, 'n'}, u.hasValue(), elem(u), "u");
        }
        }
    }
    void assignNoInit(std::false_type, int) {}
    void alias(Tree* root)
    {
        if (root->kids.empty())
            x = *x;
        else
        {
            int v = root->kids[0].v;
            x = reinterpret_cast<const T&>(root->kids[0]);
            mx = Slot{0, v, 'c'};
        }
    }
    void alias(void*)
    {
        x = *x;
    }
    template <typename A>
    void extended(const A* a, int op)
    {
        if (op == 0)
        {
            H z(x, *a);
            check(mx.type < 0 ? EMPTY : Slot{0, mx.v, 'c'}, z.hasValue(), elem(z), "z");
            if (z.get_allocator() != *a)
                fail("allocator of an extended copy");
        }
        else
        {
            Slot was = mx;
            H z(std::move(x), *a);
            moved(x, mx);
            check(was.type < 0 ? EMPTY : Slot{0, was.v, '?'}, z.hasValue(), elem(z), "z");
            if (z.get_allocator() != *a)
                fail("allocator of an extended move");
        }
    }
    void extended(const void*, int) {}
    template <typename A>
    void propagating(const A* a)
    {
        H z(zserio::allocatorPropagatingCopy(x, *a));
        check(mx.type < 0 ? EMPTY : Slot{0, mx.v, 'c'}, z.hasValue(), elem(z), "z");
        if (z.get_allocator() != *a)
            fail("allocator of a propagating copy");
    }
    void propagating(const void*)
    {
        H z(zserio::allocatorPropagatingCopy(x, TA<uint8_t, 0>(1)));
        check(mx.type < 0 ? EMPTY : Slot{0, mx.v, 'c'}, z.hasValue(), elem(z), "z");
    }
    // what ends up in a target: copies are initialized
    void step(int op, const void* al);
};

template <typename H>
struct AllocOf
{
    using type = void;
};
template <typename T, typename A>
struct AllocOf<zserio::detail::heap_optional_holder<T, A>>
{
    using type = A;
};

template <typename H, typename T>
void Opt<H, T>::step(int op, const void* al)
{
    using A = typename AllocOf<H>::type;
    Slot a = mx, b = my;
    switch (op)
    {
    case 0:
    {
        const T t(1);
        x = t;
        mx = {0, 1, 'c'};
        break;
    }
    case 1:
        x = T(2);
        mx = {0, 2, 'c'};
        break;
    case 2:
        y = T(3);
        my = {0, 3, 'c'};
        break;
    case 3: // itself
        if (a.type >= 0)
        {
            const T& self = *x;
            x = self;
            mx.how = 'c';
        }
        break;
    case 4: // a part of itself
        if (a.type >= 0)
        {
            mx.how = 'c';
            alias(x.operator->());
        }
        break;
    case 5:
        x = y;
        mx = b.type < 0 ? EMPTY : Slot{0, b.v, 'c'};
        break;
    case 6:
        x = std::move(y);
        mx = b.type < 0 ? EMPTY : Slot{0, b.v, '?'};
        moved(y, my);
        break;
    case 7:
    {
        H& same = x;
        x = same;
        break;
    }
    case 8:
    {
        H& same = x;
        x = std::move(same);
        break;
    }
    case 9:
        x.reset();
        mx = EMPTY;
        break;
    case 10:
        y = x;
        my = a.type < 0 ? EMPTY : Slot{0, a.v, 'c'};
        break;
    case 11:
        y = std::move(x);
        my = a.type < 0 ? EMPTY : Slot{0, a.v, '?'};
        moved(x, mx);
        break;
    case 12:
    {
        H z(x);
        check(a.type < 0 ? EMPTY : Slot{0, a.v, 'c'}, z.hasValue(), elem(z), "z");
        break;
    }
    case 13:
    {
        H z(std::move(x));
        moved(x, mx);
        check(a.type < 0 ? EMPTY : Slot{0, a.v, '?'}, z.hasValue(), elem(z), "z");
        break;
    }
    case 14:
        extended(static_cast<const A*>(al), 0);
        break;
    case 15:
        extended(static_cast<const A*>(al), 1);
        break;
    case 16:
    case 17:
    case 18:
    case 19:
    case 20:
        assignNoInit(noinit<T>(), op - 16);
        break;
    case 21:
        if (a.type >= 0)
        {
            x->v = 7;
            mx.v = 7;
        }
        break;
    case 22:
        x = H(zserio::NullOpt);
        mx = EMPTY;
        break;
    case 23:
    {
        const H z(T(6));
        x = z;
        mx = {0, 6, 'c'};
        break;
    }
    case 24:
    {
        propagating(static_cast<const A*>(al));
        break;
    }
    }
    // a value kept by moving it is as it was
    if (mx.how == '?' && x.hasValue())
        mx.how = x->how;
    if (my.how == '?' && y.hasValue())
        my.how = y->how;
}

template <typename M>
struct Explorer
{
    // make(body): creates a fresh machine, runs body on it and destroys it
    std::string name;
    int depth;

    bool runSequence(const std::vector<int>& ops, long fault, bool* fired)
    {
        problem.clear();
        failAt = 0;
        currentOps = &ops;
        currentFault = fault;
        currentName = &M::opName;
        machine = name.c_str();
        {
            M m;
            for (size_t i = 0; i < ops.size(); ++i)
            {
                transitions++;
                bool last = i + 1 == ops.size();
                if (last && fault)
                {
                    failAt = fault;
                    bool threw = false;
                    try
                    {
                        m.step(ops[i]);
                    }
                    catch (const Fault&)
                    {
                        threw = true;
                    }
                    *fired = threw;
                    failAt = 0;
                    if (threw)
                        m.afterFailure();
                    else
                        m.agree();
                }
                else
                {
                    m.step(ops[i]);
                    if (!m.agree())
                        break;
                }
                if (!problem.empty())
                    break;
            }
        }
        if (problem.empty() && !alive.empty())
            fail(std::to_string(alive.size()) + " element(s) never destroyed");
        if (problem.empty() && !arenas.live.empty())
            fail("memory of allocator " + std::to_string(arenas.live.begin()->second.first) + " never returned");
        bool ok = problem.empty();
        if (!ok)
        {
            std::string h = name + ":";
            for (int o : ops)
                h += " " + M::opName(o);
            if (fault)
                h += " (failure at point " + std::to_string(fault) + " of the last operation)";
            std::string kind = name + (fault ? ":failure:" : ":") + M::opName(ops.back()) + ":" + problem;
            if (!bad.count(kind))
                bad[kind] = h;
        }
        alive.clear();
        arenas.live.clear();
        return ok;
    }
    void explore(std::vector<int>& ops)
    {
        for (int o = 0; o < M::OPS; ++o)
        {
            if (!M::applicable(o))
                continue;
            ops.push_back(o);
            states++;
            if (runSequence(ops, 0, nullptr))
            {
                traces++;
                for (long k = 1; k < 50; ++k)
                {
                    bool fired = false;
                    bool ok = runSequence(ops, k, &fired);
                    if (!ok || !fired)
                        break;
                    states++;
                    traces++;
                }
                if (static_cast<int>(ops.size()) < depth)
                    explore(ops);
            }
            ops.pop_back();
        }
    }
};

static const char* OPT_OPS[] = {"x=const&(1)", "x=T(2)", "y=T(3)", "x=*x", "x=part-of-x", "x=y", "x=move(y)", "x=x", "x=move(x)", "x.reset", "y=x", "y=move(x)", "z(x)", "z(move(x))", "z(x,alloc)", "z(move(x),alloc)",
        "x.assign(NoInit,y)", "x.assign(NoInit,move(y))", "z(NoInit,x)", "z(NoInit,move(x))", "z(NoInit,T)", "x->v=7", "x=NullOpt", "x=H(T(6))", "propagating-copy(x)"};

template <typename T, int P, int AX, int AY, int AZ>
struct HeapM : Opt<zserio::HeapOptionalHolder<T, TA<T, P>>, T>
{
    using H = zserio::HeapOptionalHolder<T, TA<T, P>>;
    using B = Opt<H, T>;
    HeapM() : B(H(TA<T, P>(AX)), H(TA<T, P>(AY)))
    {
        fresh(std::integral_constant<bool, (P & 4) != 0>());
    }
    void fresh(std::true_type) {}
    void fresh(std::false_type) {}
    static bool applicable(int o)
    {
        return o < 16 || o > 20 || noinit<T>::value;
    }
    static std::string opName(int o)
    {
        return OPT_OPS[o];
    }
    static const int OPS = B::OPS;
    int allocX()
    {
        return this->x.get_allocator().arena;
    }
    void step(int o)
    {
        TA<T, P> al(AZ);
        int ax = allocX(), ay = this->y.get_allocator().arena;
        bool self = o == 7 || o == 8;
        B::step(o, &al);
        // the allocator of the target after an assignment
        int wantX = ax, wantY = ay;
        if (o == 5 || o == 16)
            wantX = (P & 1) ? ay : ax;
        if (o == 6 || o == 17)
            wantX = (P & 2) ? ay : ax;
        if (o == 10)
            wantY = (P & 1) ? ax : ay;
        if (o == 11)
            wantY = (P & 2) ? ax : ay;
        if (o == 22)
            wantX = (P & 2) ? 9 : ax;
        if (o == 23)
            wantX = (P & 1) ? 9 : ax;
        if (self)
            wantX = ax;
        if (allocX() != wantX || this->y.get_allocator().arena != wantY)
            fail("allocators after the operation are " + std::to_string(allocX()) + " and " + std::to_string(this->y.get_allocator().arena) + ", expected " + std::to_string(wantX) + " and " + std::to_string(wantY));
        if (o == 12)
        {
            H z(this->x);
            if (z.get_allocator().arena != ((P & 4) ? ax : 8))
                fail("allocator selected for a copy");
        }
    }
    void afterFailure()
    {
        B::moved(this->x, this->mx);
        B::moved(this->y, this->my);
        this->agree();
        failAt = 0;
        this->x = T(4);
        this->y = this->x;
        this->mx = this->my = Slot{0, 4, 'c'};
        this->agree();
    }
};

template <typename T>
struct InplaceM : Opt<zserio::InplaceOptionalHolder<T>, T>
{
    using H = zserio::InplaceOptionalHolder<T>;
    using B = Opt<H, T>;
    InplaceM() : B(H(), H(zserio::NullOpt)) {}
    static bool applicable(int o)
    {
        return o != 14 && o != 15 && (o < 16 || o > 20 || noinit<T>::value);
    }
    static std::string opName(int o)
    {
        return OPT_OPS[o];
    }
    static const int OPS = B::OPS;
    void step(int o)
    {
        B::step(o, nullptr);
    }
    void afterFailure()
    {
        B::moved(this->x, this->mx);
        B::moved(this->y, this->my);
        this->agree();
        this->x = T(4);
        this->y = this->x;
        this->mx = this->my = Slot{0, 4, 'c'};
        this->agree();
    }
};

// ------------------------------------------------------------------------------------------- AnyHolder
static const char* ANY_OPS[] = {"x=Small&", "x=Big&", "x=Thrower&", "x=Plain&", "x=Tree&", "y=Small", "y=Big", "y=Thrower", "y=Plain", "x.set(NoInit,Plain)", "x=own-value", "x=part-of-own-value", "x=y", "x=move(y)", "x=x", "x=move(x)", "x.reset",
        "y=x", "y=move(x)", "z(x)", "z(move(x))", "z(x,alloc)", "z(move(x),alloc)", "x.assign(NoInit,y)", "x.assign(NoInit,move(y))", "z(NoInit,x)", "z(NoInit,move(x))", "z(NoInit,x,alloc)", "z(NoInit,move(x),alloc)", "z(T)", "z(NoInit,T)", "x.get=7"};

template <int P, int AX, int AY, int AZ>
struct AnyM
{
    using A = TA<uint8_t, P>;
    using H = zserio::AnyHolder<A>;
    H x, y;
    Slot mx = EMPTY, my = EMPTY;
    AnyM() : x(A(AX)), y(A(AY)) {}

    template <typename T>
    static const Tracked* get(const H& h)
    {
        return &h.template get<T>();
    }
    static const Tracked* elem(const H& h, int t)
    {
        return t == 0 ? get<Small>(h) : t == 1 ? get<Big>(h) : t == 2 ? get<Thrower>(h) : t == 3 ? get<Plain>(h) : get<Tree>(h);
    }
    static int typeOf(const H& h)
    {
        bool is[] = {h.template isType<Small>(), h.template isType<Big>(), h.template isType<Thrower>(), h.template isType<Plain>(), h.template isType<Tree>()};
        int t = -1, n = 0;
        for (int i = 0; i < 5; ++i)
            if (is[i])
            {
                t = i;
                n++;
            }
        if (n > 1 || h.template isType<int>() || (n == 1) != h.hasValue())
            fail("isType");
        return t;
    }
    static void checkHolder(const Slot& m, const H& h, const char* name)
    {
        int t = typeOf(h);
        if (t != m.type)
            return fail(std::string(name) + " holds type " + std::to_string(t) + ", expected " + std::to_string(m.type));
        const int other = (m.v + 1 + (t < 0 ? 0 : t)) % 5;
        for (int i = 0; i < 5; ++i)
        {
            if (i != t && i != other)
                continue;
            bool ok = true;
            try
            {
                elem(h, i);
            }
            catch (const zserio::CppRuntimeException&)
            {
                ok = false;
            }
            if (ok != (i == t))
                return fail(std::string(name) + ".get");
        }
        check(m, t >= 0, t >= 0 ? elem(h, t) : nullptr, name);
    }
    static Slot now(const H& h)
    {
        int t = typeOf(h);
        return t < 0 ? EMPTY : Slot{t, elem(h, t)->v, elem(h, t)->how};
    }
    bool agree()
    {
        checkHolder(mx, x, "x");
        checkHolder(my, y, "y");
        return problem.empty();
    }
    static bool applicable(int)
    {
        return true;
    }
    static std::string opName(int o)
    {
        return ANY_OPS[o];
    }
    static const int OPS = 32;
    static Slot copied(Slot s, bool noInit = false)
    {
        if (s.type >= 0)
            s.how = noInit && s.type == 3 ? 'n' : 'c';
        return s;
    }
    static Slot movedTo(Slot s)
    {
        if (s.type >= 0)
            s.how = '?';
        return s;
    }
    template <typename T>
    void setRef(int type)
    {
        const T t(1);
        x = t;
        mx = {type, 1, 'c'};
    }
    template <typename T>
    void own()
    {
        const T& t = x.template get<T>();
        x = t;
        mx.how = 'c';
    }
    void step(int o)
    {
        const A al(AZ);
        Slot a = mx, b = my;
        int ax = x.get_allocator().arena, ay = y.get_allocator().arena, wantX = ax, wantY = ay;
        switch (o)
        {
        case 0:
            setRef<Small>(0);
            break;
        case 1:
            setRef<Big>(1);
            break;
        case 2:
            setRef<Thrower>(2);
            break;
        case 3:
            setRef<Plain>(3);
            break;
        case 4:
            setRef<Tree>(4);
            break;
        case 5:
            y = Small(3);
            my = {0, 3, 'c'};
            break;
        case 6:
            y.set(Big(3));
            my = {1, 3, 'c'};
            break;
        case 7:
            y = Thrower(3);
            my = {2, 3, 'c'};
            break;
        case 8:
            y = Plain(3);
            my = {3, 3, 'c'};
            break;
        case 9:
            x.set(zserio::NoInit, Plain(5));
            mx = {3, 5, 'n'};
            break;
        case 10:
            if (a.type == 0)
                own<Small>();
            else if (a.type == 1)
                own<Big>();
            else if (a.type == 2)
                own<Thrower>();
            else if (a.type == 3)
                own<Plain>();
            else if (a.type == 4)
                own<Tree>();
            break;
        case 11:
            if (a.type == 4 && !x.template get<Tree>().kids.empty())
            {
                const Tree& part = x.template get<Tree>().kids[0];
                int v = part.v;
                x = part;
                mx = {4, v, 'c'};
            }
            else if (a.type == 1)
            {
                const Small& part = x.template get<Big>().inner;
                int v = part.v;
                x = part;
                mx = {0, v, 'c'};
            }
            break;
        case 12:
            x = y;
            mx = copied(b);
            wantX = (P & 1) ? ay : ax;
            break;
        case 13:
            x = std::move(y);
            mx = movedTo(b);
            my = now(y);
            wantX = (P & 2) ? ay : ax;
            break;
        case 14:
        {
            H& same = x;
            x = same;
            break;
        }
        case 15:
        {
            H& same = x;
            x = std::move(same);
            break;
        }
        case 16:
            x.reset();
            mx = EMPTY;
            break;
        case 17:
            y = x;
            my = copied(a);
            wantY = (P & 1) ? ax : ay;
            break;
        case 18:
            y = std::move(x);
            my = movedTo(a);
            mx = now(x);
            wantY = (P & 2) ? ax : ay;
            break;
        case 19:
        {
            H z(x);
            checkHolder(copied(a), z, "z");
            if (z.get_allocator().arena != ((P & 4) ? ax : 8))
                fail("allocator selected for a copy");
            break;
        }
        case 20:
        {
            H z(std::move(x));
            mx = now(x);
            checkHolder(movedTo(a), z, "z");
            if (z.get_allocator().arena != ax)
                fail("allocator of a moved holder");
            break;
        }
        case 21:
        {
            H z(x, al);
            checkHolder(copied(a), z, "z");
            if (z.get_allocator().arena != AZ)
                fail("allocator of an extended copy");
            break;
        }
        case 22:
        {
            H z(std::move(x), al);
            mx = now(x);
            checkHolder(movedTo(a), z, "z");
            if (z.get_allocator().arena != AZ)
                fail("allocator of an extended move");
            break;
        }
        case 23:
            x.assign(zserio::NoInit, y);
            mx = copied(b, true);
            wantX = (P & 1) ? ay : ax;
            break;
        case 24:
            x.assign(zserio::NoInit, std::move(y));
            mx = movedTo(b);
            my = now(y);
            wantX = (P & 2) ? ay : ax;
            break;
        case 25:
        {
            H z(zserio::NoInit, x);
            checkHolder(copied(a, true), z, "z");
            break;
        }
        case 26:
        {
            H z(zserio::NoInit, std::move(x));
            mx = now(x);
            checkHolder(movedTo(a), z, "z");
            break;
        }
        case 27:
        {
            H z(zserio::NoInit, x, al);
            checkHolder(copied(a, true), z, "z");
            if (z.get_allocator().arena != AZ)
                fail("allocator of an extended copy");
            break;
        }
        case 28:
        {
            H z(zserio::NoInit, std::move(x), al);
            mx = now(x);
            checkHolder(movedTo(a), z, "z");
            break;
        }
        case 29:
        {
            H z(Thrower(6), al);
            checkHolder(Slot{2, 6, 'c'}, z, "z");
            H u(Small(6), al);
            checkHolder(Slot{0, 6, 'c'}, u, "u");
            break;
        }
        case 30:
        {
            H z(zserio::NoInit, Plain(6), al);
            checkHolder(Slot{3, 6, 'n'}, z, "z");
            break;
        }
        case 31:
            if (a.type >= 0)
            {
                const_cast<Tracked*>(elem(x, a.type))->v = 7;
                mx.v = 7;
            }
            break;
        }
        if (mx.how == '?')
            mx.how = now(x).how;
        if (my.how == '?')
            my.how = now(y).how;
        if (x.get_allocator().arena != wantX || y.get_allocator().arena != wantY)
            fail("allocators after the operation");
    }
    void afterFailure()
    {
        // basic guarantee: each holder is empty or holds a value and can be overwritten; nothing leaks
        mx = now(x);
        my = now(y);
        agree();
        x = Small(4);
        y = Big(4);
        x = y;
        mx = my = Slot{1, 4, 'c'};
        agree();
        x.reset();
        mx = EMPTY;
        agree();
    }
};

template <typename M>
static void go(const char* name, int depth)
{
    Explorer<M> e;
    e.name = name;
    e.depth = depth;
    std::vector<int> ops;
    e.explore(ops);
}

static void report()
{
    std::printf("COUNT\t%lld\t%lld\t%lld\n", states, transitions, traces);
    for (auto& b : bad)
        std::printf("BAD\t%s\t%s\n", b.first.c_str(), b.second.c_str());
    std::fflush(stdout);
}

int main(int argc, char** argv)
{
#ifndef NO_ASAN
    __asan_set_death_callback(died);
#endif
    int d = argc > 1 ? std::atoi(argv[1]) : 3;
    std::string part = argc > 2 ? argv[2] : "";
#define GO(NAME, DEPTH, ...) \
    if (part.empty() || part == NAME) \
    go<__VA_ARGS__>(NAME, DEPTH)
    GO("inplace-small", d, InplaceM<Small>);
    GO("inplace-thrower", d, InplaceM<Thrower>);
    GO("inplace-plain", d, InplaceM<Plain>);
    GO("inplace-tree", d, InplaceM<Tree>);
    GO("heap-small-0", d, HeapM<Small, 0, 1, 2, 3>);
    GO("heap-small-7", d, HeapM<Small, 7, 1, 2, 3>);
    GO("heap-big-1", d, HeapM<Big, 1, 1, 1, 1>);
    GO("heap-thrower-2", d, HeapM<Thrower, 2, 1, 2, 1>);
    GO("heap-plain-3", d, HeapM<Plain, 3, 1, 2, 3>);
    GO("heap-plain-0", d, HeapM<Plain, 0, 1, 2, 3>);
    GO("heap-plain-4", d, HeapM<Plain, 4, 1, 1, 1>);
    GO("heap-tree-5", d, HeapM<Tree, 5, 1, 2, 3>);
    GO("any-0", d, AnyM<0, 1, 2, 3>);
    GO("any-1", d, AnyM<1, 1, 2, 3>);
    GO("any-2", d, AnyM<2, 1, 2, 3>);
    GO("any-7", d, AnyM<7, 1, 2, 1>);
    GO("any-4", d, AnyM<4, 1, 1, 1>);
    report();
    return 0;
}
