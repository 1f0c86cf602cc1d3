// Tracked values, tracked memory resources and allocators with every propagation flavour, fault injection.
#pragma once
#include <array>
#include <map>
#include <memory>
#include <memory_resource>
#include <string>
#include <unordered_map>

#include <cstdlib>
#include <sanitizer/common_interface_defs.h>

#include "pbt.h"
#include "zserio/AllocatorHolder.h"
#include "zserio/Traits.h"
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

namespace trk
{
constexpr int MOVED = -999;

struct ValueThrow
{};

struct World
{
    std::unordered_map<const void*, int> live; // tracked objects
    std::string err;
    long long valueFault = -1; // throw ValueThrow at this many further throwing value operations (0 = next)
    long long allocFault = -1; // throw bad_alloc at this many further allocations
    long long valueOps = 0, allocOps = 0;
    void error(const std::string& s)
    {
        if (err.empty()) err = s;
    }
    void valuePoint()
    {
        ++valueOps;
        if (valueFault >= 0 && valueFault-- == 0) throw ValueThrow{};
    }
    void allocPoint()
    {
        ++allocOps;
        if (allocFault >= 0 && allocFault-- == 0) throw std::bad_alloc();
    }
    void disarm() { valueFault = allocFault = -1; }
    void born(const void* p, int k)
    {
        if (!live.emplace(p, k).second) error("object constructed over a live object");
    }
    void died(const void* p)
    {
        if (live.erase(p) == 0) error("destructor of an object which is not alive");
    }
    void need(const void* p, const char* what)
    {
        if (live.find(p) == live.end()) error(std::string("use of an object which is not alive: ") + what);
    }
};
inline World& world()
{
    static World w;
    return w;
}

class Res : public std::pmr::memory_resource
{
public:
    struct Block
    {
        size_t size, align;
    };
    std::unordered_map<void*, Block> blocks;
    size_t allocations = 0;
    int id = 0;
    size_t live() const { return blocks.size(); }
    ~Res() override
    {
        for (auto& b : blocks) ::operator delete(b.first, std::align_val_t(b.second.align));
    }

private:
    void* do_allocate(size_t size, size_t align) override
    {
        world().allocPoint();
        static const char* trace = getenv("PBT_TRACE_RES"); // debugging aid: stacks of allocations from one resource
        if (trace && atoi(trace) == id) __sanitizer_print_stack_trace();
        void* p = ::operator new(size, std::align_val_t(align));
        memset(p, 0xCD, size);
        blocks[p] = {size, align};
        ++allocations;
        return p;
    }
    void do_deallocate(void* p, size_t size, size_t align) override
    {
        auto it = blocks.find(p);
        if (it == blocks.end())
        {
            world().error("memory returned to a resource (" + std::to_string(id) + ") which did not allocate it");
            return;
        }
        if (it->second.size != size || it->second.align != align)
            world().error("memory returned with a different size or alignment: allocated " + std::to_string(it->second.size) + "/" +
                    std::to_string(it->second.align) + " returned " + std::to_string(size) + "/" + std::to_string(align));
        memset(p, 0xDD, it->second.size);
        ::operator delete(p, std::align_val_t(it->second.align));
        blocks.erase(it);
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

// three resources; index 0 is installed as the default one
struct Pool
{
    std::array<Res, 3> res;
    std::pmr::memory_resource* old;
    Pool()
    {
        for (int i = 0; i < 3; ++i) res[static_cast<size_t>(i)].id = i;
        old = std::pmr::set_default_resource(&res[0]);
        current() = this;
        world().live.clear();
        world().err.clear();
        world().disarm();
    }
    ~Pool()
    {
        std::pmr::set_default_resource(old);
        current() = nullptr;
        world().disarm();
    }
    static Pool*& current()
    {
        static Pool* p = nullptr;
        return p;
    }
};

// F: 1 propagate on copy assignment, 2 on move assignment, 4 on swap, 8 default resource on copy construction
template <class T, int F>
struct TAlloc
{
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<(F & 1) != 0>;
    using propagate_on_container_move_assignment = std::bool_constant<(F & 2) != 0>;
    using propagate_on_container_swap = std::bool_constant<(F & 4) != 0>;
    using is_always_equal = std::false_type;
    template <class U>
    struct rebind
    {
        using other = TAlloc<U, F>;
    };
    Res* r;
    TAlloc() noexcept : r(&Pool::current()->res[0]) {}
    explicit TAlloc(Res* res) noexcept : r(res) {}
    template <class U>
    TAlloc(const TAlloc<U, F>& o) noexcept : r(o.r)
    {}
    TAlloc select_on_container_copy_construction() const { return (F & 8) ? TAlloc() : *this; }
    T* allocate(size_t n) { return static_cast<T*>(r->allocate(n * sizeof(T), alignof(T))); }
    void deallocate(T* p, size_t n) noexcept { r->deallocate(p, n * sizeof(T), alignof(T)); }
    template <class U>
    friend bool operator==(const TAlloc& a, const TAlloc<U, F>& b) noexcept
    {
        return a.r == b.r;
    }
    template <class U>
    friend bool operator!=(const TAlloc& a, const TAlloc<U, F>& b) noexcept
    {
        return a.r != b.r;
    }
};

// allocator traits of the harness
template <class A>
struct AK;
template <>
struct AK<std::allocator<uint8_t>>
{
    static constexpr const char* NAME = "std";
    static constexpr bool STATEFUL = false, UA = false; // UA: allocator does uses-allocator construction
    static std::allocator<uint8_t> make(int) { return {}; }
    static int id(const std::allocator<uint8_t>&) { return 0; }
};
template <>
struct AK<std::pmr::polymorphic_allocator<uint8_t>>
{
    static constexpr const char* NAME = "pmr";
    static constexpr bool STATEFUL = true, UA = true;
    static std::pmr::polymorphic_allocator<uint8_t> make(int i) { return {&Pool::current()->res[static_cast<size_t>(i)]}; }
    template <class T>
    static int id(const std::pmr::polymorphic_allocator<T>& a)
    {
        return static_cast<Res*>(a.resource())->id;
    }
};
template <>
struct AK<zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>>
{
    static constexpr const char* NAME = "ppmr";
    static constexpr bool STATEFUL = true, UA = true;
    static zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t> make(int i)
    {
        return {&Pool::current()->res[static_cast<size_t>(i)]};
    }
    template <class T>
    static int id(const zserio::ppmr::PropagatingPolymorphicAllocator<T>& a)
    {
        return static_cast<Res*>(a.resource())->id;
    }
};
template <int F>
struct AK<TAlloc<uint8_t, F>>
{
    static constexpr const char* NAME = "custom";
    static constexpr bool STATEFUL = true, UA = false;
    static TAlloc<uint8_t, F> make(int i) { return TAlloc<uint8_t, F>(&Pool::current()->res[static_cast<size_t>(i)]); }
    template <class T>
    static int id(const TAlloc<T, F>& a)
    {
        return a.r->id;
    }
};

// value whose every construction, assignment and destruction is tracked. PAD sets the size, NM: nothrow move
template <size_t PAD, bool NM>
struct Tr
{
    int v;
    unsigned char pad[PAD];
    Tr() : v(0)
    {
        world().valuePoint();
        memset(pad, 0, PAD);
        world().born(this, 1);
    }
    Tr(int x) : v(x)
    {
        world().valuePoint();
        memset(pad, x & 255, PAD);
        world().born(this, 1);
    }
    Tr(const Tr& o) : v(o.v)
    {
        world().need(&o, "copied from");
        world().valuePoint();
        memcpy(pad, o.pad, PAD);
        world().born(this, 1);
    }
    Tr(Tr&& o) noexcept(NM) : v(o.v)
    {
        world().need(&o, "moved from");
        if (!NM) world().valuePoint();
        memcpy(pad, o.pad, PAD);
        o.v = MOVED;
        world().born(this, 1);
    }
    Tr& operator=(const Tr& o)
    {
        world().need(&o, "assigned from");
        world().need(this, "assigned to");
        world().valuePoint();
        v = o.v;
        memmove(pad, o.pad, PAD);
        return *this;
    }
    Tr& operator=(Tr&& o) noexcept(NM)
    {
        world().need(&o, "move assigned from");
        world().need(this, "move assigned to");
        if (!NM) world().valuePoint();
        if (this != &o)
        {
            v = o.v;
            memcpy(pad, o.pad, PAD);
            o.v = MOVED;
        }
        return *this;
    }
    ~Tr() { world().died(this); }
    int value() const
    {
        world().need(this, "read");
        if (v != MOVED)
            for (size_t i = 0; i < PAD; ++i)
                if (pad[i] != (v & 255)) world().error("content of a value is damaged");
        return v;
    }
    friend bool operator==(const Tr& a, const Tr& b) { return a.value() == b.value(); }
    friend bool operator!=(const Tr& a, const Tr& b) { return a.value() != b.value(); }
    friend bool operator<(const Tr& a, const Tr& b) { return a.value() < b.value(); }
    friend bool operator>(const Tr& a, const Tr& b) { return a.value() > b.value(); }
};

// allocator-aware value owning one block of 16 bytes of its allocator
template <class ALLOC, size_t PAD>
struct AA
{
    using allocator_type = ALLOC;
    using AT = std::allocator_traits<ALLOC>;
    ALLOC a;
    unsigned char* p = nullptr;
    int v = 0;
    unsigned char pad[PAD == 0 ? 1 : PAD] = {};

    AA() : AA(0, ALLOC()) {}
    explicit AA(const ALLOC& al) : AA(0, al) {}
    AA(int x) : AA(x, ALLOC()) {}
    AA(int x, const ALLOC& al) : a(al), v(x)
    {
        world().valuePoint();
        alloc();
        world().born(this, 2);
    }
    AA(const AA& o) : AA(o, AT::select_on_container_copy_construction(o.a), 0) {}
    AA(const AA& o, const ALLOC& al) : AA(o, al, 0) {}
    AA(AA&& o) noexcept : a(o.a), p(o.p), v(o.v)
    {
        world().need(&o, "moved from");
        o.p = nullptr;
        o.v = MOVED;
        world().born(this, 2);
    }
    AA(AA&& o, const ALLOC& al) : a(al), v(o.v)
    {
        world().need(&o, "moved from");
        if (al == o.a)
        {
            p = o.p;
            o.p = nullptr;
        }
        else if (o.v != MOVED) alloc();
        o.free();
        o.v = MOVED;
        world().born(this, 2);
    }
    AA& operator=(const AA& o)
    {
        world().need(&o, "assigned from");
        world().need(this, "assigned to");
        world().valuePoint();
        if (this == &o) return *this;
        free();
        v = MOVED;
        if constexpr (AT::propagate_on_container_copy_assignment::value) a = o.a;
        if (o.v != MOVED)
        {
            v = o.v;
            try { alloc(); }
            catch (...) { v = MOVED; throw; }
        }
        return *this;
    }
    AA& operator=(AA&& o)
    {
        world().need(&o, "move assigned from");
        world().need(this, "move assigned to");
        if (this == &o) return *this;
        free();
        v = MOVED;
        if constexpr (AT::propagate_on_container_move_assignment::value) a = o.a;
        if (o.v != MOVED)
        {
            if (a == o.a)
            {
                p = o.p;
                o.p = nullptr;
                v = o.v;
            }
            else
            {
                v = o.v;
                try { alloc(); }
                catch (...) { v = MOVED; throw; }
            }
        }
        o.free();
        o.v = MOVED;
        return *this;
    }
    ~AA()
    {
        world().died(this);
        free();
    }
    int value() const
    {
        world().need(this, "read");
        if (v != MOVED)
        {
            if (!p) world().error("value without its memory");
            else
                for (int i = 0; i < 16; ++i)
                    if (p[i] != (v & 255)) { world().error("content of a value is damaged"); break; }
        }
        return v;
    }
    int resource() const { return AK<ALLOC>::id(a); }
    friend bool operator==(const AA& x, const AA& y) { return x.value() == y.value(); }
    friend bool operator!=(const AA& x, const AA& y) { return x.value() != y.value(); }
    friend bool operator<(const AA& x, const AA& y) { return x.value() < y.value(); }
    friend bool operator>(const AA& x, const AA& y) { return x.value() > y.value(); }

private:
    AA(const AA& o, const ALLOC& al, int) : a(al), v(o.v)
    {
        world().need(&o, "copied from");
        world().valuePoint();
        if (o.v != MOVED) alloc();
        world().born(this, 2);
    }
    void alloc()
    {
        typename AT::template rebind_alloc<unsigned char> t(a);
        p = t.allocate(16);
        memset(p, v & 255, 16);
    }
    void free()
    {
        if (p)
        {
            typename AT::template rebind_alloc<unsigned char> t(a);
            t.deallocate(p, 16);
            p = nullptr;
        }
    }
};

template <class T>
struct IsAA : std::false_type
{};
template <class A, size_t P>
struct IsAA<AA<A, P>> : std::true_type
{};
template <class T>
struct IsTr : std::false_type
{};
template <size_t P, bool N>
struct IsTr<Tr<P, N>> : std::true_type
{};

// value of any element type used by the harness
template <class T>
int valueOf(const T& t)
{
    if constexpr (IsAA<T>::value || IsTr<T>::value) return t.value();
    else if constexpr (std::is_same_v<T, std::string>) return t.empty() ? MOVED : static_cast<int>(t[0]) - 'A' + static_cast<int>(t.size()) * 0;
    else return static_cast<int>(t);
}
inline void expectClean(const std::string& where)
{
    if (!world().err.empty()) pbt::fail(__FILE__, __LINE__, world().err + " :: " + where);
}
} // namespace trk

namespace std
{
template <size_t P, bool N>
struct hash<trk::Tr<P, N>>
{
    size_t operator()(const trk::Tr<P, N>& t) const { return static_cast<size_t>(t.value()) * 31U; }
};
template <class A, size_t P>
struct hash<trk::AA<A, P>>
{
    size_t operator()(const trk::AA<A, P>& t) const { return static_cast<size_t>(t.value()) * 31U; }
};
} // namespace std
