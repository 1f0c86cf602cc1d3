// Memory always comes from and returns to the supplied allocator: histories over holders and whole objects, library calls,
// every n-th allocation failing.
#include "schema.h"
#include "testobj.h"
#include "tracked.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/SerializeUtil.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/UniquePtr.h"
#include "zserio/pmr/UniquePtr.h"

using trk::AK;
using trk::Pool;
using trk::TAlloc;
using trk::world;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

void p14_a1(pbt::Gen&, bool);
void p14_a2(pbt::Gen&, bool);
void p14_a3(pbt::Gen&, bool);
void p14_a7(pbt::Gen&, bool);
void p15_a1(pbt::Gen&, bool);
void p15_a2(pbt::Gen&, bool);
void p15_a3(pbt::Gen&, bool);
void p15_a7(pbt::Gen&, bool);
void p16_a1(pbt::Gen&, bool);
void p16_a2(pbt::Gen&, bool);
void p16_a3(pbt::Gen&, bool);
void p16_a7(pbt::Gen&, bool);

namespace
{
// ---------------------------------------------------------------- object types under test
template <class A>
struct KMain
{
    using T = sch::Main<A>;
    static constexpr bool REFL = false;
    static constexpr const char* NAME = "Main";
    static T gen(pbt::Gen& g, const A& a) { return sch::genMain<A>(g, 3, a); }
    template <class F>
    static auto with(F f)
    {
        return f(zserio::UInt8(3));
    }
};
#define TO_KIND(K, OBJ, GENF, R) \
    template <class N> \
    struct K \
    { \
        using A = typename N::Alloc; \
        using T = typename N::OBJ; \
        static constexpr bool REFL = R; \
        static constexpr const char* NAME = #OBJ; \
        static T gen(pbt::Gen& g, const A& a) { return to::GENF<N>(g, a); } \
        template <class F> \
        static auto with(F f) \
        { \
            return f(); \
        } \
    };
TO_KIND(KC, CObj, genCObj, true)
TO_KIND(KW, WObj, genWObj, true)
TO_KIND(KR, RObj, genRObj, true)
TO_KIND(KU, UUni, genUUni, true)

template <class K, class T>
std::vector<uint8_t> image(const T& v)
{
    // std containers only: no allocations from the pool
    auto b = K::with([&](auto... p) {
        zserio::View<T> view(v, p...);
        zserio::BitSize n = zserio::detail::bitSizeOf(view, 0);
        std::vector<uint8_t> buf((n + 7) / 8);
        zserio::BitStreamWriter w(zserio::Span<uint8_t>(buf.data(), buf.size()), n);
        zserio::detail::write(w, view);
        buf.push_back(static_cast<uint8_t>(n & 7));
        return buf;
    });
    return b;
}

struct Counts
{
    size_t n[3];
    Counts()
    {
        for (size_t i = 0; i < 3; ++i) n[i] = Pool::current()->res[i].allocations;
    }
};
// only resource `r` was allocated from since `c`
void onlyFrom(const Counts& c, int r, const std::string& what)
{
    for (size_t i = 0; i < 3; ++i)
        if (static_cast<int>(i) != r)
            CHECKM(Pool::current()->res[i].allocations == c.n[i], what << ": " << Pool::current()->res[i].allocations - c.n[i]
                    << " allocation(s) from resource " << i << " although resource " << r << " was supplied");
}
void allReturned(const std::string& what)
{
    trk::expectClean(what);
    for (size_t i = 0; i < 3; ++i)
        CHECKM(Pool::current()->res[i].live() == 0, what << ": " << Pool::current()->res[i].live() << " block(s) not returned to resource " << i);
}

template <class A>
struct Prop
{
    using AT = std::allocator_traits<A>;
    static constexpr bool CP = AT::propagate_on_container_copy_assignment::value;
    static constexpr bool MV = AT::propagate_on_container_move_assignment::value;
};

// ---------------------------------------------------------------- histories of whole objects
template <class K, class A>
void objects(pbt::Gen& g, bool faults)
{
    using T = typename K::T;
    // propagating resource is only strict for allocators doing uses-allocator construction
    constexpr bool STRICT = AK<A>::UA;
    Pool pool;
    struct Slot
    {
        std::optional<T> v;
        int res = 0;
        bool valid = false; // content known
        std::vector<uint8_t> img;
    };
    {
        Slot s[3];
        int steps = static_cast<int>(1 + g.size(12));
        int effective = 0;
        auto fresh = [&](size_t i, int r) {
            auto a = AK<A>::make(r);
            Counts c;
            s[i].v.reset();
            T tmp = K::gen(g, a);
            s[i].v.emplace(std::move(tmp), a);
            if (STRICT) onlyFrom(c, r, "construction");
            s[i].res = r;
            s[i].img = image<K>(*s[i].v);
            s[i].valid = true;
        };
        // sources use resources 1 and 2; resource 0 is the default one
        fresh(0, 1);
        fresh(1, 2);
        for (int st = 0; st < steps; ++st)
        {
            size_t i = g.below(3), j = g.below(3);
            int r = static_cast<int>(g.below(3));
            int op = static_cast<int>(g.below(8));
            if (g.noting()) g.note("op" + std::to_string(op) + " " + std::to_string(i) + " <- " + std::to_string(j) + " res " + std::to_string(r));
            long long fault = -1;
            if (faults && g.flip()) fault = static_cast<long long>(g.below(12));
            bool needSrc = op != 0;
            if (needSrc && (!s[j].v || !s[j].valid)) fresh(j, static_cast<int>(g.below(3)));
            std::vector<uint8_t> before = s[j].img;
            Counts c;
            int expect = r;
            bool threw = false, moved = false, built = false;
            std::string what;
            auto run = [&](auto f) {
                world().allocFault = fault;
                try { f(); }
                catch (const std::bad_alloc&)
                {
                    if (fault < 0) throw;
                    threw = true;
                }
                world().disarm();
            };
            switch (op)
            {
            case 0: fresh(i, r); ++effective; continue;
            case 1:
                if (i == j) continue;
                what = "copy construction with allocator";
                s[i].v.reset();
                run([&] { s[i].v.emplace(*s[j].v, AK<A>::make(r)); });
                built = true;
                break;
            case 2:
                if (i == j) continue;
                what = "copy construction";
                s[i].v.reset();
                expect = AK<A>::id(std::allocator_traits<A>::select_on_container_copy_construction(AK<A>::make(s[j].res)));
                run([&] { s[i].v.emplace(*s[j].v); });
                built = true;
                break;
            case 3:
                if (i == j) continue;
                what = "move construction with allocator";
                s[i].v.reset();
                moved = true;
                run([&] { s[i].v.emplace(std::move(*s[j].v), AK<A>::make(r)); });
                built = true;
                break;
            case 4:
                if (i == j) continue;
                what = "move construction";
                s[i].v.reset();
                moved = true;
                expect = s[j].res;
                run([&] { s[i].v.emplace(std::move(*s[j].v)); });
                built = true;
                break;
            case 5:
                if (!s[i].v) continue;
                what = i == j ? "self copy assignment" : "copy assignment";
                expect = Prop<A>::CP ? s[j].res : s[i].res;
                run([&] { *s[i].v = static_cast<const T&>(*s[j].v); });
                break;
            case 6:
                if (!s[i].v || i == j) continue;
                what = "move assignment";
                moved = true;
                expect = Prop<A>::MV ? s[j].res : s[i].res;
                run([&] { *s[i].v = std::move(*s[j].v); });
                break;
            default:
            {
                if (!s[i].v || i == j || !s[i].valid) continue;
                what = "swap";
                // std::swap of objects: one move construction, two move assignments
                std::vector<uint8_t> bi = s[i].img;
                int ri = s[i].res, rj = s[j].res;
                run([&] { std::swap(*s[i].v, *s[j].v); });
                ++effective;
                trk::expectClean(what);
                if (threw)
                {
                    s[i].valid = s[j].valid = false;
                    continue;
                }
                if (STRICT && ri != 0 && rj != 0) CHECKM(pool.res[0].allocations == c.n[0], "swap allocates from the default resource");
                if (Prop<A>::MV) std::swap(s[i].res, s[j].res);
                CHECKM(image<K>(*s[i].v) == before, "swap: first object");
                CHECKM(image<K>(*s[j].v) == bi, "swap: second object");
                std::swap(s[i].img, s[j].img);
                continue;
            }
            }
            ++effective;
            if (faults && threw) g.nontrivial();
            trk::expectClean(what);
            if (STRICT) onlyFrom(c, expect, what);
            if (!moved)
                CHECKM(image<K>(*s[j].v) == before || i == j, what << (threw ? " (failed)" : "") << ": the source changed");
            else if (!threw && i != j)
                s[j].valid = false;
            if (threw)
            {
                if (built) CHECK(!s[i].v.has_value());
                s[i].valid = false;
                if (moved) s[j].valid = false;
                if (i == j) s[j].valid = false;
                // the target still accepts a value
                if (s[i].v && g.flip())
                {
                    T fill = K::gen(g, AK<A>::make(1));
                    *s[i].v = fill;
                    if (Prop<A>::CP) s[i].res = 1;
                    s[i].img = image<K>(fill);
                    s[i].valid = true;
                    CHECKM(image<K>(*s[i].v) == s[i].img, "assignment after a failed " << what);
                }
                continue;
            }
            s[i].res = expect;
            s[i].img = before;
            s[i].valid = true;
            CHECKM(image<K>(*s[i].v) == before, what << ": content differs from the source");
        }
        g.nontrivial(effective >= 4);
    }
    allReturned("end of the history");
}

// touch everything one level down (in a union or choice only the selected case)
template <class R>
void fields(R& refl)
{
    auto visit = [&](auto name) {
        auto x = refl.getField(name);
        if (x && x->isArray() && x->size() > 0) (void)x->at(0);
    };
    if (refl.getTypeInfo().getSchemaType() == zserio::SchemaType::STRUCT)
        for (const auto& f : refl.getTypeInfo().getFields()) visit(f.schemaName);
    else if (!refl.getChoice().empty()) visit(refl.getChoice());
}

// ---------------------------------------------------------------- library calls with an allocator
template <class K, class A>
void calls(pbt::Gen& g, bool faults)
{
    using T = typename K::T;
    constexpr bool STRICT = AK<A>::UA;
    Pool pool;
    {
        int r = static_cast<int>(1 + g.below(2));
        auto a = AK<A>::make(r);
        T data = K::gen(g, AK<A>::make(static_cast<int>(g.below(3))));
        auto bytes = K::with([&](auto... p) { return zserio::serializeToBytes(data, AK<A>::make(0), p...); });
        auto bits = K::with([&](auto... p) { return zserio::serialize(data, AK<A>::make(0), p...); });
        auto img = image<K>(data); // offsets are initialized now
        g.nontrivial(bytes.size() > 24);
        int op = static_cast<int>(g.below(K::REFL ? 13 : 6));
        long long fault = faults ? static_cast<long long>(g.below(op >= 6 ? 60 : 20)) : -1;
        Counts c;
        bool threw = false;
        std::string what;
        auto run = [&](const char* w, auto f) {
            what = w;
            if (g.noting()) g.note(std::string(w) + (fault < 0 ? "" : " failing allocation " + std::to_string(fault)));
            world().allocFault = fault;
            try { f(); }
            catch (const std::bad_alloc&)
            {
                if (fault < 0) throw;
                threw = true;
            }
            world().disarm();
        };
        switch (op)
        {
        case 0:
            run("serialize(data, allocator)", [&] {
                auto b = K::with([&](auto... p) { return zserio::serialize(data, a, p...); });
                world().disarm();
                CHECK(b == bits);
                CHECK(AK<A>::id(A(b.get_allocator())) == r);
            });
            if (!STRICT) onlyFrom(c, r, what);
            break;
        case 1:
            run("serializeToBytes(data, allocator)", [&] {
                auto b = K::with([&](auto... p) { return zserio::serializeToBytes(data, a, p...); });
                world().disarm();
                CHECK(b == bytes);
                CHECK(AK<A>::id(A(b.get_allocator())) == r);
            });
            if (!STRICT) onlyFrom(c, r, what);
            break;
        case 2:
            run("serialize(view/data view, allocator)", [&] {
                K::with([&](auto... p) {
                    zserio::View<T> v(data, p...);
                    auto b = zserio::serialize(v, a);
                    auto b2 = zserio::serializeToBytes(v, a);
                    world().disarm();
                    CHECK(b == bits);
                    CHECK(b2 == bytes);
                    return 0;
                });
            });
            if (!STRICT) onlyFrom(c, r, what);
            break;
        case 3:
            run("deserialize(buffer, allocator)", [&] {
                auto dv = K::with([&](auto... p) { return zserio::deserialize<T>(bits, a, p...); });
                world().disarm();
                CHECK(image<K>(dv.zserioData()) == img);
                if (STRICT) onlyFrom(c, r, what);
            });
            break;
        case 4:
            run("deserializeFromBytes(bytes, prealloc, allocator)", [&] {
                zserio::ArrayPreallocation pre(g.edge(64));
                auto dv = K::with([&](auto... p) {
                    return zserio::deserializeFromBytes<T>(zserio::Span<const uint8_t>(bytes.data(), bytes.size()), pre, a, p...);
                });
                world().disarm();
                CHECK(image<K>(dv.zserioData()) == img);
                if (STRICT) onlyFrom(c, r, what);
            });
            break;
        case 5:
        {
            // into an object which already holds something else
            T other = K::gen(g, a);
            T into(other, a);
            c = Counts();
            run("deserialize(buffer, object)", [&] {
                K::with([&](auto... p) {
                    zserio::deserialize(bits, into, p...);
                    return 0;
                });
                world().disarm();
                // types with a choice and an empty case or extended fields keep the old content (known finding of P12)
                if constexpr (std::is_same_v<K, KC<to::Pmr>> || std::is_same_v<K, KC<to::Ppmr>>) CHECK(image<K>(into) == img);
            });
            if (threw)
            {
                into = T(a);
                K::with([&](auto... p) {
                    zserio::deserialize(bits, into, p...);
                    return 0;
                });
                CHECKM(image<K>(into) == img, "object unusable after a failed read");
            }
            break;
        }
        default: break;
        }
        if constexpr (K::REFL)
        {
            switch (op)
            {
            case 6:
                run("reflectable(object, allocator)", [&] {
                    auto refl = zserio::reflectable(data, a);
                    fields(*refl);
                    if (!faults) onlyFrom(c, r, what);
                });
                break;
            case 7:
                run("introspectable(view, allocator)", [&] {
                    zserio::View<T> v(data);
                    auto in = zserio::introspectable(v, a);
                    fields(*in);
                    if (!faults) onlyFrom(c, r, what);
                });
                break;
            case 8:
                run("toJsonString(object, allocator)", [&] {
                    auto s = zserio::toJsonString(data, 2, a);
                    world().disarm();
                    CHECKM(std::string_view(s) == std::string_view(zserio::toJsonString(data, 2, AK<A>::make(0))), "incomplete text returned");
                    CHECK(AK<A>::id(A(s.get_allocator())) == r);
                });
                break;
            case 9:
            case 10:
            {
                zserio::BasicString<zserio::RebindAlloc<A, char>> text(zserio::toJsonString(data, AK<A>::make(0)), AK<A>::make(0));
                run("fromJsonString(text, allocator)", [&] {
                    size_t live0 = pool.res[0].live(), live3 = pool.res[static_cast<size_t>(3 - r)].live();
                    std::optional<T> out;
                    out.emplace(zserio::fromJsonString<T>(text, a));
                    world().disarm();
                    CHECKM(pool.res[0].live() == live0, "imported object holds memory of the default resource");
                    CHECKM(pool.res[static_cast<size_t>(3 - r)].live() == live3, "imported object holds memory of a foreign resource");
                });
                break;
            }
            case 11:
                run("createInstance(allocator)", [&] {
                    auto p = zserio::typeInfo<T>().createInstance(a);
                    if (p->getTypeInfo().getSchemaType() == zserio::SchemaType::STRUCT)
                        for (const auto& f : p->getTypeInfo().getFields())
                        {
                            if (f.isOptional || f.typeInfo.getSchemaType() == zserio::SchemaType::STRUCT || f.isArray)
                            {
                                auto x = p->createField(f.schemaName);
                                if (f.isArray && x) x->resize(g.size(5));
                            }
                        }
                    auto& v = zserio::ReflectableUtil::getValue<T, A>(p);
                    T copy(v, a);
                    if (!faults) onlyFrom(c, r, what);
                });
                break;
            default:
                run("clone(reflectable, allocator)", [&] {
                    auto refl = zserio::reflectable(data, a);
                    T copy(data, a);
                    auto any = zserio::BasicAny<A>(copy, a);
                    auto any2 = zserio::BasicAny<A>(any, a);
                    world().disarm();
                    CHECK(image<K>(any2.template get<T>()) == img);
                    if (!faults) onlyFrom(c, r, what);
                });
                break;
            }
        }
        if (threw) g.nontrivial();
        trk::expectClean(what);
        if (STRICT && op < 5) onlyFrom(c, r, what);
        CHECKM(image<K>(data) == img, what << ": the argument changed");
    }
    allReturned("after the call");
}

template <class F>
void anyKind(pbt::Gen& g, F f)
{
    switch (g.below(10))
    {
    case 0: f(KMain<PmrA>{}, PmrA{}); break;
    case 1: f(KMain<PpmrA>{}, PpmrA{}); break;
    case 2: f(KC<to::Pmr>{}, PmrA{}); break;
    case 3: f(KC<to::Ppmr>{}, PpmrA{}); break;
    case 4: f(KW<to::Pmr>{}, PmrA{}); break;
    case 5: f(KW<to::Ppmr>{}, PpmrA{}); break;
    case 6: f(KR<to::Pmr>{}, PmrA{}); break;
    case 7: f(KR<to::Ppmr>{}, PpmrA{}); break;
    case 8: f(KU<to::Pmr>{}, PmrA{}); break;
    default: f(KU<to::Ppmr>{}, PpmrA{}); break;
    }
}
void holders(pbt::Gen& g, bool faults)
{
    using Fn = void (*)(pbt::Gen&, bool);
    static const Fn fns[] = {p14_a1, p14_a2, p14_a3, p14_a7, p15_a1, p15_a2, p15_a3, p15_a7, p16_a1, p16_a2, p16_a3, p16_a7};
    fns[g.below(sizeof fns / sizeof fns[0])](g, faults);
}

// ---------------------------------------------------------------- small facilities
struct Boom
{};
struct alignas(32) Wide
{
    int v;
    Wide(int x, bool fail) : v(x)
    {
        if (fail) throw Boom{};
    }
};
struct Chars
{
    using allocator_type = PmrA;
    zserio::pmr::Vector<char> d;
    Chars(size_t n, const allocator_type& a) : d(n, 'x', a) {}
};
template <class A, class T, class... ARGS>
void unique(pbt::Gen& g, int r, bool fail, ARGS... args)
{
    Pool& pool = *Pool::current();
    auto a = AK<A>::make(r);
    Counts c;
    bool threw = false;
    try
    {
        auto p = zserio::allocate_unique<T>(a, args...);
        CHECK(reinterpret_cast<uintptr_t>(p.get()) % alignof(T) == 0);
        CHECK(pool.res[static_cast<size_t>(r)].live() == 1);
        CHECK(AK<A>::id(A(p.get_deleter().get_allocator())) == r);
        auto q = std::move(p);
        CHECK(!p);
        if (g.flip()) q.reset();
    }
    catch (const Boom&) { threw = true; }
    CHECK(threw == fail);
    onlyFrom(c, r, "allocate_unique");
    allReturned("allocate_unique");
}
template <class A>
void smallFor(pbt::Gen& g)
{
    Pool pool;
    int r = static_cast<int>(g.below(3)), r2 = static_cast<int>(g.below(3));
    auto a = AK<A>::make(r);
    switch (g.below(6))
    {
    case 0:
    {
        bool fail = g.flip();
        g.nontrivial(fail);
        unique<A, Wide>(g, r, fail, 5, fail);
        break;
    }
    case 1:
    {
        if constexpr (std::is_same_v<A, PmrA>)
        {
            size_t n = g.size(100);
            Counts c;
            {
                auto p = zserio::allocate_unique<Chars>(a, n);
                CHECK(p->d.size() == n);
            }
            onlyFrom(c, r, "allocate_unique of an allocator-aware object");
            allReturned("allocate_unique of an allocator-aware object");
            g.nontrivial();
        }
        break;
    }
    case 2:
    {
        // bit buffers
        size_t bits = g.size(300);
        Counts c;
        {
            zserio::BasicBitBuffer<A> b(bits, a);
            onlyFrom(c, r, "bit buffer");
            CHECK(AK<A>::id(A(b.get_allocator())) == r);
            Counts c2;
            zserio::BasicBitBuffer<A> b2(b, AK<A>::make(r2));
            onlyFrom(c2, r2, "bit buffer copy with allocator");
            CHECK(b2 == b);
            Counts c3;
            zserio::BasicBitBuffer<A> b3(std::move(b2), AK<A>::make(r));
            onlyFrom(c3, r, "bit buffer move with allocator");
            CHECK(b3 == b);
            Counts c4;
            std::vector<uint8_t> raw((bits + 7) / 8);
            zserio::BasicBitBuffer<A> b4(zserio::Span<const uint8_t>(raw.data(), raw.size()), bits, AK<A>::make(r2));
            onlyFrom(c4, r2, "bit buffer from a span");
            g.nontrivial(bits > 8);
        }
        break;
    }
    case 3:
    {
        std::string t = g.utf8(60);
        Counts c;
        auto s = zserio::toString(std::string_view(t), a);
        CHECK(std::string_view(s) == t);
        onlyFrom(c, r, "toString of a text");
        Counts c2;
        auto s2 = zserio::toString(g.integral<int64_t>(), a);
        auto s3 = zserio::toString(static_cast<double>(g.integral<int64_t>()), a);
        auto s4 = zserio::toString(g.flip(), a);
        onlyFrom(c2, r, "toString of a number");
        CHECK(AK<A>::id(A(s.get_allocator())) == r && AK<A>::id(A(s2.get_allocator())) == r && AK<A>::id(A(s3.get_allocator())) == r && AK<A>::id(A(s4.get_allocator())) == r);
        g.nontrivial(t.size() > 15);
        break;
    }
    case 4:
    {
        // values held by Any go where the Any takes memory from
        Counts c;
        {
            zserio::Vector<uint64_t, zserio::RebindAlloc<A, uint64_t>> v(g.size(20), 7, AK<A>::make(r2));
            Counts c2;
            zserio::BasicAny<A> any(v, a);
            if (AK<A>::UA) onlyFrom(c2, r, "any of a vector");
            zserio::BasicAny<A> any2(any, AK<A>::make(r2));
            CHECK(any2.template get<decltype(v)>() == v);
            g.nontrivial(v.size() > 1);
        }
        break;
    }
    default:
    {
        if constexpr (std::is_same_v<A, PpmrA>)
        {
            // the propagating allocator itself
            PpmrA d;
            CHECK(d.resource() == &pool.res[0]);
            PpmrA n(nullptr);
            CHECK(n.resource() == &pool.res[0]);
            PpmrA x(&pool.res[static_cast<size_t>(r)]), y(&pool.res[static_cast<size_t>(r2)]);
            CHECK((x == y) == (r == r2));
            CHECK((x != y) == (r != r2));
            zserio::ppmr::PropagatingPolymorphicAllocator<double> z(x);
            CHECK(z.resource() == x.resource());
            CHECK(z == x);
            z = y;
            CHECK(z.resource() == y.resource());
            CHECK(std::allocator_traits<PpmrA>::select_on_container_copy_construction(x).resource() == x.resource());
            size_t n1 = 1 + g.size(20);
            Counts c;
            double* m = z.allocate(n1);
            CHECK(pool.res[static_cast<size_t>(r2)].blocks.at(m).size == n1 * 8 && pool.res[static_cast<size_t>(r2)].blocks.at(m).align == alignof(double));
            z.deallocate(m, n1);
            onlyFrom(c, r2, "propagating allocator");
            g.nontrivial(r != r2);
        }
    }
    }
    allReturned("helper");
}
} // namespace

SUBCHECK(holder_histories, 30000, 1500000, "optional/any/variant histories of every stateful allocator kind; nontrivial: at least 4 steps")
{
    holders(g, false);
}
SUBCHECK(holder_fault_histories, 30000, 1500000, "same with failing allocations and throwing values; nontrivial: at least 4 steps or something threw")
{
    holders(g, true);
}
SUBCHECK(object_histories, 6000, 300000, "construct/copy/move/assign/swap histories over 3 objects with 3 resources; nontrivial: at least 4 effective operations")
{
    anyKind(g, [&](auto k, auto a) { objects<decltype(k), decltype(a)>(g, false); });
}
SUBCHECK(object_fault_histories, 6000, 300000, "same with a failing allocation at a random point; nontrivial: at least 4 effective operations or a failure hit")
{
    anyKind(g, [&](auto k, auto a) { objects<decltype(k), decltype(a)>(g, true); });
}
SUBCHECK(custom_allocators, 3000, 150000, "schema object with allocators of other propagation traits; nontrivial: at least 4 effective operations")
{
    bool f = g.flip();
    switch (g.below(4))
    {
    case 0: objects<KMain<TAlloc<uint8_t, 0>>, TAlloc<uint8_t, 0>>(g, f); break;
    case 1: objects<KMain<TAlloc<uint8_t, 7>>, TAlloc<uint8_t, 7>>(g, f); break;
    case 2: calls<KMain<TAlloc<uint8_t, 2>>, TAlloc<uint8_t, 2>>(g, f); break;
    default: objects<KMain<TAlloc<uint8_t, 9>>, TAlloc<uint8_t, 9>>(g, f); break;
    }
}
SUBCHECK(calls, 10000, 500000, "one library call with a supplied allocator; nontrivial: serialized form above 24 bytes")
{
    anyKind(g, [&](auto k, auto a) { calls<decltype(k), decltype(a)>(g, false); });
}
SUBCHECK(calls_with_faults, 10000, 500000, "same with the n-th allocation failing; nontrivial: serialized form above 24 bytes or the failure hit")
{
    anyKind(g, [&](auto k, auto a) { calls<decltype(k), decltype(a)>(g, true); });
}
SUBCHECK(facilities, 10000, 500000, "allocate_unique, bit buffers, string conversion, any, propagating allocator; nontrivial: per facility (throwing constructor, heap size, unequal resources)")
{
    switch (g.below(4))
    {
    case 0: smallFor<PmrA>(g); break;
    case 1: smallFor<PpmrA>(g); break;
    case 2: smallFor<TAlloc<uint8_t, 0>>(g); break;
    default: smallFor<TAlloc<uint8_t, 7>>(g); break;
    }
}
