#pragma once
// Any against a reference (type, value) over operation histories, storage kinds, allocators and throw points.
#include <optional>
#include "tracked.h"
#include "zserio/Any.h"

using namespace zserio;
using namespace trk;
using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = ppmr::PropagatingPolymorphicAllocator<uint8_t>;

namespace
{
template <class ALLOC>
struct Hist
{
    using Any = BasicAny<ALLOC>;
    using AT = std::allocator_traits<ALLOC>;
    // candidates: inline, inline (throwing copy), at the inline limit, above it, throwing move, big, allocator aware
    using T0 = int;
    using T1 = Tr<4, true>;
    using T2 = Tr<8, true>;
    using T3 = Tr<12, true>;
    using T4 = Tr<4, false>;
    using T5 = Tr<60, true>;
    using T6 = AA<ALLOC, 0>;
    using T7 = double;
    static constexpr int NT = 8;
    static constexpr int N = 3;
    template <class T>
    static constexpr bool heap() { return !detail::has_non_heap_holder<T, ALLOC>::value; }

    struct Val
    {
        int type = -1;
        int v = 0;
        bool operator==(const Val& o) const { return type == o.type && (type < 0 || v == o.v); }
    };
    struct Slot
    {
        std::unique_ptr<Any> a;
        int res = 0;
        Val m;
    };
    pbt::Gen& g;
    Pool pool;
    Slot s[N];
    bool faults;
    std::string trace;
    Hist(pbt::Gen& gen, bool f) : g(gen), faults(f) {}

    ALLOC mk(int i) { return AK<ALLOC>::make(i); }
    int pickRes() { return AK<ALLOC>::STATEFUL ? static_cast<int>(g.below(3)) : 0; }
    int socccRes(int from) { return AK<ALLOC>::STATEFUL ? AK<ALLOC>::id(AT::select_on_container_copy_construction(mk(from))) : 0; }

    template <class F>
    static void forType(int t, F&& f)
    {
        switch (t)
        {
        case 0: f(static_cast<T0*>(nullptr)); break;
        case 1: f(static_cast<T1*>(nullptr)); break;
        case 2: f(static_cast<T2*>(nullptr)); break;
        case 3: f(static_cast<T3*>(nullptr)); break;
        case 4: f(static_cast<T4*>(nullptr)); break;
        case 5: f(static_cast<T5*>(nullptr)); break;
        case 6: f(static_cast<T6*>(nullptr)); break;
        default: f(static_cast<T7*>(nullptr)); break;
        }
    }

    template <class F>
    bool run(F&& f)
    {
        bool armed = false;
        if (faults && g.chance(1, 3))
        {
            armed = true;
            if (g.flip()) world().valueFault = static_cast<long long>(g.below(3));
            else world().allocFault = static_cast<long long>(g.below(3));
        }
        bool done = false;
        try
        {
            f();
            done = true;
        }
        catch (const ValueThrow&) { CHECK(armed); }
        catch (const std::bad_alloc&) { CHECK(armed); }
        world().disarm();
        if (!done) { g.note("  (threw)"); trace += " threw;"; g.nontrivial(); }
        return done;
    }

    Val read(const Any& a)
    {
        Val r;
        int n = 0;
        for (int t = 0; t < NT; ++t)
            forType(t, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                const T* q = a.template get_if<T>();
                CHECK_EQ(q != nullptr, a.template isType<T>());
                if (q)
                {
                    ++n;
                    r.type = t;
                    r.v = valueOf(*q);
                    CHECK(&a.template get<T>() == q);
                }
                else CHECK_THROWS(CppRuntimeException, a.template get<T>());
            });
        CHECK_EQM(n, a.hasValue() ? 1 : 0, "number of types reported for the value, " << trace);
        return r;
    }
    void resync(Slot& x)
    {
        if (x.a) x.m = read(*x.a);
    }
    // whether the allocator was already taken over when the assignment failed is unspecified
    void resyncRes(Slot& x, int other)
    {
        if (!AK<ALLOC>::STATEFUL) return;
        const int r = AK<ALLOC>::id(x.a->get_allocator());
        CHECK(r == x.res || r == other);
        x.res = r;
    }
    void movedFrom(Slot& b, const Val& was)
    {
        const Val now = read(*b.a);
        CHECK(now.type == was.type || now.type == -1);
        b.m = now;
    }

    void checkAll(const char* op)
    {
        expectClean(op);
        size_t objects = 0;
        std::array<size_t, 3> blocks{};
        for (int i = 0; i < N; ++i)
        {
            if (!s[i].a) continue;
            Any& a = *s[i].a;
            CHECK_EQM(a.hasValue(), s[i].m.type >= 0, op << " slot " << i << " of " << trace);
            const Val r = read(a);
            CHECK_EQM(r.type, s[i].m.type, op << " type in slot " << i << " of " << trace);
            CHECK_EQM(r.v, r.type < 0 ? r.v : s[i].m.v, op << " value in slot " << i << " of " << trace);
            if (AK<ALLOC>::STATEFUL) CHECK_EQM(AK<ALLOC>::id(a.get_allocator()), s[i].res, op << " allocator of slot " << i << " of " << trace);
            if (r.type < 0) continue;
            forType(r.type, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                if (IsTr<T>::value || IsAA<T>::value) ++objects;
                if (heap<T>()) ++blocks[static_cast<size_t>(s[i].res)];
                CHECK(a.template get_if<T>() == &a.template get<T>());
                if constexpr (IsAA<T>::value)
                {
                    const T& x = a.template get<T>();
                    CHECK_EQM(AK<ALLOC>::STATEFUL ? x.resource() : 0, s[i].res, op << " resource of the value in slot " << i << " of " << trace);
                    if (x.value() != MOVED) ++blocks[static_cast<size_t>(x.resource())];
                }
            });
        }
        CHECK_EQM(world().live.size(), objects, op << " number of live values, " << trace);
        if (AK<ALLOC>::STATEFUL)
            for (size_t r = 0; r < 3; ++r) CHECK_EQM(pool.res[r].live(), blocks[r], op << " blocks of resource " << r << ", " << trace);
        expectClean(op);
    }

    void step()
    {
        const int i = static_cast<int>(g.below(N));
        Slot& a = s[i];
        Slot& b = s[g.below(N)];
        const int v = static_cast<int>(g.below(20));
        const int t = static_cast<int>(g.below(NT));
        const int op = static_cast<int>(g.below(a.a ? 17 : 8));
        std::string nm = "op" + std::to_string(op) + "@" + std::to_string(i) + "/" + std::to_string(&b - s) + "=" + std::to_string(t) + ":" + std::to_string(v);
        g.note(nm);
        trace += nm + " ";
        bool ok = false;
        if (op < 8)
        {
            if (op >= 4 && (&a == &b || !b.a)) return;
            a.a.reset();
            a.m = Val();
            const int r = pickRes();
            std::unique_ptr<Any> n;
            switch (op)
            {
            case 0: ok = run([&] { n = std::make_unique<Any>(); }); a.res = 0; break;
            case 1: ok = run([&] { n = std::make_unique<Any>(mk(r)); }); a.res = r; break;
            case 2:
            case 3:
                forType(t, [&](auto* p) {
                    using T = std::remove_pointer_t<decltype(p)>;
                    T val(v);
                    if (op == 2)
                    {
                        ok = run([&] { n = std::make_unique<Any>(static_cast<const T&>(val), mk(r)); });
                        CHECK_EQ(valueOf(val), v);
                    }
                    else ok = run([&] { n = std::make_unique<Any>(std::move(val), mk(r)); });
                });
                a.res = r;
                if (ok) a.m = {t, v};
                break;
            case 4:
                ok = run([&] { n = std::make_unique<Any>(static_cast<const Any&>(*b.a)); });
                a.res = socccRes(b.res);
                if (ok) a.m = b.m;
                break;
            case 5:
                ok = run([&] { n = std::make_unique<Any>(static_cast<const Any&>(*b.a), mk(r)); });
                a.res = r;
                if (ok) a.m = b.m;
                break;
            default:
            {
                const Val was = b.m;
                if (op == 6) { ok = run([&] { n = std::make_unique<Any>(std::move(*b.a)); }); a.res = b.res; }
                else { ok = run([&] { n = std::make_unique<Any>(std::move(*b.a), mk(r)); }); a.res = r; }
                if (ok) a.m = was;
                movedFrom(b, was);
            }
            }
            if (ok) a.a = std::move(n);
            return;
        }
        switch (op)
        {
        case 8:
            if (!b.a) return;
            ok = run([&] { *a.a = static_cast<const Any&>(*b.a); });
            if (&a != &b && AT::propagate_on_container_copy_assignment::value)
            {
                if (ok) a.res = b.res;
                else resyncRes(a, b.res);
            }
            if (ok) a.m = b.m;
            else resync(a);
            break;
        case 9:
        {
            if (!b.a) return;
            const Val was = b.m;
            ok = run([&] { *a.a = std::move(*b.a); });
            if (&a != &b && AT::propagate_on_container_move_assignment::value)
            {
                if (ok) a.res = b.res;
                else resyncRes(a, b.res);
            }
            if (&a == &b) { CHECK(ok); break; }
            if (ok) a.m = was;
            else resync(a);
            movedFrom(b, was);
            break;
        }
        case 10:
        case 11:
        case 12:
            forType(t, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                // assignment of an allocator aware value of another resource would hand its allocator over to a value of
                // the same type when the allocator propagates: use the resource of the holder
                T val = [&] {
                    if constexpr (IsAA<T>::value) return T(v, mk(a.res));
                    else return T(v);
                }();
                if (op == 10)
                {
                    if (g.flip()) ok = run([&] { a.a->set(static_cast<const T&>(val)); });
                    else ok = run([&] { *a.a = static_cast<const T&>(val); });
                    CHECK_EQ(valueOf(val), v);
                }
                else if (op == 11)
                {
                    if (g.flip()) ok = run([&] { a.a->set(std::move(val)); });
                    else ok = run([&] { *a.a = std::move(val); });
                }
                else
                    ok = run([&] {
                        T& r = a.a->template emplace<T>(v);
                        CHECK_EQ(valueOf(r), v);
                    });
            });
            if (ok) a.m = {t, v};
            else resync(a);
            break;
        case 13:
            ok = run([&] { a.a->reset(); });
            CHECK(ok);
            a.m = Val();
            break;
        case 14:
        {
            if (!b.a) return;
            ok = run([&] { a.a->swap(*b.a); });
            if (ok)
            {
                std::swap(a.m, b.m);
                if (AT::propagate_on_container_swap::value) std::swap(a.res, b.res);
            }
            else
            {
                resync(a);
                resync(b);
                if (AK<ALLOC>::STATEFUL) { a.res = AK<ALLOC>::id(a.a->get_allocator()); b.res = AK<ALLOC>::id(b.a->get_allocator()); }
            }
            break;
        }
        case 15:
            // modification through the reference
            if (a.m.type < 0) return;
            forType(a.m.type, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                T val = [&] {
                    if constexpr (IsAA<T>::value) return T(v, mk(a.res));
                    else return T(v);
                }();
                ok = run([&] { a.a->template get<T>() = val; });
            });
            if (ok) a.m.v = v;
            else resync(a);
            break;
        case 16:
            // assignment of the own content
            if (a.m.type < 0) return;
            forType(a.m.type, [&](auto* p) {
                using T = std::remove_pointer_t<decltype(p)>;
                ok = run([&] { *a.a = a.a->template get<T>(); });
            });
            if (!ok) resync(a);
            break;
        default: break;
        }
    }
    void all()
    {
        const size_t steps = 1 + g.size(25);
        for (size_t k = 0; k < steps; ++k)
        {
            step();
            checkAll(("step " + std::to_string(k)).c_str());
        }
        if (steps >= 4) g.nontrivial();
        for (auto& x : s) { x.a.reset(); x.m = Val(); }
        checkAll("end");
        CHECK_EQ(world().live.size(), 0U);
        for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
    }
};
template <class ALLOC>
void forAlloc(pbt::Gen& g, bool faults)
{
    g.note(AK<ALLOC>::NAME);
    Hist<ALLOC>(g, faults).all();
}
} // namespace
