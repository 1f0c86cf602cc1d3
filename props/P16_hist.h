#pragma once
// Variant against a reference (index, value) over operation histories, storage kinds, allocators and throw points.
#include <optional>
#include <variant>
#include "tracked.h"
#include "zserio/Variant.h"

using namespace zserio;
using namespace trk;
using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = ppmr::PropagatingPolymorphicAllocator<uint8_t>;

namespace
{
enum class Ix : size_t
{
    A, B, C, D, E, F, G
};
template <class ALLOC>
struct Hist
{
    // repeated types on purpose: the index and not the type selects the alternative
    using V = BasicVariant<ALLOC, Ix, int, Tr<4, true>, Tr<60, true>, AA<ALLOC, 0>, Tr<4, true>, Tr<4, false>, Tr<40, false>>;
    using A = BasicAny<ALLOC>;
    using AT = std::allocator_traits<ALLOC>;
    static constexpr int NT = 7;
    static constexpr int N = 3;
    template <Ix I>
    using Type = detail::type_at_t<I, int, Tr<4, true>, Tr<60, true>, AA<ALLOC, 0>, Tr<4, true>, Tr<4, false>, Tr<40, false>>;
    template <class T>
    static constexpr bool heap() { return !detail::has_non_heap_holder<T, ALLOC>::value; }

    struct Val
    {
        int index = -1; // -1 valueless
        int v = 0;
    };
    struct Slot
    {
        std::unique_ptr<V> a;
        int res = 0;
        Val m;
    };
    pbt::Gen& g;
    Pool pool;
    Slot s[N];
    bool faults;
    std::string trace;
    Hist(pbt::Gen& gen, bool f) : g(gen), faults(f) {}

    ALLOC mk(int i) { return AK<ALLOC>::make(i); }
    int pickRes() { return AK<ALLOC>::STATEFUL ? static_cast<int>(g.below(3)) : 0; }
    int socccRes(int from) { return AK<ALLOC>::STATEFUL ? AK<ALLOC>::id(AT::select_on_container_copy_construction(mk(from))) : 0; }

    template <class F>
    static void forIndex(int t, F&& f)
    {
        switch (t)
        {
        case 0: f(std::integral_constant<Ix, Ix::A>()); break;
        case 1: f(std::integral_constant<Ix, Ix::B>()); break;
        case 2: f(std::integral_constant<Ix, Ix::C>()); break;
        case 3: f(std::integral_constant<Ix, Ix::D>()); break;
        case 4: f(std::integral_constant<Ix, Ix::E>()); break;
        case 5: f(std::integral_constant<Ix, Ix::F>()); break;
        default: f(std::integral_constant<Ix, Ix::G>()); break;
        }
    }
    template <class F>
    bool run(F&& f)
    {
        bool armed = false;
        if (faults && g.chance(1, 3))
        {
            armed = true;
            if (g.flip()) world().valueFault = static_cast<long long>(g.below(3));
            else world().allocFault = static_cast<long long>(g.below(3));
        }
        bool done = false;
        try
        {
            f();
            done = true;
        }
        catch (const ValueThrow&) { CHECK(armed); }
        catch (const std::bad_alloc&) { CHECK(armed); }
        world().disarm();
        if (!done) { g.note("  (threw)"); trace += " threw;"; g.nontrivial(); }
        return done;
    }
    Val read(V& a)
    {
        const V& c = a;
        Val r;
        if (!c.valueless_by_exception()) r.index = static_cast<int>(c.index());
        else CHECK_EQ(static_cast<size_t>(c.index()), std::variant_npos);
        for (int t = 0; t < NT; ++t)
            forIndex(t, [&](auto ic) {
                constexpr Ix I = decltype(ic)::value;
                const bool active = t == r.index;
                CHECK_EQM(zserio::get_if<I>(&c) != nullptr, active, "get_if " << t << " active " << r.index << " " << trace);
                CHECK(zserio::get_if<I>(&a) == zserio::get_if<I>(&c));
                CHECK(a.template get_if<I>() == c.template get_if<I>());
                if (active)
                {
                    r.v = valueOf(zserio::get<I>(c));
                    CHECK(&zserio::get<I>(a) == &zserio::get<I>(c));
                    CHECK(&a.template get<I>() == a.template get_if<I>());
                    CHECK(&c.template get<I>() == c.template get_if<I>());
                }
                else
                {
                    CHECK_THROWS(BadVariantAccess, zserio::get<I>(c));
                    CHECK_THROWS(BadVariantAccess, zserio::get<I>(a));
                }
            });
        // visit
        int visited = 0, vv = 0;
        const void* where = nullptr;
        auto fun = [&](const auto& e) { ++visited; vv = valueOf(e); where = &e; };
        if (r.index < 0)
        {
            CHECK_THROWS(BadVariantAccess, (zserio::visit(fun, c), 0));
            CHECK_THROWS(BadVariantAccess, (zserio::visit(fun, a), 0));
            CHECK_THROWS(BadVariantAccess, (a.visit(fun), 0));
            CHECK_EQ(visited, 0);
        }
        else
        {
            zserio::visit(fun, c);
            CHECK_EQ(visited, 1);
            CHECK_EQ(vv, r.v);
            forIndex(r.index, [&](auto ic) { CHECK(where == c.template get_if<decltype(ic)::value>()); });
            a.visit(fun);
            CHECK_EQ(visited, 2);
            CHECK_EQ(zserio::visit([](const auto& e) -> int { return valueOf(e); }, c), r.v);
            CHECK_EQ(zserio::visit([](auto&& e) -> int { return valueOf(e) + 1; }, a), r.v + 1);
        }
        return r;
    }
    void resync(Slot& x)
    {
        if (x.a) x.m = read(*x.a);
    }
    // a variant does not show its allocator; whether it was already taken over when the assignment failed is
    // unspecified, it is replaced by a new one
    void unsure(Slot& x, int other)
    {
        if (x.res == other) return;
        read(*x.a);
        x.a.reset();
        x.m = Val();
    }
    void movedFrom(Slot& b, const Val& was)
    {
        const Val now = read(*b.a);
        CHECK(now.index == was.index || now.index == -1);
        b.m = now;
    }
    void checkAll(const char* op)
    {
        expectClean(op);
        size_t objects = 0;
        std::array<size_t, 3> blocks{};
        for (int i = 0; i < N; ++i)
        {
            if (!s[i].a) continue;
            V& a = *s[i].a;
            const Val r = read(a);
            CHECK_EQM(r.index, s[i].m.index, op << " index in slot " << i << " of " << trace);
            CHECK_EQM(r.v, r.index < 0 ? r.v : s[i].m.v, op << " value in slot " << i << " of " << trace);
            if (r.index < 0) continue;
            forIndex(r.index, [&](auto ic) {
                constexpr Ix I = decltype(ic)::value;
                using T = Type<I>;
                if (IsTr<T>::value || IsAA<T>::value) ++objects;
                if (heap<T>()) ++blocks[static_cast<size_t>(s[i].res)];
                if constexpr (IsAA<T>::value)
                {
                    const T& x = zserio::get<I>(a);
                    CHECK_EQM(AK<ALLOC>::STATEFUL ? x.resource() : 0, s[i].res, op << " resource of the value in slot " << i << " of " << trace);
                    if (x.value() != MOVED) ++blocks[static_cast<size_t>(x.resource())];
                }
            });
        }
        CHECK_EQM(world().live.size(), objects, op << " number of live values, " << trace);
        if (AK<ALLOC>::STATEFUL)
            for (size_t r = 0; r < 3; ++r) CHECK_EQM(pool.res[r].live(), blocks[r], op << " blocks of resource " << r << ", " << trace);
        expectClean(op);
    }
    void compare()
    {
        // whether values come before the valueless state
        bool first = true;
        for (auto& x : s)
            for (auto& y : s)
                if (x.a && y.a && x.m.index >= 0 && y.m.index < 0) first = static_cast<const V&>(*x.a) < static_cast<const V&>(*y.a);
        for (auto& x : s)
            for (auto& y : s)
            {
                if (!x.a || !y.a) continue;
                const V& p = *x.a;
                const V& q = *y.a;
                const bool eq = x.m.index == y.m.index && (x.m.index < 0 || x.m.v == y.m.v);
                CHECK_EQM(p == q, eq, trace);
                CHECK_EQ(p != q, !eq);
                if (x.m.index < 0 || y.m.index < 0)
                {
                    // valueless variants are equal to each other and all on the same side of the others
                    CHECKM((p < q) == (!eq && (x.m.index < 0) != first), "order of valueless variants, " << trace);
                    CHECK_EQ(q > p, p < q);
                    CHECK_EQ(p <= q, eq || p < q);
                    CHECK_EQ(q >= p, eq || p < q);
                    continue;
                }
                const bool lt = x.m.index != y.m.index ? x.m.index < y.m.index : x.m.v < y.m.v;
                CHECK_EQM(p < q, lt, trace);
                CHECK_EQ(q > p, lt);
                CHECK_EQ(p <= q, lt || eq);
                CHECK_EQ(q >= p, lt || eq);
                if (eq) CHECK_EQ(std::hash<V>()(p), std::hash<V>()(q));
            }
    }
    void step()
    {
        const int i = static_cast<int>(g.below(N));
        Slot& a = s[i];
        Slot& b = s[g.below(N)];
        const int v = static_cast<int>(g.below(20));
        const int t = static_cast<int>(g.below(NT));
        const int op = static_cast<int>(g.below(a.a ? 14 : 8));
        std::string nm = "op" + std::to_string(op) + "@" + std::to_string(i) + "/" + std::to_string(&b - s) + "=" + std::to_string(t) + ":" + std::to_string(v);
        g.note(nm);
        trace += nm + " ";
        bool ok = false;
        if (op < 8)
        {
            if (op >= 4 && (&a == &b || !b.a)) return;
            a.a.reset();
            a.m = Val();
            const int r = pickRes();
            std::unique_ptr<V> n;
            switch (op)
            {
            case 0:
                ok = run([&] { n = std::make_unique<V>(); });
                a.res = 0;
                if (ok) a.m = {0, 0};
                break;
            case 1:
                ok = run([&] { n = std::make_unique<V>(mk(r)); });
                a.res = r;
                if (ok) a.m = {0, 0};
                break;
            case 2:
                forIndex(t, [&](auto ic) { ok = run([&] { n = std::make_unique<V>(zserio::in_place_index<decltype(ic)::value>, mk(r), v); }); });
                a.res = r;
                if (ok) a.m = {t, v};
                break;
            case 3:
                forIndex(t, [&](auto ic) { ok = run([&] { n = std::make_unique<V>(zserio::in_place_index<decltype(ic)::value>, v); }); });
                a.res = 0;
                if (ok) a.m = {t, v};
                break;
            case 4:
                ok = run([&] { n = std::make_unique<V>(static_cast<const V&>(*b.a)); });
                a.res = socccRes(b.res);
                if (ok) a.m = b.m;
                break;
            case 5:
                ok = run([&] { n = std::make_unique<V>(static_cast<const V&>(*b.a), mk(r)); });
                a.res = r;
                if (ok) a.m = b.m;
                break;
            default:
            {
                const Val was = b.m;
                if (op == 6) { ok = run([&] { n = std::make_unique<V>(std::move(*b.a)); }); a.res = b.res; }
                else { ok = run([&] { n = std::make_unique<V>(std::move(*b.a), mk(r)); }); a.res = r; }
                if (ok) a.m = was;
                movedFrom(b, was);
            }
            }
            if (ok) a.a = std::move(n);
            return;
        }
        switch (op)
        {
        case 8:
            if (!b.a) return;
            ok = run([&] { *a.a = static_cast<const V&>(*b.a); });
            if (&a != &b && AT::propagate_on_container_copy_assignment::value)
            {
                if (ok) a.res = b.res;
                else unsure(a, b.res);
            }
            if (ok) a.m = b.m;
            else resync(a);
            break;
        case 9:
        {
            if (!b.a) return;
            const Val was = b.m;
            ok = run([&] { *a.a = std::move(*b.a); });
            if (&a != &b && AT::propagate_on_container_move_assignment::value)
            {
                if (ok) a.res = b.res;
                else unsure(a, b.res);
            }
            if (&a == &b) { CHECK(ok); break; }
            if (ok) a.m = was;
            else resync(a);
            movedFrom(b, was);
            break;
        }
        case 10:
        case 11:
            forIndex(t, [&](auto ic) {
                ok = run([&] {
                    auto&& r = a.a->template emplace<decltype(ic)::value>(v);
                    CHECK_EQ(valueOf(r), v);
                });
            });
            if (ok) a.m = {t, v};
            else resync(a);
            break;
        case 12:
        {
            if (!b.a) return;
            ok = run([&] { a.a->swap(*b.a); });
            if (ok)
            {
                std::swap(a.m, b.m);
                if (AT::propagate_on_container_swap::value) std::swap(a.res, b.res);
            }
            else
            {
                // the moved values may be anywhere: both must stay readable
                resync(a);
                resync(b);
            }
            break;
        }
        default:
            // modification through a visitor or a reference
            if (a.m.index < 0) return;
            forIndex(a.m.index, [&](auto ic) {
                using T = Type<decltype(ic)::value>;
                T val = [&] {
                    if constexpr (IsAA<T>::value) return T(v, mk(a.res));
                    else return T(v);
                }();
                ok = run([&] { a.a->template get<decltype(ic)::value>() = val; });
            });
            if (ok) a.m.v = v;
            else resync(a);
            break;
        }
    }
    void all()
    {
        const size_t steps = 1 + g.size(25);
        for (size_t k = 0; k < steps; ++k)
        {
            step();
            checkAll(("step " + std::to_string(k)).c_str());
            if (g.chance(1, 4)) compare();
        }
        if (steps >= 4) g.nontrivial();
        for (auto& x : s) { x.a.reset(); x.m = Val(); }
        checkAll("end");
        CHECK_EQ(world().live.size(), 0U);
        for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
    }
};
template <class ALLOC>
void forAlloc(pbt::Gen& g, bool faults)
{
    g.note(AK<ALLOC>::NAME);
    Hist<ALLOC>(g, faults).all();
}
} // namespace
