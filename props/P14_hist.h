#pragma once
// Optional against a reference optional over operation histories, storage kinds, allocators and throw points.
#include <optional>
#include "tracked.h"
#include "zserio/Optional.h"

using namespace zserio;
using namespace trk;
using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = ppmr::PropagatingPolymorphicAllocator<uint8_t>;

namespace
{
// a large value (kept on the heap) which converts to the element types
struct Large
{
    int v = 0;
    std::array<unsigned char, 60> pad{};
    Large() = default;
    Large(int x) : v(x) {}
    operator int() const { return v; }
};

template <class ALLOC, class T>
struct Hist
{
    using Opt = BasicOptional<ALLOC, T>;
    using AT = std::allocator_traits<ALLOC>;
    static constexpr bool HEAP = detail::is_optional_heap_allocated_v<T>;
    static constexpr bool TRACKED = IsTr<T>::value || IsAA<T>::value;
    static constexpr int N = 3;

    struct Slot
    {
        std::unique_ptr<Opt> o;
        int res = 0;
        std::optional<int> m; // model
    };
    pbt::Gen& g;
    Pool pool;
    Slot s[N];
    bool faults;
    std::string trace;

    Hist(pbt::Gen& gen, bool f) : g(gen), faults(f) {}

    ALLOC mk(int i) { return AK<ALLOC>::make(i); }
    int pickRes() { return AK<ALLOC>::STATEFUL ? static_cast<int>(g.below(3)) : 0; }
    int newVal() { return static_cast<int>(g.below(20)); }
    int socccRes(int from) { return AK<ALLOC>::STATEFUL ? AK<ALLOC>::id(AT::select_on_container_copy_construction(mk(from))) : 0; }

    // runs f with an armed fault; true when it completed
    template <class F>
    bool run(F&& f)
    {
        bool armed = false;
        if (faults && g.chance(1, 3))
        {
            armed = true;
            if (g.flip()) world().valueFault = static_cast<long long>(g.below(3));
            else world().allocFault = static_cast<long long>(g.below(3));
        }
        bool done = false;
        try
        {
            f();
            done = true;
        }
        catch (const ValueThrow&)
        {
            CHECK(armed);
        }
        catch (const std::bad_alloc&)
        {
            CHECK(armed);
        }
        world().disarm();
        if (!done) { g.note("  (threw)"); trace += " threw;"; g.nontrivial(); }
        return done;
    }

    void resync(Slot& x)
    {
        if (!x.o) return;
        if (x.o->has_value()) x.m = valueOf(static_cast<const Opt&>(*x.o).value());
        else x.m.reset();
    }

    // after an operation which threw: a propagating allocator is either already the other's or still the own one
    void resyncRes(Slot& x, int other)
    {
        if (!AK<ALLOC>::STATEFUL) return;
        const int r = AK<ALLOC>::id(x.o->get_allocator());
        CHECK(r == x.res || r == other);
        x.res = r;
    }

    void checkAll(const char* op)
    {
        expectClean(op);
        size_t objects = 0;
        std::array<size_t, 3> blocks{};
        for (int i = 0; i < N; ++i)
        {
            if (!s[i].o) continue;
            const Opt& o = *s[i].o;
            CHECK_EQM(o.has_value(), s[i].m.has_value(), op << " slot " << i << " of " << trace);
            CHECK_EQ(static_cast<bool>(o), o.has_value());
            if (AK<ALLOC>::STATEFUL && !std::is_scalar_v<T>) CHECK_EQM(AK<ALLOC>::id(o.get_allocator()), s[i].res, op << " allocator of slot " << i);
            if (!o.has_value())
            {
                CHECK_THROWS(BadOptionalAccess, o.value());
                continue;
            }
            CHECK_EQM(valueOf(o.value()), *s[i].m, op << " slot " << i << " of " << trace);
            ++objects;
            if (HEAP) ++blocks[static_cast<size_t>(s[i].res)];
            if constexpr (IsAA<T>::value)
            {
                if (AK<ALLOC>::UA) CHECK_EQM(o.value().resource(), s[i].res, op << " resource of the value in slot " << i);
                if (o.value().value() != MOVED) ++blocks[static_cast<size_t>(o.value().resource())];
            }
        }
        if (TRACKED) CHECK_EQM(world().live.size(), objects, op << " number of live values, " << trace);
        if (AK<ALLOC>::STATEFUL)
            for (size_t r = 0; r < 3; ++r) CHECK_EQM(pool.res[r].live(), blocks[r], op << " blocks of resource " << r << ", " << trace);
        expectClean(op);
    }

    void step()
    {
        const int i = static_cast<int>(g.below(N));
        Slot& a = s[i];
        Slot& b = s[g.below(N)];
        const int v = newVal();
        const int op = static_cast<int>(g.below(a.o ? 23 : 12));
        std::string nm = "op" + std::to_string(op) + "@" + std::to_string(i) + "/" + std::to_string(&b - s) + "=" + std::to_string(v);
        g.note(nm);
        trace += nm + " ";
        if (op < 12)
        {
            // construction into slot i (destroys the old one)
            if (&a == &b && op >= 6 && op <= 9) return;
            if (op >= 6 && op <= 9 && !b.o) return;
            a.o.reset();
            a.m.reset();
            const int r = pickRes();
            std::unique_ptr<Opt> n;
            bool ok = false;
            switch (op)
            {
            case 0: ok = run([&] { n = std::make_unique<Opt>(); }); a.res = 0; break;
            case 1: ok = run([&] { n = std::make_unique<Opt>(std::nullopt, mk(r)); }); a.res = r; break;
            case 2: ok = run([&] { n = std::make_unique<Opt>(mk(r)); }); a.res = r; break;
            case 3:
            {
                T val(v);
                ok = run([&] { n = std::make_unique<Opt>(static_cast<const T&>(val), mk(r)); });
                CHECK_EQ(valueOf(val), v);
                a.res = r;
                if (ok) a.m = v;
                break;
            }
            case 4:
            {
                T val(v);
                ok = run([&] { n = std::make_unique<Opt>(std::move(val), mk(r)); });
                a.res = r;
                if (ok) a.m = v;
                break;
            }
            case 5:
                if (g.flip()) { ok = run([&] { n = std::make_unique<Opt>(std::in_place, mk(r), v); }); a.res = r; }
                else { ok = run([&] { n = std::make_unique<Opt>(std::in_place, v); }); a.res = 0; }
                if (ok) a.m = v;
                break;
            case 6:
                ok = run([&] { n = std::make_unique<Opt>(static_cast<const Opt&>(*b.o)); });
                a.res = socccRes(b.res);
                if (ok) a.m = b.m;
                break;
            case 7:
                ok = run([&] { n = std::make_unique<Opt>(static_cast<const Opt&>(*b.o), mk(r)); });
                a.res = r;
                if (ok) a.m = b.m;
                break;
            case 8:
            case 9:
            {
                auto was = b.m;
                if (op == 8) { ok = run([&] { n = std::make_unique<Opt>(std::move(*b.o)); }); a.res = b.res; }
                else { ok = run([&] { n = std::make_unique<Opt>(std::move(*b.o), mk(r)); }); a.res = r; }
                if (ok) { a.m = was; movedFrom(b, was); }
                else resync(b);
                break;
            }
            default: // converting construction
            {
                const bool large = std::is_same_v<T, int> || g.flip();
                if (large) ok = convertingConstruction<Large>(a, n, v, r, op == 11);
                else if constexpr (!std::is_same_v<T, int>) ok = convertingConstruction<int>(a, n, v, r, op == 11);
            }
            }
            if (ok) a.o = std::move(n);
            return;
        }
        bool ok = false;
        switch (op)
        {
        case 12:
            if (!b.o) return;
            ok = run([&] { *a.o = static_cast<const Opt&>(*b.o); });
            if (&a != &b && AT::propagate_on_container_copy_assignment::value)
            {
                if (ok) a.res = b.res;
                else resyncRes(a, b.res);
            }
            if (ok) a.m = b.m;
            else resync(a);
            break;
        case 13:
        {
            if (!b.o) return;
            auto was = b.m;
            ok = run([&] { *a.o = std::move(*b.o); });
            if (&a != &b && AT::propagate_on_container_move_assignment::value)
            {
                if (ok) a.res = b.res;
                else resyncRes(a, b.res);
            }
            if (&a == &b) { CHECK(ok); break; }
            if (ok) { a.m = was; movedFrom(b, was); }
            else { resync(a); resync(b); }
            break;
        }
        case 14:
            ok = run([&] { *a.o = std::nullopt; });
            a.m.reset();
            break;
        case 15:
            ok = run([&] { a.o->reset(); });
            a.m.reset();
            break;
        case 16:
        {
            T val(v);
            ok = run([&] { *a.o = static_cast<const T&>(val); });
            CHECK_EQ(valueOf(val), v);
            if (ok) a.m = v;
            else resync(a);
            break;
        }
        case 17:
        {
            T val(v);
            ok = run([&] { *a.o = std::move(val); });
            if (ok) a.m = v;
            else resync(a);
            break;
        }
        case 18:
        {
            ok = run([&] {
                T& r = a.o->emplace(v);
                CHECK_EQ(valueOf(r), v);
            });
            if (ok) a.m = v;
            else resync(a);
            break;
        }
        case 19:
        {
            if (!b.o) return;
            ok = run([&] { a.o->swap(*b.o); });
            if (ok)
            {
                std::swap(a.m, b.m);
                if (AT::propagate_on_container_swap::value) std::swap(a.res, b.res);
            }
            else
            {
                resync(a);
                resync(b);
                if (AK<ALLOC>::STATEFUL) { a.res = AK<ALLOC>::id(a.o->get_allocator()); b.res = AK<ALLOC>::id(b.o->get_allocator()); }
            }
            break;
        }
        case 20:
            // assignment of the own content
            if (!a.m) return;
            if (g.flip()) ok = run([&] { *a.o = **a.o; });
            else ok = run([&] { *a.o = static_cast<const T&>(**a.o); });
            if (!ok) resync(a);
            break;
        case 21:
        case 22:
        {
            const bool large = std::is_same_v<T, int> || g.flip();
            if (large) convertingAssignment<Large>(a, v, op == 22);
            else if constexpr (!std::is_same_v<T, int>) convertingAssignment<int>(a, v, op == 22);
            break;
        }
        default: break;
        }
    }

    template <class U>
    BasicOptional<ALLOC, U> other(int v, std::optional<int>& was)
    {
        BasicOptional<ALLOC, U> src(mk(pickRes()));
        if (g.chance(3, 4)) src.emplace(v);
        if (src.has_value()) was = v;
        return src;
    }
    template <class U>
    bool convertingConstruction(Slot& a, std::unique_ptr<Opt>& n, int v, int r, bool move)
    {
        std::optional<int> was;
        auto src = other<U>(v, was);
        const bool ext = g.flip();
        const int sr = AK<ALLOC>::STATEFUL ? AK<ALLOC>::id(src.get_allocator()) : 0;
        bool ok = false;
        if (!move)
        {
            if (ext) ok = run([&] { n = std::make_unique<Opt>(static_cast<const BasicOptional<ALLOC, U>&>(src), mk(r)); });
            else ok = run([&] { n = std::make_unique<Opt>(static_cast<const BasicOptional<ALLOC, U>&>(src)); });
            a.res = ext ? r : socccRes(sr);
            CHECK_EQ(src.has_value(), was.has_value());
        }
        else
        {
            if (ext) ok = run([&] { n = std::make_unique<Opt>(std::move(src), mk(r)); });
            else ok = run([&] { n = std::make_unique<Opt>(std::move(src)); });
            a.res = ext ? r : sr;
        }
        if (ok) a.m = was;
        return ok;
    }
    template <class U>
    void convertingAssignment(Slot& a, int v, bool move)
    {
        std::optional<int> was;
        auto src = other<U>(v, was);
        const int sr = AK<ALLOC>::STATEFUL ? AK<ALLOC>::id(src.get_allocator()) : 0;
        bool ok = false;
        if (!move)
        {
            ok = run([&] { *a.o = static_cast<const BasicOptional<ALLOC, U>&>(src); });
            CHECK_EQ(src.has_value(), was.has_value());
            if (was) CHECK_EQ(static_cast<int>(*src), *was);
            if (AT::propagate_on_container_copy_assignment::value && ok) a.res = sr;
        }
        else
        {
            ok = run([&] { *a.o = std::move(src); });
            if (AT::propagate_on_container_move_assignment::value && ok) a.res = sr;
        }
        if (!ok) resyncRes(a, sr);
        if (ok) a.m = was;
        else resync(a);
        // comparison of optionals of different types
        if (!move)
        {
            const Opt& c = *a.o;
            CHECK_EQ(c.has_value(), a.m.has_value());
        }
    }

    // the source of a move: a standard optional stays engaged with an unspecified value, the documented
    // extension is that it is empty when its heap storage was taken over
    void movedFrom(Slot& b, const std::optional<int>& was)
    {
        if (b.o->has_value()) CHECK(was.has_value());
        else CHECK(!was.has_value() || HEAP);
        resync(b);
    }

    void observers()
    {
        for (int i = 0; i < N; ++i)
        {
            if (!s[i].o) continue;
            Opt& o = *s[i].o;
            const Opt& c = o;
            if (c.has_value() && *s[i].m == MOVED) continue;
            if (c.has_value())
            {
                CHECK_EQ(valueOf(*o), *s[i].m);
                CHECK_EQ(valueOf(*c), *s[i].m);
                CHECK(o.operator->() == &o.value() && c.operator->() == &c.value() && &*o == &*c);
                CHECK_EQ(valueOf(c.value_or(T(77))), *s[i].m);
                CHECK_EQ(valueOf(o.value_or(T(77))), *s[i].m);
                CHECK_EQ(valueOf(*c), *s[i].m); // still there
            }
            else
            {
                CHECK_THROWS(BadOptionalAccess, *o);
                CHECK_THROWS(BadOptionalAccess, *c);
                CHECK_THROWS(BadOptionalAccess, o.value());
                CHECK_THROWS(BadOptionalAccess, o.operator->());
                CHECK_THROWS(BadOptionalAccess, c.operator->());
                CHECK_EQ(valueOf(c.value_or(T(77))), 77);
                CHECK_EQ(valueOf(o.value_or(T(78))), 78);
            }
            CHECK((c == std::nullopt) == (s[i].m == std::nullopt));
            CHECK((std::nullopt != c) == (s[i].m != std::nullopt));
            CHECK((c < std::nullopt) == (s[i].m < std::nullopt));
            CHECK((std::nullopt < c) == (std::nullopt < s[i].m));
            CHECK((c > std::nullopt) == (s[i].m > std::nullopt));
            CHECK((std::nullopt > c) == (std::nullopt > s[i].m));
            CHECK((c <= std::nullopt) == (s[i].m <= std::nullopt));
            CHECK((std::nullopt <= c) == (std::nullopt <= s[i].m));
            CHECK((c >= std::nullopt) == (s[i].m >= std::nullopt));
            CHECK((std::nullopt >= c) == (std::nullopt >= s[i].m));
            const int pv = newVal();
            const T probe(pv);
            CHECK((c == probe) == (s[i].m == pv));
            CHECK((probe == c) == (pv == s[i].m));
            CHECK((c != probe) == (s[i].m != pv));
            CHECK((probe != c) == (pv != s[i].m));
            CHECK((c < probe) == (s[i].m < pv));
            CHECK((probe < c) == (pv < s[i].m));
            CHECK((c > probe) == (s[i].m > pv));
            CHECK((probe > c) == (pv > s[i].m));
            CHECK((c <= probe) == (s[i].m <= pv));
            CHECK((probe <= c) == (pv <= s[i].m));
            CHECK((c >= probe) == (s[i].m >= pv));
            CHECK((probe >= c) == (pv >= s[i].m));
            for (int j = 0; j < N; ++j)
            {
                if (!s[j].o || (s[j].m && *s[j].m == MOVED)) continue;
                const Opt& d = *s[j].o;
                CHECK((c == d) == (s[i].m == s[j].m));
                CHECK((c != d) == (s[i].m != s[j].m));
                CHECK((c < d) == (s[i].m < s[j].m));
                CHECK((c > d) == (s[i].m > s[j].m));
                CHECK((c <= d) == (s[i].m <= s[j].m));
                CHECK((c >= d) == (s[i].m >= s[j].m));
                if (s[i].m == s[j].m) CHECK_EQ(std::hash<Opt>()(c), std::hash<Opt>()(d));
            }
        }
    }

    void all()
    {
        const size_t steps = 1 + g.size(25);
        for (size_t k = 0; k < steps; ++k)
        {
            step();
            checkAll(("step " + std::to_string(k)).c_str());
            if (g.chance(1, 4)) { observers(); checkAll("observers"); }
        }
        if (steps >= 4) g.nontrivial();
        for (auto& x : s) { x.o.reset(); x.m.reset(); }
        checkAll("end");
        CHECK_EQ(world().live.size(), 0U);
        for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
    }
};

template <class ALLOC>
void forAlloc(pbt::Gen& g, bool faults)
{
    const int t = static_cast<int>(g.below(7));
    g.note(std::string(AK<ALLOC>::NAME) + " element " + std::to_string(t));
    switch (t)
    {
    case 0: Hist<ALLOC, int>(g, faults).all(); break;
    case 1: Hist<ALLOC, Tr<8, true>>(g, faults).all(); break;
    case 2: Hist<ALLOC, Tr<20, false>>(g, faults).all(); break; // exactly the inline limit
    case 3: Hist<ALLOC, Tr<24, true>>(g, faults).all(); break;  // just above
    case 4: Hist<ALLOC, Tr<60, false>>(g, faults).all(); break;
    case 5: Hist<ALLOC, AA<ALLOC, 0>>(g, faults).all(); break;
    default: Hist<ALLOC, AA<ALLOC, 40>>(g, faults).all(); break;
    }
}
} // namespace
