// Service messages carry the object they were made from, in every holder and in its copies.
#include "testobj.h"
#include "tracked.h"
#include "zserio/IService.h"
#include "zserio/SerializeUtil.h"
#include "zserio/View.h"

using namespace zserio;
using trk::AK;
using trk::Pool;
using StdA = std::allocator<uint8_t>;

namespace
{
template <class A, class T>
std::vector<uint8_t> image(const T& v)
{
    View<T> view(v);
    const BitSize n = zserio::detail::bitSizeOf(view, 0);
    std::vector<uint8_t> buf((n + 7) / 8);
    BitStreamWriter w(Span<uint8_t>(buf.data(), buf.size()), n);
    zserio::detail::write(w, view);
    return buf;
}
void same(Span<const uint8_t> s, const std::vector<uint8_t>& bytes, const std::string& trace)
{
    CHECK_EQM(s.size(), bytes.size(), trace);
    CHECKM(std::equal(s.begin(), s.end(), bytes.begin()), "other bytes than those of the object: " << trace);
}

// what a slot holds, as the interface a service client gets plus the operations of its type
template <class A>
struct Held
{
    virtual ~Held() = default;
    virtual const IBasicServiceData<A>& data() const = 0;
    virtual std::unique_ptr<Held> copy() const = 0;
    virtual std::unique_ptr<Held> move() = 0;
    virtual bool assign(Held& from, bool move) = 0;
    std::vector<uint8_t> bytes;
    std::shared_ptr<std::vector<uint8_t>> outside; // of a raw view
    bool specified = true; // not moved from
};
template <class A, class D>
struct HeldAs : Held<A>
{
    template <class... Args>
    explicit HeldAs(std::in_place_t, Args&&... args) : d(std::forward<Args>(args)...) {}
    const IBasicServiceData<A>& data() const override { return d; }
    std::unique_ptr<Held<A>> copy() const override
    {
        auto r = std::make_unique<HeldAs>(std::in_place, d);
        like(*r, *this);
        return r;
    }
    std::unique_ptr<Held<A>> move() override
    {
        auto r = std::make_unique<HeldAs>(std::in_place, std::move(d));
        like(*r, *this);
        this->specified = false;
        return r;
    }
    bool assign(Held<A>& from, bool move) override
    {
        auto* f = dynamic_cast<HeldAs*>(&from);
        if (!f) return false;
        if (move) d = std::move(f->d);
        else d = static_cast<const D&>(f->d);
        like(*this, *f);
        if (move && f != this) f->specified = false;
        if (move && f == this) this->specified = false; // a move to itself need not preserve the content
        return true;
    }
    static void like(Held<A>& to, const Held<A>& from)
    {
        to.bytes = from.bytes;
        to.outside = from.outside;
        to.specified = from.specified;
    }
    D d;
};
template <class N>
struct Hist
{
    using A = typename N::Alloc;
    using H = Held<A>;
    static constexpr size_t SLOTS = 3;
    pbt::Gen& g;
    std::unique_ptr<H> s[SLOTS];
    std::string trace;
    bool used = false;

    A mk() { return AK<A>::make(AK<A>::STATEFUL ? static_cast<int>(g.below(3)) : 0); }

    template <class T>
    std::unique_ptr<H> make(T obj)
    {
        const A a = mk();
        const std::vector<uint8_t> bytes = image<A>(obj);
        std::unique_ptr<H> r;
        const size_t kind = g.draw(6);
        trace += "make" + std::to_string(kind) + " ";
        switch (kind)
        {
        case 0:
        case 1: r = std::make_unique<HeldAs<A, BasicIntrospectableServiceData<T, A>>>(std::in_place, static_cast<const T&>(obj), a); break;
        case 2: r = std::make_unique<HeldAs<A, BasicIntrospectableServiceData<T, A>>>(std::in_place, std::move(obj), a); break;
        case 3: r = std::make_unique<HeldAs<A, BasicObjectServiceData<A>>>(std::in_place, obj, a); break;
        case 4: r = std::make_unique<HeldAs<A, BasicObjectServiceData<A>>>(std::in_place, View<T>(obj), a); break;
        case 5:
        {
            Vector<uint8_t, A> v(bytes.begin(), bytes.end(), a);
            if (g.flip()) r = std::make_unique<HeldAs<A, BasicRawServiceDataHolder<A>>>(std::in_place, static_cast<const Vector<uint8_t, A>&>(v));
            else r = std::make_unique<HeldAs<A, BasicRawServiceDataHolder<A>>>(std::in_place, std::move(v));
            if (!v.empty()) v.assign(v.size(), 0xEE);
            break;
        }
        default:
        {
            auto out = std::make_shared<std::vector<uint8_t>>(bytes);
            r = std::make_unique<HeldAs<A, BasicRawServiceDataView<A>>>(std::in_place, Span<const uint8_t>(out->data(), out->size()));
            r->outside = out;
        }
        }
        r->bytes = bytes;
        return r; // the object itself is gone
    }
    std::unique_ptr<H> makeAny()
    {
        const A a = AK<A>::make(0);
        switch (g.below(4))
        {
        case 0: return make(to::genWObj<N>(g, a));
        case 1: return make(to::genCObj<N>(g, a));
        case 2: return make(to::genRObj<N>(g, a));
        default: return make(to::genUUni<N>(g, a));
        }
    }
    void check(const H& h)
    {
        const auto& d = h.data();
        const auto intr = d.getIntrospectable();
        if (!h.specified)
        {
            // whatever it holds, it is usable: a moved-from union has no case and is refused as such
            try
            {
                unsigned sum = 0;
                for (uint8_t b : d.getData()) sum += b;
                (void)sum;
            }
            catch (const CppRuntimeException&)
            {}
            return;
        }
        const bool first = g.flip();
        Span<const uint8_t> before;
        if (first) before = d.getData();
        if (intr)
        {
            auto b = intr->serialize(A());
            same(b.getData(), h.bytes, "introspectable, " + trace);
        }
        const auto sp = d.getData();
        same(sp, h.bytes, trace);
        if (first) CHECKM(before.data() == sp.data() && before.size() == sp.size(), "the data moved between two calls, " << trace);
        CHECKM(d.getData().data() == sp.data(), "the data moved between two calls, " << trace);
        if (h.outside) CHECK(sp.data() == h.outside->data());
    }
    void all()
    {
        const size_t steps = 1 + g.size(10);
        for (size_t k = 0; k < steps; ++k)
        {
            const size_t i = g.below(SLOTS), j = g.below(SLOTS);
            const size_t op = s[i] ? g.draw(6) : 0;
            trace += std::to_string(op) + "@" + std::to_string(i) + "," + std::to_string(j) + " ";
            if (g.noting()) g.note(std::to_string(op) + "@" + std::to_string(i) + "," + std::to_string(j));
            switch (op)
            {
            case 0: s[i] = makeAny(); break;
            case 1:
            {
                auto n = s[i]->copy();
                s[j] = std::move(n); // destroys the original when i == j
                used = true;
                break;
            }
            case 2:
            {
                auto n = s[i]->move();
                s[j] = std::move(n);
                used = true;
                break;
            }
            case 3:
                if (s[j]) used |= s[i]->assign(*s[j], false);
                break;
            case 4:
                if (s[j]) used |= s[i]->assign(*s[j], true);
                break;
            case 5: check(*s[i]); break;
            default: s[i].reset();
            }
            if (g.flip())
                for (auto& x : s)
                    if (x) check(*x);
        }
        for (auto& x : s)
            if (x) check(*x);
        g.nontrivial(used && steps >= 3);
    }
};

// the message's bytes are taken from the supplied allocator
template <class N>
void memory(pbt::Gen& g)
{
    using A = typename N::Alloc;
    Pool pool;
    {
        const int r = static_cast<int>(1 + g.below(2));
        const A a = AK<A>::make(r);
        auto obj = to::genWObj<N>(g, a);
        const auto bytes = image<A>(obj);
        auto others = [&] { return pool.res[r == 1 ? 2 : 1].allocations + pool.res[0].allocations; };
        {
            const size_t before = others(), own = pool.res[r].allocations;
            BasicObjectServiceData<A> d(obj, a);
            same(d.getData(), bytes, "object");
            CHECK_EQ(others(), before);
            if (!bytes.empty()) CHECK(pool.res[r].allocations > own);
        }
        {
            BasicIntrospectableServiceData<typename N::WObj, A> d(std::move(obj), a);
            const size_t before = others(), own = pool.res[r].allocations;
            same(d.getData(), bytes, "introspectable");
            CHECK_EQM(others(), before, "the bytes were not allocated from the supplied resource");
            if (!bytes.empty()) CHECK(pool.res[r].allocations > own);
        }
        g.nontrivial(bytes.size() > 8);
    }
    for (auto& res : pool.res) CHECK_EQ(res.live(), 0U);
    trk::expectClean("memory");
}
} // namespace

SUBCHECK(histories, 60000, 1200000,
        "1-11 steps over 3 service data of 4 kinds and 4 object types x 3 allocators: made, copied, moved, assigned and destroyed, "
        "the object they were made from is gone; nontrivial: a copy, move or assignment within at least 3 steps")
{
    switch (g.draw(2))
    {
    case 0: Hist<to::Std>{g, {}, "", false}.all(); break;
    case 1:
    {
        Pool pool;
        Hist<to::Pmr>{g, {}, "", false}.all();
        for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
        break;
    }
    default:
    {
        Pool pool;
        Hist<to::Ppmr>{g, {}, "", false}.all();
        for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
    }
    }
}
SUBCHECK(memory, 10000, 200000, "bytes of object and introspectable service data with a supplied memory resource; nontrivial: more than 8 bytes")
{
    if (g.flip()) memory<to::Pmr>(g);
    else memory<to::Ppmr>(g);
}
