#include "pbt.h"
#include "ref.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/pmr/BitBuffer.h"
#include "zserio/ppmr/BitBuffer.h"

#include <memory_resource>
#include <optional>

using namespace zserio;

namespace
{
struct Model
{
    std::vector<uint8_t> bits;
    bool operator==(const Model& o) const { return bits == o.bits; }
    bool operator<(const Model& o) const { return bits < o.bits; }
};
Model genModel(pbt::Gen& g)
{
    Model m;
    m.bits.resize(g.size(g.chance(1, 10) ? 300 : 40));
    int mode = static_cast<int>(g.draw(3));
    for (auto& b : m.bits) b = mode == 0 ? 0 : mode == 1 ? (g.chance(1, 8) ? 1 : 0) : static_cast<uint8_t>(g.draw(1));
    return m;
}
Model vary(pbt::Gen& g, Model m)
{
    switch (g.draw(4))
    {
    case 0: break; // equal
    case 1: if (!m.bits.empty()) m.bits[g.below(m.bits.size())] ^= 1; break;
    case 2: m.bits.push_back(static_cast<uint8_t>(g.draw(1))); break;
    case 3: if (!m.bits.empty()) m.bits.pop_back(); break;
    default: m.bits.resize(m.bits.size() + g.size(12), static_cast<uint8_t>(g.draw(1))); break;
    }
    return m;
}
// storage with random padding bits and extra bytes
std::vector<uint8_t> storage(pbt::Gen& g, const Model& m)
{
    size_t bytes = (m.bits.size() + 7) / 8 + (g.chance(1, 4) ? g.draw(3) : 0);
    std::vector<uint8_t> v(bytes);
    for (auto& c : v) c = static_cast<uint8_t>(g.flip() ? g.draw(255) : (g.flip() ? 255 : 0));
    for (size_t i = 0; i < m.bits.size(); ++i)
    {
        uint8_t mask = static_cast<uint8_t>(0x80 >> (i % 8));
        v[i / 8] = static_cast<uint8_t>(m.bits[i] ? v[i / 8] | mask : v[i / 8] & ~mask);
    }
    return v;
}
template <class BB>
void expectIs(const BB& b, const Model& m)
{
    CHECK_EQ(b.getBitSize(), m.bits.size());
    CHECK_EQ(b.getByteSize(), (m.bits.size() + 7) / 8);
    CHECK(b.getData().size() >= b.getByteSize());
    CHECK(b.getData().data() == b.getBuffer());
    CHECK(b.getBytes().size() == b.getData().size());
    for (size_t i = 0; i < m.bits.size(); ++i) CHECKM(ref::bitAt(b.getBuffer(), i) == m.bits[i], "bit " << i);
}
template <class BB, class ALLOC>
BB build(pbt::Gen& g, const Model& m, const ALLOC& al)
{
    std::vector<uint8_t> st = storage(g, m);
    size_t n = m.bits.size();
    switch (g.draw(8))
    {
    case 0: return BB(Span<const uint8_t>(st.data(), st.size()), n, al);
    case 1: { std::vector<uint8_t, ALLOC> v(st.begin(), st.end(), al); return BB(std::move(v), n); }
    case 2:
        if (n % 8 == 0 && st.size() == n / 8) return BB(Span<const uint8_t>(st.data(), st.size()), al);
        return BB(Span<const uint8_t>(st.data(), st.size()), n, al);
    case 3:
        if (n % 8 == 0 && st.size() == n / 8) { std::vector<uint8_t, ALLOC> v(st.begin(), st.end(), al); return BB(std::move(v)); }
        return BB(Span<const uint8_t>(st.data(), st.size()), n, al);
    case 4:
    {
        BB b(n, al);
        for (size_t i = 0; i < n; ++i) CHECKM(ref::bitAt(b.getBuffer(), i) == 0, "fresh buffer not zeroed");
        if (n != 0) memcpy(b.getBuffer(), st.data(), (n + 7) / 8);
        return b;
    }
    case 5: { BB src(Span<const uint8_t>(st.data(), st.size()), n, al); BB copy(src); expectIs(src, m); return copy; }
    case 6: { BB src(Span<const uint8_t>(st.data(), st.size()), n, al); BB t(g.size(50)); t = src; expectIs(src, m); return t; }
    case 7: { BB src(Span<const uint8_t>(st.data(), st.size()), n, al); BB t(g.size(50)); t = std::move(src); return t; }
    default:
    {
        BB src(Span<const uint8_t>(st.data(), st.size()), n);
        if (g.flip()) { BB r(src, al); expectIs(src, m); return r; }
        return BB(std::move(src), al);
    }
    }
}
template <class BB, class ALLOC>
void laws(pbt::Gen& g, const ALLOC& al)
{
    Model ma = genModel(g), mb = vary(g, ma), mc = g.flip() ? vary(g, mb) : genModel(g);
    BB a = build<BB>(g, ma, al), b = build<BB>(g, mb, al), c = build<BB>(g, mc, al);
    g.nontrivial(!ma.bits.empty() && ma.bits.size() % 8 != 0);
    if (g.noting()) g.note("sizes " + std::to_string(ma.bits.size()) + "," + std::to_string(mb.bits.size()) + "," + std::to_string(mc.bits.size()));
    expectIs(a, ma);
    expectIs(b, mb);
    expectIs(c, mc);
    const BB* v[3] = {&a, &b, &c};
    const Model* m[3] = {&ma, &mb, &mc};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            bool eq = *m[i] == *m[j], lt = *m[i] < *m[j], gt = *m[j] < *m[i];
            CHECKM((*v[i] == *v[j]) == eq, "== " << i << j);
            CHECKM((*v[i] != *v[j]) == !eq, "!= " << i << j);
            CHECKM((*v[i] < *v[j]) == lt, "< " << i << j << " sizes " << m[i]->bits.size() << "," << m[j]->bits.size());
            CHECKM((*v[i] > *v[j]) == gt, "> " << i << j);
            CHECKM((*v[i] <= *v[j]) == !gt, "<= " << i << j);
            CHECKM((*v[i] >= *v[j]) == !lt, ">= " << i << j);
            if (eq)
            {
                CHECK_EQ(v[i]->hashCode(), v[j]->hashCode());
                CHECK_EQ(std::hash<BB>{}(*v[i]), std::hash<BB>{}(*v[j]));
            }
            using View = BasicBitBufferView<ALLOC>;
            View x(*v[i]), y(*v[j]);
            CHECKM((x == y) == eq && (x != y) == !eq && (x < y) == lt && (x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "views " << i << j);
            CHECK_EQ(std::hash<View>{}(x), std::hash<BB>{}(*v[i]));
        }
    // hash ignores padding but the same bits with another allocator hash equally
    BitBuffer plain(Span<const uint8_t>(a.getData().data(), a.getData().size()), a.getBitSize());
    CHECK_EQ(plain.hashCode(), a.hashCode());
    // a change of a single declared bit is visible to == (and almost surely to the hash): mutate in place
    if (!ma.bits.empty())
    {
        size_t i = g.below(ma.bits.size());
        BB d(a);
        d.getBuffer()[i / 8] = static_cast<uint8_t>(d.getBuffer()[i / 8] ^ (0x80 >> (i % 8)));
        CHECK(!(d == a) && d != a && (d < a) != (a < d));
        CHECKM(d.hashCode() != a.hashCode(), "hash does not depend on bit " << i << " of " << ma.bits.size());
        CHECK(a == a && !(a < a));
    }
    // padding change is invisible
    if (ma.bits.size() % 8 != 0)
    {
        BB d(a);
        d.getBuffer()[ma.bits.size() / 8] = static_cast<uint8_t>(d.getBuffer()[ma.bits.size() / 8] ^ (0xFF >> (ma.bits.size() % 8)));
        CHECK(d == a && !(d < a) && !(a < d) && d.hashCode() == a.hashCode());
        // serialized form is identical too
        std::vector<uint8_t> o1(a.getByteSize() + 12, 0), o2(o1);
        size_t off = g.draw(9);
        BitStreamWriter w1(o1.data(), o1.size()), w2(o2.data(), o2.size());
        w1.setBitPosition(off);
        w2.setBitPosition(off);
        w1.writeBitBuffer(a);
        w2.writeBitBuffer(d);
        CHECK(o1 == o2);
        CHECK_EQ(w1.getBitPosition(), off + detail::bitSizeOf(BasicBitBufferView<ALLOC>(a), 0));
        BitStreamReader r(o1.data(), o1.size());
        r.setBitPosition(off);
        BB back = r.readBitBuffer(al);
        CHECK(back == a && back == d);
        CHECK_EQ(back.hashCode(), a.hashCode());
        expectIs(back, ma);
        CHECK_EQ(r.getBitPosition(), w1.getBitPosition());
    }
    // swap through moves, self assignment
    BB t(std::move(a));
    expectIs(t, ma);
    a = b;
    expectIs(a, mb);
    BB& self = t;
    t = self;
    expectIs(t, ma);
    CHECK(a == b);
}
// allocations fail on demand
struct Failing : std::pmr::memory_resource
{
    long long left = -1;
    void* do_allocate(size_t n, size_t a) override
    {
        if (left == 0) throw std::bad_alloc();
        if (left > 0) --left;
        return std::pmr::new_delete_resource()->allocate(n, a);
    }
    void do_deallocate(void* p, size_t n, size_t a) override { std::pmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

// histories over three buffers which also use moved-from ones and ones whose assignment failed: their content is
// unspecified, but they must stay valid buffers
template <class BB, class ALLOC>
void histories(pbt::Gen& g, const ALLOC (&als)[2], Failing* fail = nullptr)
{
    std::vector<BB> v;
    std::optional<Model> m[3];
    for (size_t i = 0; i < 3; ++i)
    {
        m[i] = genModel(g);
        v.push_back(build<BB>(g, *m[i], als[g.draw(1)]));
    }
    // a history with vectors of spare capacity moves none of the buffers
    auto valid = [&](size_t i) {
        const BB& b = v[i];
        if (m[i]) { expectIs(b, *m[i]); return; }
        CHECKM(b.getByteSize() <= b.getData().size(), "a moved-from buffer declares " << b.getBitSize() << " bits, its storage has " << b.getData().size() << " bytes");
        CHECKM((b.getBitSize() + 7) / 8 <= b.getBytes().size(), "a moved-from buffer declares " << b.getBitSize() << " bits, its storage has " << b.getBytes().size() << " bytes");
        // what it holds now is a normal buffer
        Model now;
        for (size_t k = 0; k < b.getBitSize(); ++k) now.bits.push_back(static_cast<uint8_t>(ref::bitAt(b.getData().data(), k)));
        m[i] = now;
    };
    const size_t steps = 2 + g.size(12);
    bool used = false;
    for (size_t st = 0; st < steps; ++st)
    {
        size_t i = g.below(3), j = g.below(3);
        const int op = static_cast<int>(g.draw(fail ? 9 : 7));
        if (g.noting()) g.note("op" + std::to_string(op) + " " + std::to_string(i) + "," + std::to_string(j));
        switch (op)
        {
        case 0: m[i] = genModel(g); v[i] = build<BB>(g, *m[i], als[g.draw(1)]); break;
        case 1: v[i] = static_cast<const BB&>(v[j]); m[i] = m[j]; break;
        case 2:
        {
            BB& src = v[j];
            v[i] = std::move(src);
            m[i] = m[j];
            m[j].reset();
            used = true;
            break;
        }
        case 3: { BB t(std::move(v[i])); expectIs(t, *m[i]); m[i].reset(); used = true; break; }
        case 4: { BB t(std::move(v[i]), als[g.draw(1)]); expectIs(t, *m[i]); m[i].reset(); used = true; break; }
        case 5: std::swap(v[i], v[j]); std::swap(m[i], m[j]); break;
        case 6: { BB t(v[i]); expectIs(t, *m[i]); break; }
        case 8:
        case 9: // an assignment which runs out of memory
        {
            bool done = false;
            for (int f = 0; f < 2; ++f) fail[f].left = 0;
            try
            {
                if (op == 8) v[i] = static_cast<const BB&>(v[j]);
                else v[i] = std::move(v[j]);
                done = true;
            }
            catch (const std::bad_alloc&) { used = true; }
            for (int f = 0; f < 2; ++f) fail[f].left = -1;
            if (i == j && op == 8) { CHECK(done); break; }
            if (done) m[i] = m[j];
            else m[i].reset();
            if (op == 9) m[j].reset();
            break;
        }
        default:
        {
            std::vector<uint8_t> o(v[i].getByteSize() + 8);
            BitStreamWriter w(o.data(), o.size());
            w.writeBitBuffer(v[i]);
            BitStreamReader r(o.data(), o.size());
            CHECK(r.readBitBuffer(als[0]) == v[i]);
        }
        }
        for (size_t k = 0; k < 3; ++k) valid(k);
        CHECK_EQ(v[i] == v[j], *m[i] == *m[j]);
        CHECK_EQ(v[i] < v[j], *m[i] < *m[j]);
        if (*m[i] == *m[j]) CHECK_EQ(v[i].hashCode(), v[j].hashCode());
    }
    g.nontrivial(used && steps >= 3);
}
} // namespace

SUBCHECK(histories, 100000, 4000000, "assign/copy/move/swap/write histories over 3 buffers, moved-from ones and ones whose assignment ran out of memory are used further; non-trivial: a move or failure within at least 3 steps")
{
    switch (g.draw(2))
    {
    case 0: { const std::allocator<uint8_t> als[2]; histories<BitBuffer>(g, als); break; }
    case 1:
    {
        Failing r[2];
        const std::pmr::polymorphic_allocator<uint8_t> als[2] = {&r[0], &r[1]};
        histories<pmr::BitBuffer>(g, als, r);
        break;
    }
    default:
    {
        Failing r[2];
        const ppmr::PropagatingPolymorphicAllocator<uint8_t> als[2] = {&r[0], &r[1]};
        histories<ppmr::BitBuffer>(g, als, r);
    }
    }
}
SUBCHECK(laws_std, 500000, 12000000, "triples of near-equal bit sequences in storages with random padding built by random construction paths; compared with lexicographic bit sequences; non-trivial: size not a multiple of 8")
{
    laws<BitBuffer>(g, std::allocator<uint8_t>());
}
SUBCHECK(laws_pmr, 250000, 6000000, "same with polymorphic allocators")
{
    std::pmr::monotonic_buffer_resource res;
    if (g.flip()) laws<pmr::BitBuffer>(g, std::pmr::polymorphic_allocator<uint8_t>(&res));
    else laws<ppmr::BitBuffer>(g, ppmr::PropagatingPolymorphicAllocator<uint8_t>(&res));
}
SUBCHECK(size_check, 300000, 6000000, "storage of n bytes with claimed bit size: accepted exactly if it fits; non-trivial: within 9 bits of the limit or near the integer maximum")
{
    size_t bytes = g.size(24);
    std::vector<uint8_t> st(bytes, 0xAA);
    size_t bits = g.chance(1, 6) ? SIZE_MAX - g.draw(20) : (g.flip() ? g.edge(220) : bytes * 8 + g.draw(18) - std::min<size_t>(bytes * 8, g.draw(18)));
    g.nontrivial(bits > SIZE_MAX - 30 || (bits + 9 >= bytes * 8 && bits <= bytes * 8 + 9));
    g.note(std::to_string(bytes) + " bytes, " + std::to_string(bits) + " bits");
    bool fits = bits <= bytes * 8;
    bool viaVector = g.flip();
    auto mk = [&] {
        if (viaVector) { std::vector<uint8_t> v(st); return BitBuffer(std::move(v), bits); }
        return BitBuffer(Span<const uint8_t>(st.data(), st.size()), bits);
    };
    if (!fits) { CHECK_THROWS(CppRuntimeException, mk()); return; }
    BitBuffer b = mk();
    CHECK_EQ(b.getBitSize(), bits);
    CHECK(b == b);
    BitBuffer c(b);
    CHECK(b == c && b.hashCode() == c.hashCode());
}
