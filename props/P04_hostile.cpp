#include <memory_resource>
#include "arrcase.h"
#include "schema.h"
#include "streamops.h"
#include "testobj.h"
#include "zserio/SerializeUtil.h"

// every array of packed elements may legitimately denote far more elements than it has bits: stop such cases early
static bool g_capped = false;
static size_t g_requested = 0;
struct TooMuch : std::bad_alloc
{};
void* operator new(size_t n)
{
    if (g_capped && (n > (64U << 20) || (g_requested += n) > (64U << 20))) { g_capped = false; throw TooMuch(); }
    if (void* p = malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

using namespace zserio;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;

namespace
{
// thrown by the counting resource when far more memory is requested than the input can justify
struct Budget : std::bad_alloc
{};
struct CappedResource : std::pmr::memory_resource
{
    size_t live = 0, peak = 0, cap;
    explicit CappedResource(size_t c) : cap(c) {}
    void* do_allocate(size_t n, size_t a) override
    {
        if (n > cap || live + n > cap) throw Budget();
        live += n;
        peak = std::max(peak, live);
        return std::pmr::new_delete_resource()->allocate(n, a);
    }
    void do_deallocate(void* p, size_t n, size_t a) override
    {
        live -= n;
        std::pmr::new_delete_resource()->deallocate(p, n, a);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
// reference decoding of one operation: 0 = must fail, 1 = value; advances pos
struct Dec
{
    const std::vector<uint8_t>& d;
    size_t bits, pos;
    bool bad = false;
    uint64_t get(unsigned n)
    {
        if (bad || n > bits - pos) { bad = true; return 0; }
        uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i) v = (v << 1) | static_cast<unsigned>(ref::bitAt(d.data(), pos + i));
        pos += n;
        return v;
    }
    // magnitude, sign
    std::pair<uint64_t, bool> var(const ref::VarSpec& s, unsigned* used = nullptr)
    {
        uint64_t m = 0;
        bool neg = false;
        for (unsigned i = 0; i < s.maxBytes; ++i)
        {
            uint64_t byte = get(8);
            if (bad) return {0, false};
            unsigned w = 8;
            if (s.isSigned && i == 0) { neg = byte >> 7; --w; }
            bool next = false;
            if (i != s.maxBytes - 1) { --w; next = (byte >> w) & 1; }
            m = (m << w) | (byte & ((1u << w) - 1));
            if (used) *used = i + 1;
            if (!next) break;
        }
        return {m, neg};
    }
    int64_t varS(const ref::VarSpec& s)
    {
        unsigned used = 0;
        auto [m, neg] = var(s, &used);
        if (s.maxBytes == 9 && neg && m == 0 && used == 1) return INT64_MIN;
        return neg ? static_cast<int64_t>(0 - m) : static_cast<int64_t>(m);
    }
    uint64_t size()
    {
        uint64_t v = var(ref::VARSIZE).first;
        if (v > 0x7FFFFFFF) bad = true;
        return v;
    }
};
std::vector<uint8_t> hostile(pbt::Gen& g, size_t max)
{
    std::vector<uint8_t> v(g.size(max));
    unsigned style = static_cast<unsigned>(g.below(4));
    for (auto& c : v)
        c = style == 0 ? static_cast<uint8_t>(g.below(256)) : style == 1 ? static_cast<uint8_t>(g.ubits(8)) : style == 2 ? g.pick<uint8_t>({0, 0xFF, 0x80, 0x7F, 1, 0x40, 0xC0}) : static_cast<uint8_t>(g.below(12));
    return v;
}
// runs one read; true if it returned, false if it ended with a library error
template <class F>
bool attempt(F&& f)
{
    try { f(); return true; }
    catch (const CppRuntimeException&) { return false; }
    // anything else propagates and is a failure
}
// mutates a valid encoding
void mutate(pbt::Gen& g, std::vector<uint8_t>& v, size_t& bits)
{
    size_t n = 1 + g.below(4);
    for (size_t k = 0; k < n; ++k)
    {
        switch (g.below(6))
        {
        case 0: if (bits) { size_t i = g.below(bits); v[i / 8] = static_cast<uint8_t>(v[i / 8] ^ (0x80 >> (i % 8))); } break;
        case 1: if (bits) { bits = g.below(bits + 1); v.resize((bits + 7) / 8); } break;
        case 2: if (!v.empty()) v[g.below(v.size())] = g.pick<uint8_t>({0xFF, 0x00, 0x80, 0x7F}); break;
        case 3: if (!v.empty()) { size_t i = g.below(v.size()); v.insert(v.begin() + static_cast<ptrdiff_t>(i), static_cast<uint8_t>(g.ubits(8))); bits += 8; } break;
        case 4: if (v.size() > 1 && bits >= 8) { size_t i = g.below(v.size() - 1); v.erase(v.begin() + static_cast<ptrdiff_t>(i)); bits -= 8; v.resize((bits + 7) / 8); } break;
        default: if (!v.empty()) { size_t i = g.below(v.size()), j = g.below(v.size()), l = g.below(std::min<size_t>(16, v.size() - std::max(i, j)) + 1); std::vector<uint8_t> t(v.begin() + static_cast<ptrdiff_t>(j), v.begin() + static_cast<ptrdiff_t>(j + l)); std::copy(t.begin(), t.end(), v.begin() + static_cast<ptrdiff_t>(i)); }
        }
    }
}
} // namespace

SUBCHECK(stream_reads, 500000, 12000000,
        "any sequence of primitive reads, alignments and seeks over arbitrary bytes and declared bit sizes, continuing after failed reads; every result compared with a reference decoder; non-trivial: at least one successful and one failed read")
{
    std::vector<uint8_t> v = hostile(g, g.chance(1, 20) ? 400 : 40);
    size_t cut = g.chance(1, 2) ? g.below(8) : 0;
    size_t bits = v.size() * 8 - std::min(cut, v.size() * 8);
    ref::ExactBuf buf(v);
    std::unique_ptr<BitStreamReader> rp;
    BitBuffer bb;
    switch (g.below(bits == v.size() * 8 ? 4 : 3))
    {
    case 0: rp = std::make_unique<BitStreamReader>(buf.data(), bits, BitsTag()); break;
    case 1: rp = std::make_unique<BitStreamReader>(Span<const uint8_t>(buf.data(), buf.n), bits); break;
    case 2:
        bb = BitBuffer(Span<const uint8_t>(buf.data(), buf.n), bits);
        rp = std::make_unique<BitStreamReader>(bb);
        break;
    default: rp = std::make_unique<BitStreamReader>(buf.data(), buf.n); break;
    }
    BitStreamReader& r = *rp;
    bool ok = false, failed = false;
    size_t n = 1 + g.below(16);
    g.note(std::to_string(bits) + " bits " + pbt::hex(v));
    for (size_t i = 0; i < n; ++i)
    {
        size_t pos = r.getBitPosition();
        CHECKM(pos <= bits, "position " << pos << " of " << bits);
        if (g.chance(1, 6))
        {
            size_t to = g.edge(bits + 9);
            bool fits = to <= bits;
            g.note("seek " + std::to_string(to));
            CHECK_EQ(attempt([&]() { r.setBitPosition(to); }), fits);
            CHECK_EQ(r.getBitPosition(), fits ? to : pos);
            (fits ? ok : failed) = true;
            continue;
        }
        ops::Op o = ops::genOp(g, 4);
        g.note(ops::kindName(o.kind) + std::string(":") + std::to_string(o.bits));
        Dec d{v, bits, pos};
        bool good = true;
        using ops::Kind;
        auto num = [&](auto expected, auto&& read) {
            decltype(expected) got{};
            bool res = attempt([&]() { got = read(); });
            CHECKM(res == !d.bad, "read " << (res ? "succeeded" : "failed") << " unlike the reference");
            if (res) CHECK_EQ(got, expected);
            good = res;
        };
        uint8_t nb = static_cast<uint8_t>(o.bits);
        auto sext = [](uint64_t x, unsigned w) { return w == 64 ? static_cast<int64_t>(x) : static_cast<int64_t>(x << (64 - w)) >> (64 - w); };
        switch (o.kind)
        {
        case ops::U32: num(static_cast<uint32_t>(d.get(nb)), [&] { return r.readUnsignedBits32(nb); }); break;
        case ops::S32: num(static_cast<int32_t>(sext(d.get(nb), nb)), [&] { return r.readSignedBits32(nb); }); break;
        case ops::U64: num(d.get(nb), [&] { return r.readUnsignedBits64(nb); }); break;
        case ops::S64: num(sext(d.get(nb), nb), [&] { return r.readSignedBits64(nb); }); break;
        case ops::BOOL: num(d.get(1) != 0, [&] { return static_cast<bool>(r.readBool()); }); break;
        case ops::VI16: num(d.varS(ref::VARINT16), [&] { return static_cast<int64_t>(r.readVarInt16()); }); break;
        case ops::VI32: num(d.varS(ref::VARINT32), [&] { return static_cast<int64_t>(r.readVarInt32()); }); break;
        case ops::VI64: num(d.varS(ref::VARINT64), [&] { return static_cast<int64_t>(r.readVarInt64()); }); break;
        case ops::VI: num(d.varS(ref::VARINT), [&] { return static_cast<int64_t>(r.readVarInt()); }); break;
        case ops::VU16: num(d.var(ref::VARUINT16).first, [&] { return static_cast<uint64_t>(r.readVarUInt16()); }); break;
        case ops::VU32: num(d.var(ref::VARUINT32).first, [&] { return static_cast<uint64_t>(r.readVarUInt32()); }); break;
        case ops::VU64: num(d.var(ref::VARUINT64).first, [&] { return static_cast<uint64_t>(r.readVarUInt64()); }); break;
        case ops::VU: num(d.var(ref::VARUINT).first, [&] { return static_cast<uint64_t>(r.readVarUInt()); }); break;
        case ops::VSIZE: num(d.size(), [&] { return static_cast<uint64_t>(r.readVarSize()); }); break;
        case ops::F16:
        {
            uint64_t u = d.get(16);
            float f = 0;
            bool res = attempt([&]() { f = r.readFloat16(); });
            CHECK_EQ(res, !d.bad);
            double e = ref::halfToDouble(static_cast<uint16_t>(u));
            if (res) CHECK((f != f && e != e) || (static_cast<double>(f) == e && std::signbit(f) == std::signbit(e)));
            good = res;
            break;
        }
        case ops::F32: num(static_cast<uint32_t>(d.get(32)), [&] { return ref::f2u(r.readFloat32()); }); break;
        case ops::F64: num(d.get(64), [&] { return ref::d2u(r.readFloat64()); }); break;
        case ops::BYTES:
        case ops::STRING:
        {
            uint64_t len = d.size();
            if (!d.bad && len * 8 > bits - d.pos) d.bad = true;
            std::string e, got;
            if (!d.bad) for (uint64_t k = 0; k < len; ++k) e.push_back(static_cast<char>(d.get(8)));
            pbt::MemScope mem;
            bool res = attempt([&]() {
                if (o.kind == ops::BYTES) { auto b = r.readBytes(); got.assign(b.begin(), b.end()); }
                else got = std::string(r.readString());
            });
            CHECKM(mem.maxSingle() <= 4096 + 2 * v.size(), "allocated " << mem.maxSingle());
            CHECK_EQ(res, !d.bad);
            if (res) CHECK_EQ(got, e);
            good = res;
            break;
        }
        case ops::BITBUF:
        {
            uint64_t len = d.size();
            if (!d.bad && len > bits - d.pos) d.bad = true;
            size_t at = d.pos;
            pbt::MemScope mem;
            bool res = attempt([&]() {
                auto b = r.readBitBuffer();
                if (d.bad) return;
                CHECK_EQ(b.getBitSize(), len);
                for (size_t k = 0; k < len; ++k) CHECK(ref::bitAt(b.getBuffer(), k) == ref::bitAt(v.data(), at + k));
            });
            CHECKM(mem.maxSingle() <= 4096 + 2 * v.size(), "allocated " << mem.maxSingle());
            CHECK_EQ(res, !d.bad);
            if (res) d.pos += len;
            good = res;
            break;
        }
        case ops::ALIGN:
        {
            size_t to = (pos + nb - 1) / std::max<size_t>(nb, 1) * nb;
            if (o.bits > 255 || nb == 0) continue;
            if (to > bits) d.bad = true;
            else d.pos = to;
            bool res = attempt([&]() { r.alignTo(nb); });
            CHECK_EQ(res, !d.bad);
            good = res;
            break;
        }
        default: continue;
        }
        if (good) CHECK_EQ(r.getBitPosition(), d.pos);
        (good ? ok : failed) = true;
    }
    CHECK(r.getBitPosition() <= bits);
    g.nontrivial(ok && failed);
}

// whatever the length, reading an array ends in a library error or exactly its elements
SUBCHECK(array_reads, 120000, 3000000,
        "arrays of every element type and kind (packed or not) read from arbitrary or damaged bytes with arbitrary claimed lengths (also huge ones); memory bounded by input and preallocation; same result whatever follows the declared bits; non-trivial: damaged valid encoding or huge length")
{
    el::ArrCase c = el::genCase(g, -1, -1, 12);
    size_t start = g.below(9);
    std::vector<uint8_t> v;
    size_t bits = 0;
    bool mutated = g.chance(2, 3);
    if (mutated)
    {
        ref::Bits b;
        for (size_t i = 0; i < start; ++i) b.put(0, 1);
        auto e = c.expected(start);
        ref::append(b, e);
        bits = b.size();
        v = b.bytes(static_cast<uint8_t>(g.ubits(8)));
        if (g.chance(5, 6)) mutate(g, v, bits);
    }
    else
    {
        v = hostile(g, 60);
        bits = v.size() * 8 - std::min<size_t>(g.below(8), v.size() * 8);
    }
    if (start > bits) start = bits;
    size_t len = c.n;
    bool huge = false;
    switch (g.below(5))
    {
    case 0: len = g.below(40); break;
    case 1: len = static_cast<size_t>(g.edge(UINT64_MAX)); huge = len > 1000; break;
    case 2: len = (static_cast<size_t>(1) << g.below(64)) + g.below(3) - 1; huge = len > 1000; break;
    default: break;
    }
    const bool lenUsed = c.kind == el::NORMAL || c.kind == el::ALIGNED;
    Dec d{v, bits, start};
    if (!lenUsed && c.kind != el::IMPLICIT) len = d.size();
    // packed elements may legitimately need no bits at all: keep those cases small
    if (c.packed && len > 20000) { if (lenUsed) len = 20000; else if (!d.bad) throw pbt::Discard(); }
    g.note("start " + std::to_string(start) + " of " + std::to_string(bits) + " len " + std::to_string(len) + " " + pbt::hex(v));
    g.nontrivial(mutated || (huge && lenUsed));
    size_t prealloc = g.chance(1, 3) ? g.edge(4096) : 128 * 1024;
    bool first = false;
    size_t firstPos = 0, firstSize = 0;
    for (int run = 0; run < 2; ++run)
    {
        // the bits behind the declared ones differ between the runs
        std::vector<uint8_t> w(v);
        if (run == 1)
        {
            if (bits % 8) w[bits / 8] = static_cast<uint8_t>(w[bits / 8] ^ (0xFF >> (bits % 8)));
            w.insert(w.end(), 9, 0xA5);
        }
        ref::ExactBuf buf(w);
        BitStreamReader r(Span<const uint8_t>(buf.data(), buf.n), bits, ArrayPreallocation(prealloc));
        r.setBitPosition(start);
        c.prefill(0);
        pbt::MemScope mem;
        bool res = false, tooMuch = false;
        g_requested = 0;
        g_capped = true;
        try { res = attempt([&]() { c.read(r, len); }); }
        catch (const TooMuch&) { tooMuch = true; }
        g_capped = false;
        size_t peak = mem.peakBytes();
        if (tooMuch && (c.packed || c.nestedPacked)) throw pbt::Discard();
        CHECKM(!tooMuch, "more than 64 MB requested for " << bits << " bits");
        if (c.nestedPacked) CHECK(peak <= (64U << 20));
        else if (!c.packed || !c.packable)
        {
            size_t elems = bits; // every element takes at least one bit
            CHECKM(peak <= 8192 + 2 * prealloc + 3 * (elems + 8) * (c.sizeofT + 64), "peak " << peak << " for " << bits << " bits");
        }
        else CHECKM(peak <= 16384 + 4 * prealloc + 3 * (20000 + bits) * (c.sizeofT + 64), "peak " << peak);
        CHECK(r.getBitPosition() <= bits);
        if (res && lenUsed) CHECK_EQ(c.backSize(), len);
        if (res && (c.kind == el::AUTO || c.kind == el::ALIGNED_AUTO)) { CHECK(!d.bad); CHECK_EQ(c.backSize(), len); }
        if (c.kind == el::IMPLICIT && res) CHECK_EQ(c.backSize(), (bits - start) / c.elemBits);
        if (run == 0) { first = res; firstPos = r.getBitPosition(); firstSize = c.backSize(); }
        else
        {
            CHECK_EQ(res, first);
            if (res) { CHECK_EQ(r.getBitPosition(), firstPos); CHECK_EQ(c.backSize(), firstSize); }
        }
    }
}

// a packed array which claims many elements but whose data ends early must fail without memory for the claimed length
SUBCHECK(packed_claimed_length, 40000, 600000,
        "packed arrays of every packable element type with a huge claimed length (given by the caller or encoded) and data which cannot hold it; decoding must fail and the memory stays bounded by input and preallocation; non-trivial: claimed length above 2^20")
{
    el::ArrCase c = el::genCase(g, 1, -1, 4);
    if (!c.packable || c.nestedPacked) throw pbt::Discard();
    const bool lenUsed = c.kind == el::NORMAL || c.kind == el::ALIGNED;
    const size_t limit = lenUsed ? SIZE_MAX : 0x7FFFFFFFU;
    size_t len = std::min<size_t>(limit, g.flip() ? (size_t{1} << g.range(13, 63)) + g.below(3) - 1 : static_cast<size_t>(g.edge(limit)));
    if (len < 5000) throw pbt::Discard();
    ref::Bits b;
    const size_t start = g.below(9);
    for (size_t i = 0; i < start; ++i) b.put(g.ubits(1), 1);
    if (!lenUsed)
    {
        // encode the length as varsize
        unsigned n = 1;
        while (n < 5 && (len >> (7 * n)) != 0) ++n;
        for (unsigned i = 0; i < n; ++i)
        {
            if (n == 5) b.put(i == 4 ? (len & 0xFF) : (0x80 | ((len >> (8 + 7 * (3 - i))) & 0x7F)), 8);
            else b.put(((len >> (7 * (n - 1 - i))) & 0x7F) | (i + 1 < n ? 0x80 : 0), 8);
        }
    }
    if (c.kind == el::ALIGNED || c.kind == el::ALIGNED_AUTO) while (b.size() % 8) b.put(0, 1);
    if (g.flip()) b.put(0, 1); // not packed
    else { b.put(1, 1); b.put(g.range(1, 63), 6); }
    for (size_t i = 0, n = g.below(300); i < n; ++i) b.put(g.ubits(8), 8);
    const auto v = b.bytes(0);
    const size_t bits = b.size();
    g.note("start " + std::to_string(start) + " len " + std::to_string(len) + " " + pbt::hex(v));
    g.nontrivial(len > (size_t{1} << 20));
    const size_t prealloc = g.chance(1, 2) ? g.edge(4096) : 128 * 1024;
    ref::ExactBuf buf(v);
    BitStreamReader r(Span<const uint8_t>(buf.data(), buf.n), bits, ArrayPreallocation(prealloc));
    r.setBitPosition(start);
    c.prefill(0);
    pbt::MemScope mem;
    bool res = false, tooMuch = false;
    g_requested = 0;
    g_capped = true;
    try { res = attempt([&]() { c.read(r, len); }); }
    catch (const TooMuch&) { tooMuch = true; }
    g_capped = false;
    const size_t peak = mem.peakBytes();
    CHECKM(!tooMuch, "more than 64 MB requested for " << bits << " bits");
    CHECKM(!res, "a packed array of " << len << " elements was read from " << bits << " bits");
    CHECKM(peak <= 16384 + 2 * prealloc + 3 * (bits + 8) * (c.sizeofT + 64), "peak " << peak << " for " << bits << " bits, preallocation " << prealloc);
    CHECK(r.getBitPosition() <= bits);
}

namespace
{
// reads T from (possibly) damaged bits: result must be a library error or an object consumed from inside the bits
template <class T, class... P>
void objectRead(pbt::Gen& g, const std::vector<uint8_t>& v, size_t bits, bool strict, P... params)
{
    size_t cap = 1 << 20;
    if (strict) cap = 4096 + 4 * 128 * 1024 + bits * 300;
    bool results[2] = {false, false};
    std::vector<uint8_t> again[2];
    size_t pos[2] = {0, 0};
    for (int run = 0; run < 2; ++run)
    {
        std::vector<uint8_t> w(v);
        if (run == 1 && bits % 8) w[bits / 8] = static_cast<uint8_t>(w[bits / 8] ^ (0xFF >> (bits % 8)));
        if (run == 1) w.insert(w.end(), 9, 0x5A);
        ref::ExactBuf buf(w);
        CappedResource res(cap);
        PmrA alloc(&res);
        try
        {
            T back(alloc);
            BitStreamReader r(Span<const uint8_t>(buf.data(), buf.n), bits);
            results[run] = attempt([&]() {
                auto view = detail::read(r, back, params...);
                pos[run] = r.getBitPosition();
                CHECK(pos[run] <= bits);
                // the decoded object is a proper value
                CHECK(back == back || true);
                // serializing it again either is refused or yields an equal object
                bool okAgain = attempt([&]() {
                    auto b = zserio::serializeToBytes(view, PmrA());
                    again[run].assign(b.begin(), b.end());
                });
                if (okAgain)
                {
                    T back2(alloc);
                    BitStreamReader r2(Span<const uint8_t>(again[run].data(), again[run].size()));
                    auto view2 = detail::read(r2, back2, params...);
                    auto b2 = zserio::serializeToBytes(view2, PmrA());
                    CHECK_EQ(pbt::hex(b2.data(), b2.size(), 4000), pbt::hex(again[run].data(), again[run].size(), 4000));
                }
                g.note(okAgain ? "decoded and valid" : "decoded");
            });
        }
        catch (const Budget&)
        {
            CHECKM(!strict, "decoding " << bits << " bits requested more than " << cap << " bytes");
            throw pbt::Discard();
        }
        CHECK_EQ(res.live, 0U);
    }
    CHECK_EQM(results[0], results[1], "depends on bits behind the declared ones");
    CHECK_EQ(pos[0], pos[1]);
    CHECK(again[0] == again[1]);
}
template <class T, class... P>
void objectCase(pbt::Gen& g, T& data, bool strict, P... params)
{
    std::vector<uint8_t> v;
    size_t bits = 0;
    if (g.chance(7, 8))
    {
        BasicBitBuffer<PmrA> b = zserio::serialize(data, PmrA(), params...);
        bits = b.getBitSize();
        v.assign(b.getBuffer(), b.getBuffer() + b.getByteSize());
        mutate(g, v, bits);
        g.nontrivial();
    }
    else
    {
        v = hostile(g, 120);
        bits = v.size() * 8 - std::min<size_t>(g.below(8), v.size() * 8);
    }
    if (g.noting()) g.note(std::to_string(bits) + " bits " + pbt::hex(v));
    objectRead<T>(g, v, bits, strict, params...);
}
} // namespace

SUBCHECK(schema_objects, 25000, 800000,
        "modelled schema objects (optionals, choice, union, packed and indexed arrays, extended fields, externs) read from damaged encodings or arbitrary bytes through a capped memory resource; non-trivial: damaged valid encoding")
{
    uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
    PmrA a;
    if (g.chance(3, 4))
    {
        sch::Main<PmrA> d = sch::genMain<PmrA>(g, p, a);
        (void)detail::initializeOffsets(View<sch::Main<PmrA>>(d, UInt8(p)), 0);
        objectCase(g, d, false, UInt8(p));
    }
    else
    {
        sch::Inner<PmrA> d = sch::genInner<PmrA>(g, p, a, 0);
        objectCase(g, d, false, UInt8(p));
    }
}
SUBCHECK(sample_objects, 40000, 1200000,
        "sample generated types read from damaged encodings or arbitrary bytes; memory strictly bounded by input size and preallocation; non-trivial: damaged valid encoding")
{
    PmrA a;
    using N = to::Pmr;
    switch (g.below(6))
    {
    case 0: { auto d = to::genCObj<N>(g, a); objectCase(g, d, true); break; }
    case 1: { auto d = to::genWObj<N>(g, a); objectCase(g, d, true); break; }
    case 2: { auto d = to::genWUni<N>(g, a); objectCase(g, d, true); break; }
    case 3: { auto d = to::genRObj<N>(g, a); objectCase(g, d, true); break; }
    case 4: { auto d = to::genUUni<N>(g, a); objectCase(g, d, true); break; }
    default: { auto d = to::genCNest<N>(g, a); objectCase(g, d, true, UInt32(static_cast<uint32_t>(g.ubits(32)))); break; }
    }
}
SUBCHECK(construction, 60000, 600000,
        "reader and writer over spans of any claimed byte and bit size (nothing is read): accepted exactly when the bits are within the bytes, reads never pass the limit; non-trivial: the sizes disagree or the limit is inside a byte")
{
    uint8_t some[40];
    for (auto& b : some) b = static_cast<uint8_t>(g.ubits(8));
    const size_t limit = std::numeric_limits<size_t>::max() / 8;
    const bool huge = g.chance(1, 4);
    size_t bytes = g.below(sizeof(some) + 1);
    if (huge)
    {
        bytes = g.pick({limit + 1, limit + 2, limit * 2 + 1, limit * 2 + 3, std::numeric_limits<size_t>::max(), limit - 64, limit / 2, size_t(1) << 61, (size_t(1) << 61) + 5, size_t(1) << 62, size_t(1) << 63});
    }
    const bool representable = bytes <= limit;
    const size_t whole = representable ? bytes * 8 : std::numeric_limits<size_t>::max();
    size_t bits = g.chance(1, 3) ? whole : g.flip() ? g.below(sizeof(some) * 8 + 20) : representable ? whole + g.below(40) : g.ubits(64);
    if (huge && representable && g.flip()) bits = g.pick({whole - 1, whole, whole + 1, std::numeric_limits<size_t>::max()});
    g.note("bytes " + std::to_string(bytes) + " bits " + std::to_string(bits));
    g.nontrivial(bits != whole || huge);
    const Span<const uint8_t> span(some, bytes);
    const bool fits = representable && bits <= whole;
    size_t got = 0;
    auto made = [&](auto f) {
        try { f(); return true; }
        catch (const CppRuntimeException&) { return false; }
    };
    CHECK_EQM(made([&] { got = BitStreamReader(span).getBufferBitSize(); }), representable, "reader of " << bytes << " bytes");
    if (representable) CHECK_EQ(got, whole);
    CHECK_EQM(made([&] { got = BitStreamReader(some, bytes).getBufferBitSize(); }), representable, "reader of " << bytes << " bytes");
    if (representable) CHECK_EQ(got, whole);
    CHECK_EQM(made([&] { got = BitStreamReader(span, bits).getBufferBitSize(); }), fits, "reader of " << bytes << " bytes, " << bits << " bits");
    if (fits) CHECK_EQ(got, bits);
    if (huge) return;
    uint8_t target[40] = {};
    CHECK_EQM(made([&] { got = BitStreamWriter(Span<uint8_t>(target, bytes), bits).getBufferBitSize(); }), fits, "writer of " << bytes << " bytes, " << bits << " bits");
    if (!fits) return;
    CHECK_EQ(got, bits);
    // a sequence of reads ends exactly at the declared bit, never later
    ref::ExactBuf exact(bytes, 0);
    std::copy(some, some + bytes, exact.data());
    BitStreamReader reader(Span<const uint8_t>(exact.data(), bytes), bits);
    BitStreamWriter writer(Span<uint8_t>(target, bytes), bits);
    CHECK(writer.getWriteBuffer() == target && writer.getBuffer().data() == target && writer.getBuffer().size() == bytes);
    size_t pos = 0;
    for (int i = 0; i < 12; ++i)
    {
        const uint8_t n = static_cast<uint8_t>(1 + g.below(64));
        const bool in = n <= bits - pos;
        uint64_t v = 0;
        CHECK_EQM(made([&] { v = reader.readUnsignedBits64(n); }), in, n << " bits at " << pos << " of " << bits);
        if (!in)
        {
            CHECK(reader.getBitPosition() <= bits);
            CHECK(!made([&] { writer.writeUnsignedBits64(0, n); }));
            break;
        }
        uint64_t want = 0;
        for (size_t k = 0; k < n; ++k) want = want << 1 | static_cast<uint64_t>(ref::bitAt(some, pos + k));
        CHECK_EQ(v, want);
        writer.writeUnsignedBits64(v, n);
        pos += n;
        CHECK_EQ(reader.getBitPosition(), pos);
        CHECK_EQ(writer.getBitPosition(), pos);
    }
    for (size_t k = 0; k < bytes * 8; ++k) CHECK(ref::bitAt(target, k) == (k < pos && ref::bitAt(some, k)));
}
