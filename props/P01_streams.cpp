#include "streamops.h"

using namespace ops;

namespace
{
struct Written
{
    size_t start;
    std::vector<Op> list;
    std::vector<size_t> pos; // bit position before each op, last = end
    ref::Bits bits;
};
Written genWritten(pbt::Gen& g, size_t maxOps)
{
    Written w;
    w.start = g.edge(g.chance(1, 4) ? 130 : 15);
    for (size_t i = 0; i < w.start; ++i) w.bits.put(0, 1);
    size_t n = g.size(maxOps);
    for (size_t i = 0; i < n; ++i)
    {
        w.list.push_back(genOp(g));
        w.pos.push_back(w.bits.size());
        refPut(w.bits, w.list.back());
        if (g.noting()) g.note(show(w.list.back()));
    }
    w.pos.push_back(w.bits.size());
    return w;
}
} // namespace

SUBCHECK(round_trip, 130000, 6000000,
        "random op sequence (all value kinds, align, skip) at a random start bit, written then read back sequentially; non-trivial: >=3 ops and an unaligned start or end")
{
    Written w = genWritten(g, 24);
    g.nontrivial(w.list.size() >= 3 && (w.start % 8 != 0 || w.bits.size() % 8 != 0));
    const size_t total = w.bits.size();
    ref::ExactBuf buf((total + 7) / 8, 0);
    {
        // writer constructed over different accepted inputs
        auto body = [&](zserio::BitStreamWriter& wr) {
            wr.setBitPosition(w.start);
            for (size_t i = 0; i < w.list.size(); ++i)
            {
                CHECK_EQM(wr.getBitPosition(), w.pos[i], "before op " << i << " " << show(w.list[i]));
                writeOp(wr, w.list[i]);
            }
            CHECK_EQ(wr.getBitPosition(), total);
        };
        switch (g.draw(3))
        {
        case 0: { zserio::BitStreamWriter wr(buf.data(), total, zserio::BitsTag()); CHECK_EQ(wr.getBufferBitSize(), total); body(wr); break; }
        case 1: { zserio::BitStreamWriter wr(buf.data(), buf.n); CHECK_EQ(wr.getBufferBitSize(), buf.n * 8); body(wr); break; }
        case 2: { zserio::BitStreamWriter wr(zserio::Span<uint8_t>(buf.data(), buf.n)); body(wr); break; }
        default: { zserio::BitStreamWriter wr(zserio::Span<uint8_t>(buf.data(), buf.n), total); body(wr); break; }
        }
        // the writer without a buffer only counts, identically
        zserio::BitStreamWriter counter(nullptr, 0, zserio::BitsTag());
        counter.setBitPosition(w.start);
        for (size_t i = 0; i < w.list.size(); ++i)
        {
            writeOp(counter, w.list[i]);
            CHECK_EQM(counter.getBitPosition(), w.pos[i + 1], "counting writer, op " << show(w.list[i]));
        }
    }
    auto readAll = [&](zserio::BitStreamReader& r) {
        r.setBitPosition(w.start);
        CHECK_EQ(r.getBitPosition(), w.start);
        for (size_t i = 0; i < w.list.size(); ++i)
        {
            readOp(r, w.list[i]);
            CHECK_EQM(r.getBitPosition(), w.pos[i + 1], "after reading " << show(w.list[i]));
        }
    };
    switch (g.draw(4))
    {
    case 0: { zserio::BitStreamReader r(buf.data(), total, zserio::BitsTag()); CHECK_EQ(r.getBufferBitSize(), total); readAll(r); break; }
    case 1: { zserio::BitStreamReader r(buf.data(), buf.n); CHECK_EQ(r.getBufferBitSize(), buf.n * 8); readAll(r); break; }
    case 2: { zserio::BitStreamReader r(zserio::Span<const uint8_t>(buf.data(), buf.n)); readAll(r); break; }
    case 3: { zserio::BitStreamReader r(zserio::Span<const uint8_t>(buf.data(), buf.n), total); readAll(r); break; }
    default:
    {
        zserio::BitBuffer bb(zserio::Span<const uint8_t>(buf.data(), buf.n), total);
        zserio::BitStreamReader r(bb);
        CHECK_EQ(r.getBufferBitSize(), total);
        readAll(r);
        break;
    }
    }
}

SUBCHECK(seek, 70000, 3000000,
        "ops written as in round_trip, then read in a random order by repositioning, with raw peeks of random widths in between; non-trivial: >=2 ops and >=3 seeks")
{
    Written w = genWritten(g, 12);
    const size_t total = w.bits.size();
    ref::ExactBuf buf(w.bits.bytes());
    zserio::BitStreamReader r(buf.data(), total, zserio::BitsTag());
    size_t seeks = 1 + g.size(16);
    g.nontrivial(w.list.size() >= 2 && seeks >= 3);
    for (size_t k = 0; k < seeks; ++k)
    {
        if (!w.list.empty() && g.flip())
        {
            size_t i = g.below(w.list.size());
            r.setBitPosition(w.pos[i]);
            CHECK_EQ(r.getBitPosition(), w.pos[i]);
            size_t cnt = 1 + g.draw(3); // continue sequentially for a while
            for (size_t j = i; j < w.list.size() && j < i + cnt; ++j)
            {
                readOp(r, w.list[j]);
                CHECK_EQ(r.getBitPosition(), w.pos[j + 1]);
            }
        }
        else
        {
            size_t p = g.edge(total);
            r.setBitPosition(p);
            CHECK_EQ(r.getBitPosition(), p);
            while (p < total && g.chance(3, 4))
            {
                unsigned n = 1 + static_cast<unsigned>(g.edge(63));
                if (p + n > total) n = static_cast<unsigned>(total - p);
                if (n == 0) break;
                if (n > 64) n = 64;
                uint64_t exp = w.bits.get(p, n);
                if (n <= 32 && g.flip()) CHECK_EQM(static_cast<uint64_t>(r.readUnsignedBits32(static_cast<uint8_t>(n))), exp, "peek at " << p << " width " << n);
                else if (g.flip()) CHECK_EQM(r.readUnsignedBits64(static_cast<uint8_t>(n)), exp, "peek at " << p << " width " << n);
                else
                {
                    int64_t se = static_cast<int64_t>(exp << (64 - n)) >> (64 - n);
                    CHECK_EQM(r.readSignedBits64(static_cast<uint8_t>(n)), se, "signed peek at " << p << " width " << n);
                }
                p += n;
                CHECK_EQ(r.getBitPosition(), p);
            }
        }
    }
    // reposition past the end is refused and leaves reading possible
    CHECK_THROWS(zserio::CppRuntimeException, r.setBitPosition(total + 1 + g.draw(70)));
    if (!w.list.empty())
    {
        r.setBitPosition(w.pos[0]);
        readOp(r, w.list[0]);
    }
}

SUBCHECK(rewrite, 50000, 2000000,
        "a written stream is patched by seeking the writer back and rewriting ops of equal encoded size; the result equals the reference; non-trivial: >=3 ops and >=1 patch")
{
    Written w = genWritten(g, 10);
    const size_t total = w.bits.size();
    ref::ExactBuf buf((total + 7) / 8, static_cast<uint8_t>(g.flip() ? 0xFF : 0x00));
    // start from known content: everything zero
    memset(buf.data(), 0, buf.n);
    zserio::BitStreamWriter wr(buf.data(), total, zserio::BitsTag());
    wr.setBitPosition(w.start);
    for (auto& o : w.list) writeOp(wr, o);
    size_t patches = 0;
    for (size_t k = 0; k < 4 && !w.list.empty(); ++k)
    {
        size_t i = g.below(w.list.size());
        Op& o = w.list[i];
        if (o.kind == U32 || o.kind == U64) o.u = g.ubits(o.bits);
        else if (o.kind == S32 || o.kind == S64) o.s = g.sbits(o.bits);
        else if (o.kind == BOOL) o.u = g.flip();
        else if (o.kind == F32) o.u = ref::f2u(g.anyFloat(false));
        else if (o.kind == F64) o.u = ref::d2u(g.anyDouble(false));
        else if (o.kind == STRING || o.kind == BYTES || o.kind == BITBUF) { for (auto& c : o.data) c = static_cast<char>(g.ubits(8)); }
        else continue;
        ++patches;
        wr.setBitPosition(w.pos[i]);
        writeOp(wr, o);
        CHECK_EQ(wr.getBitPosition(), w.pos[i + 1]);
    }
    g.nontrivial(w.list.size() >= 3 && patches > 0);
    zserio::BitStreamReader r(buf.data(), total, zserio::BitsTag());
    r.setBitPosition(w.start);
    for (auto& o : w.list) readOp(r, o);
    ref::Bits b;
    for (size_t i = 0; i < w.start; ++i) b.put(0, 1);
    for (auto& o : w.list) refPut(b, o);
    CHECK_EQM(pbt::hex(buf.data(), buf.n), pbt::hex(b.bytes()), "content after patching");
}
