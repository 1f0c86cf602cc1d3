// P28: read-only use of shared objects and use of separate objects from several threads.
// Built with ThreadSanitizer. Every case runs in a forked child, so that the first use of every lazily
// initialized thing in the library happens in the concurrent phase of the case. Oracle: no data race is reported
// and every operation gives what the same operation gives when executed alone.
#include <atomic>
#include <locale>
#include <regex>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

#include "schema.h"
#include "testobj.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/FileUtil.h"
#include "zserio/FloatUtil.h"
#include "zserio/IService.h"
#include "zserio/JsonEncoder.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/SerializeUtil.h"
#include "zserio/SqliteConnection.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/TypeInfo.h"
#include "zserio/TypeInfoUtil.h"
#include "zserio/Walker.h"
#include "zserio/ZserioTreeCreator.h"
#include "zserio/pmr/Any.h"

extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=77:report_bugs=1:second_deadlock_stack=1"; }

using namespace zserio;
using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;

namespace
{
template <class P, class A>
void dump(const P& p, std::string& o, const A& a)
{
    if (!p)
    {
        o += '-';
        return;
    }
    if (p->isArray())
    {
        o += '[';
        for (size_t i = 0; i < p->size(); ++i) dump(p->at(i), o, a);
        o += ']';
        return;
    }
    const auto& ti = p->getTypeInfo();
    o += ti.getSchemaName();
    if (TypeInfoUtil::isCompound(ti.getSchemaType()))
    {
        o += '{';
        if (TypeInfoUtil::hasChoice(ti.getSchemaType()))
        {
            o += p->getChoice();
            if (!p->getChoice().empty()) dump(p->getField(p->getChoice()), o, a);
        }
        else
        {
            for (const auto& f : ti.getFields())
            {
                o += f.schemaName;
                o += ':';
                dump(p->getField(f.schemaName), o, a);
            }
        }
        o += '}';
        return;
    }
    o += '=';
    try
    {
        o += p->toString(a);
    }
    catch (const CppRuntimeException& e)
    {
        o += e.what();
    }
    o += ' ';
}
template <class A>
void dumpType(const IBasicTypeInfo<A>& ti, std::string& o, int depth)
{
    o += ti.getSchemaName();
    o += '<';
    o += std::to_string(static_cast<int>(ti.getSchemaType())) + "," + std::to_string(static_cast<int>(ti.getCppType()));
    if (depth > 0 && TypeInfoUtil::isCompound(ti.getSchemaType()))
    {
        for (const auto& f : ti.getFields())
        {
            o += f.schemaName;
            dumpType<A>(f.typeInfo, o, depth - 1);
        }
    }
    if (ti.getSchemaType() == SchemaType::ENUM)
        for (const auto& i : ti.getEnumItems()) o += i.schemaName;
    if (ti.getSchemaType() == SchemaType::BITMASK)
        for (const auto& i : ti.getBitmaskValues()) o += i.schemaName;
    o += '>';
}
template <class B>
std::string str(const B& b)
{
    return std::string(reinterpret_cast<const char*>(b.data()), b.size());
}
template <class BB>
std::string bits(const BB& b)
{
    return std::string(reinterpret_cast<const char*>(b.getBuffer()), b.getByteSize()) + "/" + std::to_string(b.getBitSize());
}

// everything the threads share, prepared by one thread without use of anything lazily initialized that is of interest
template <class N>
struct Shared
{
    using A = typename N::Alloc;
    using W = typename N::WObj;
    using C = typename N::CObj;
    const W w, w2;
    const C c;
    const uint8_t par;
    const sch::Main<StdA> m;
    const View<W> vw;
    std::vector<uint8_t> bytesW, bytesM; // encodings
    std::string json;
    Shared(pbt::Gen& g) :
            w(to::genWObj<N>(g, A())), w2(g.flip() ? w : to::genWObj<N>(g, A())), c(to::genCObj<N>(g, A())),
            par(static_cast<uint8_t>(1 + g.edge(31))), m(make(g, par)), vw(w)
    {}
    static sch::Main<StdA> make(pbt::Gen& g, uint8_t par)
    {
        auto d = sch::genMain<StdA>(g, par, StdA());
        (void)zserio::detail::initializeOffsets(View<sch::Main<StdA>>(d, UInt8(par)), 0);
        return d;
    }
};
// shared handles, created within the concurrent phase by the first thread or before it
template <class N>
struct Handles
{
    using A = typename N::Alloc;
    IBasicIntrospectableViewConstPtr<A> intr;
    IBasicReflectableDataConstPtr<A> refl;
};

constexpr unsigned OPS = 27;
template <class N>
std::string op(unsigned code, uint64_t seed, const Shared<N>& s, const Handles<N>& h)
{
    using A = typename N::Alloc;
    using W = typename N::WObj;
    using C = typename N::CObj;
    pbt::Gen g(seed);
    std::string o;
    switch (code)
    {
    case 0: return bits(serialize(s.w));
    case 1: return bits(serialize(s.vw));
    case 2: return std::to_string(zserio::detail::bitSizeOf(s.vw, 0)) + "," + std::to_string(zserio::detail::bitSizeOf(View<sch::Main<StdA>>(s.m, UInt8(s.par)), 0));
    case 3: return std::to_string(std::hash<W>()(s.w)) + "," + std::to_string(std::hash<C>()(s.c)) + "," + std::to_string(std::hash<View<W>>()(s.vw));
    case 4: return std::string(s.w == s.w2 ? "=" : "#") + (s.w < s.w2 ? "<" : "-") + (s.vw == View<W>(s.w2) ? "=" : "#") + (s.vw < View<W>(s.w2) ? "<" : "-");
    case 5: {
        auto j = toJsonString(s.w);
        return std::string(j.data(), j.size());
    }
    case 6: {
        W back;
        (void)deserialize(BitBuffer(Span<const uint8_t>(s.bytesW.data(), s.bytesW.size())), back);
        return std::string(back == s.w ? "same" : "differs");
    }
    case 7: {
        BitStreamReader r(s.bytesM.data(), s.bytesM.size());
        const DataView<sch::Main<StdA>> d(r, sch::Main<StdA>(), UInt8(s.par));
        return std::string(d.zserioData() == s.m ? "same" : "differs");
    }
    case 8: {
        dump(h.intr, o, A());
        return o;
    }
    case 9: {
        dump(h.refl, o, A());
        return o;
    }
    case 10: {
        dump(introspectable(s.vw, A()), o, A());
        return o;
    }
    case 11: {
        dump(reflectable(s.c, A()), o, A());
        return o;
    }
    case 12: {
        dumpType<A>(typeInfo<W, A>(), o, 4);
        dumpType<A>(typeInfo<C, A>(), o, 4);
        dumpType<A>(typeInfo<typename N::CEnum, A>(), o, 4);
        dumpType<A>(typeInfo<typename N::CMask, A>(), o, 4);
        return o;
    }
    case 13: {
        dumpType<A>(typeInfo<UInt5, A>(), o, 0);
        dumpType<A>(typeInfo<Int33, A>(), o, 0);
        dumpType<A>(typeInfo<VarSize, A>(), o, 0);
        dumpType<A>(typeInfo<Float16, A>(), o, 0);
        dumpType<A>(typeInfo<Bool, A>(), o, 0);
        dumpType<A>(typeInfo<DynUInt16, A>(), o, 0);
        dumpType<A>(typeInfo<DynInt64, A>(), o, 0);
        dumpType<A>(typeInfo<BasicBitBuffer<A>, A>(), o, 0);
        return o;
    }
    case 14: {
        auto r = fromJsonString<A>(typeInfo<W, A>(), BasicString<RebindAlloc<A, char>>(s.json.data(), s.json.size()), A());
        return std::string(ReflectableUtil::getValue<W, A>(r) == s.w ? "same" : "differs");
    }
    case 15: {
        const W cp(s.w);
        BasicOptional<A, W> opt(s.w);
        BasicAny<A> any(s.c);
        const BasicAny<A> any2(any);
        return std::string(cp == s.w && *opt == s.w && any2.template get<C>() == s.c ? "same" : "differs");
    }
    case 16: { // thread's own stream
        BitBuffer b(200);
        BitStreamWriter wr(b);
        for (unsigned i = 0; i < 3; ++i)
        {
            const unsigned n = 1 + static_cast<unsigned>(g.below(64));
            wr.writeUnsignedBits64(g.below(2), static_cast<uint8_t>(n > 40 ? 40 : n));
        }
        return bits(b);
    }
    case 17: {
        const float f = g.anyFloat();
        const double d = g.anyDouble();
        std::ostringstream os;
        JsonEncoder::encodeFloatingPoint(os, d);
        os << ' ';
        JsonEncoder::encodeString(os, g.utf8(20));
        os << convertFloatToUInt16(f) << ' ' << convertFloatToUInt32(f) << ' ' << convertDoubleToUInt64(d);
        return os.str();
    }
    case 18: {
        std::array<char, 24> buf{};
        const char* end = nullptr;
        o = convertIntToString(buf, g.sbits(64));
        o += convertIntToString(buf, g.ubits(64));
        const char* p = nullptr;
        (void)end;
        (void)p;
        return o;
    }
    case 19: {
        try
        {
            W back;
            const size_t cut = s.bytesW.empty() ? 0 : g.below(s.bytesW.size());
            (void)deserialize(BitBuffer(Span<const uint8_t>(s.bytesW.data(), cut)), back);
            return "read";
        }
        catch (const CppRuntimeException& e)
        {
            return e.what();
        }
    }
    case 20: {
        try
        {
            throw CppRuntimeException("e ") << g.anyDouble() << ' ' << g.sbits(64) << ' ' << g.flip() << ' ' << std::string_view("text") << g.anyFloat();
        }
        catch (const CppRuntimeException& e)
        {
            const CppRuntimeException e2(e);
            return e2.what();
        }
    }
    case 21: {
        BasicZserioTreeCreator<A> t(typeInfo<C, A>());
        t.beginRoot();
        t.setValue("value", uint32_t(5));
        t.setValue("text", std::string_view("abc"));
        t.beginCompound("nested");
        t.setValue("value", uint32_t(6));
        t.setValue("creatorEnum", std::string_view("TWO"));
        t.setValue("creatorBitmask", std::string_view("READ | WRITE"));
        t.endCompound();
        t.beginArray("textArray");
        t.addValueElement(std::string_view("x"));
        t.endArray();
        auto r = t.endRoot();
        dump(r, o, A());
        return o;
    }
    case 22: { // walker with the thread's own observer and filters
        std::ostringstream os;
        BasicJsonWriter<A> jw(os, 2);
        BasicDepthWalkFilter<A> depth(g.below(4));
        BasicRegexWalkFilter<A> rx("nested.*|unionArray\\[.*");
        BasicArrayLengthWalkFilter<A> len(g.below(3));
        BasicAndWalkFilter<A> both({std::ref<IBasicWalkFilter<A>>(depth), std::ref<IBasicWalkFilter<A>>(g.flip() ? static_cast<IBasicWalkFilter<A>&>(rx) : len)});
        BasicWalker<A> walker(jw, both);
        walker.walk(h.refl);
        return os.str();
    }
    case 23: {
        const auto e = EnumTraits<typename N::CEnum>::values[g.below(3)];
        o = enumToString(e);
        o += std::to_string(enumToOrdinal(e));
        const auto t = s.c.nested.creatorBitmask.toString();
        o += std::string_view(t.data(), t.size());
        o += static_cast<uint32_t>(enumToValue(stringToEnum<typename N::CEnum>("ONE"))) == static_cast<uint32_t>(enumToValue(e)) ? "1" : "0";
        return o;
    }
    case 24: { // the thread's own service data of a shared object
        const BasicObjectServiceData<A> d(s.w);
        const BasicIntrospectableServiceData<W, A> i(s.w);
        return std::string(d.getData().begin(), d.getData().end()) + std::string(i.getData().begin(), i.getData().end());
    }
    case 25: { // the thread's own object, changed and written
        sch::Main<StdA> mine = s.m;
        const auto b = serialize(mine, UInt8(s.par));
        return bits(b) + (mine == s.m ? "=" : "#");
    }
    default: {
        o = h.intr ? bits(h.intr->serialize(A())) : std::string();
        o += ReflectableUtil::equal<A>(h.refl, reflectable(s.w2, A())) ? "=" : "#";
        if (auto f = h.intr->find("nested.text")) o += f->toString(A());
        return o;
    }
    }
}

struct Plan
{
    uint64_t dataSeed;
    bool lateHandles;
    std::vector<std::vector<std::pair<unsigned, uint64_t>>> threads;
};
template <class N>
std::string runPlan(const Plan& plan)
{
    using A = typename N::Alloc;
    pbt::Gen g(plan.dataSeed);
    Shared<N> s(g);
    {
        // encodings by the independent way only where it does not touch anything lazily initialized
        const auto b = serializeToBytes(s.w);
        s.bytesW.assign(b.begin(), b.end());
        const auto bm = serializeToBytes(s.m, UInt8(s.par));
        s.bytesM.assign(bm.begin(), bm.end());
    }
    bool json = false;
    for (const auto& t : plan.threads)
        for (const auto& o : t) json = json || o.first == 14;
    if (json)
    {
        const auto j = toJsonString(s.w);
        s.json.assign(j.data(), j.size());
    }
    Handles<N> h;
    h.refl = reflectable(s.w, A());
    h.intr = introspectable(s.vw, A());
    std::vector<std::vector<std::string>> got(plan.threads.size());
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < plan.threads.size(); ++i)
    {
        ts.emplace_back([&, i] {
            ready.fetch_add(1);
            while (ready.load() < plan.threads.size()) std::this_thread::yield();
            for (const auto& o : plan.threads[i])
            {
                std::string r;
                try
                {
                    r = op<N>(o.first, o.second, s, h);
                }
                catch (const std::exception& e)
                {
                    r = std::string("EXCEPTION ") + e.what();
                }
                got[i].push_back(std::move(r));
            }
        });
    }
    for (auto& t : ts) t.join();
    for (size_t i = 0; i < plan.threads.size(); ++i)
        for (size_t k = 0; k < plan.threads[i].size(); ++k)
        {
            const auto& o = plan.threads[i][k];
            std::string want;
            try
            {
                want = op<N>(o.first, o.second, s, h);
            }
            catch (const std::exception& e)
            {
                want = std::string("EXCEPTION ") + e.what();
            }
            if (got[i][k] != want)
                return "operation " + std::to_string(o.first) + " gave " + pbt::show(got[i][k]) + " in a thread, " + pbt::show(want) + " alone";
            if (want.rfind("EXCEPTION ", 0) == 0) return "operation " + std::to_string(o.first) + " failed: " + want;
            if (want == "differs") return "operation " + std::to_string(o.first) + " gave a different object";
        }
    return "";
}
template <class F>
void inChild(F f)
{
    const int mem = memfd_create("p28", 0);
    if (mem < 0) throw pbt::Discard{};
    fflush(nullptr);
    // libstdc++ fills the tables of the global ctype facet lazily and without synchronization (GCC bug 77704)
    const auto& ct = std::use_facet<std::ctype<char>>(std::locale());
    for (int c = 0; c < 256; ++c)
    {
        (void)ct.narrow(static_cast<char>(c), '\0');
        (void)ct.widen(static_cast<char>(c));
    }
    const pid_t pid = fork();
    if (pid < 0)
    {
        close(mem);
        throw pbt::Discard{};
    }
    if (pid == 0)
    {
        dup2(mem, 2);
        dup2(mem, 1);
        alarm(60);
        std::string msg = f();
        if (!msg.empty())
        {
            msg = "RESULT " + msg + "\n";
            if (write(mem, msg.data(), msg.size()) < 0) _exit(5);
            _exit(3);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string out;
    char buf[4096];
    lseek(mem, 0, SEEK_SET);
    for (ssize_t n; (n = read(mem, buf, sizeof buf)) > 0;) out.append(buf, static_cast<size_t>(n));
    close(mem);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) throw pbt::Discard{}; // memory pressure
    // the essential lines of a report
    std::string msg;
    size_t i = 0;
    int frames = 0;
    while (i < out.size())
    {
        size_t e = out.find('\n', i);
        if (e == std::string::npos) e = out.size();
        const std::string l = out.substr(i, e - i);
        i = e + 1;
        if (l.find("RESULT") == 0 || l.find("ThreadSanitizer") != std::string::npos || l.find("rite of size") != std::string::npos || l.find("ead of size") != std::string::npos || l.find("Location") != std::string::npos)
        {
            msg += l + " | ";
            frames = 0;
        }
        else if (l.find("    #") == 0 && frames < 3 && msg.size() < 1500)
        {
            msg += l.substr(4, 200) + " | ";
            ++frames;
        }
    }
    if (msg.empty()) msg = out.substr(0, 800);
    throw pbt::Failure{"threads: " + msg + " (status " + std::to_string(st) + ")"};
}
Plan makePlan(pbt::Gen& g, size_t maxThreads, size_t maxOps)
{
    Plan p;
    p.dataSeed = g.draw(UINT64_MAX);
    p.lateHandles = false;
    const size_t n = 2 + g.below(maxThreads - 1);
    for (size_t i = 0; i < n; ++i)
    {
        p.threads.emplace_back();
        const size_t k = 1 + g.below(maxOps);
        for (size_t j = 0; j < k; ++j) p.threads.back().emplace_back(static_cast<unsigned>(g.below(OPS)), g.below(1 << 16));
        std::string t = "thread:";
        for (const auto& o : p.threads.back()) t += " " + std::to_string(o.first);
        g.note(t);
    }
    return p;
}

SUBCHECK(same_operation, 1500, 40000, "2 to 4 threads of a fresh process execute the same operation (of 27: serialize, read, hash, compare, JSON export/import, reflection, introspection, type info, walker, tree creator, conversions, exceptions, ...) on shared const objects at once; no data race and the result of the operation executed alone; non-trivial: always")
{
    Plan p;
    p.dataSeed = g.draw(UINT64_MAX);
    p.lateHandles = false;
    const size_t n = 2 + g.below(3);
    const unsigned code = static_cast<unsigned>(g.below(OPS));
    const size_t k = 1 + g.below(3);
    g.note("operation " + std::to_string(code) + " in " + std::to_string(n) + " threads");
    for (size_t i = 0; i < n; ++i)
    {
        p.threads.emplace_back();
        for (size_t j = 0; j < k; ++j) p.threads.back().emplace_back(code, g.below(1 << 16));
    }
    g.nontrivial();
    const bool pmr = g.flip();
    inChild([&] { return pmr ? runPlan<to::Pmr>(p) : runPlan<to::Std>(p); });
}

SUBCHECK(mixed_operations, 4000, 150000, "2 to 5 threads of a fresh process execute random sequences of the 27 operations on shared const objects and on their own objects; no data race and the results of the operations executed alone; non-trivial: at least two different operations")
{
    const Plan p = makePlan(g, 5, 6);
    bool differ = false;
    for (const auto& t : p.threads)
        for (const auto& o : t) differ = differ || o.first != p.threads[0][0].first;
    g.nontrivial(differ);
    const bool pmr = g.flip();
    inChild([&] { return pmr ? runPlan<to::Pmr>(p) : runPlan<to::Std>(p); });
}
} // namespace
