// P27: file based functions against a model of the directory, with injected I/O failures.
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include "schema.h"
#include "testobj.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/FileUtil.h"
#include "zserio/SerializeUtil.h"

using namespace zserio;
using StdA = std::allocator<uint8_t>;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
using PpmrA = zserio::ppmr::PropagatingPolymorphicAllocator<uint8_t>;

namespace
{
// ------------------------------------------------------------------------------------------------ scratch directory
void wipe(const std::string& dir)
{
    if (DIR* d = opendir(dir.c_str()))
    {
        while (const dirent* e = readdir(d))
        {
            const std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            const std::string f = dir + "/" + n;
            if (unlink(f.c_str()) != 0) rmdir(f.c_str()); // only empty directories are created here
        }
        closedir(d);
    }
}
struct Scratch
{
    std::string dir;
    Scratch()
    {
        const char* t = getenv("TMPDIR");
        std::string p = std::string(t && *t ? t : "/tmp") + "/p27_XXXXXX";
        if (mkdtemp(p.data()) == nullptr) throw std::runtime_error("harness: no scratch directory");
        dir = p;
    }
    Scratch(const Scratch&) = delete;
    Scratch& operator=(const Scratch&) = delete;
    ~Scratch()
    {
        wipe(dir);
        rmdir(dir.c_str());
    }
};
using Bytes_ = std::string;
std::optional<Bytes_> slurp(const std::string& f)
{
    struct stat st;
    if (stat(f.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) return std::nullopt;
    std::ifstream in(f, std::ios::binary);
    return Bytes_(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
void put(const std::string& f, const Bytes_& b)
{
    std::ofstream(f, std::ios::binary | std::ios::trunc).write(b.data(), static_cast<std::streamsize>(b.size()));
}
// a name given as a view that is not terminated: the next characters would make another name
struct Name
{
    std::string mem;
    size_t len;
    Name(pbt::Gen& g, const std::string& n) : mem(n + (g.flip() ? "x" : g.flip() ? "/y" : "")), len(n.size()) {}
    operator std::string_view() const { return std::string_view(mem).substr(0, len); }
};
// files bigger than the limit cannot be written (like a full device)
struct SizeLimit
{
    rlimit old{};
    bool on = false;
    explicit SizeLimit(std::optional<size_t> n)
    {
        if (!n) return;
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit l = old;
        l.rlim_cur = *n;
        on = setrlimit(RLIMIT_FSIZE, &l) == 0;
    }
    SizeLimit(const SizeLimit&) = delete;
    SizeLimit& operator=(const SizeLimit&) = delete;
    ~SizeLimit()
    {
        if (on) setrlimit(RLIMIT_FSIZE, &old);
    }
};
// true when the call raised a library error
template <class F>
bool raises(F f, std::string* msg = nullptr)
{
    try
    {
        f();
    }
    catch (const CppRuntimeException& e)
    {
        if (msg) *msg = e.what();
        return true;
    }
    return false;
}
Bytes_ content(pbt::Gen& g)
{
    if (g.chance(1, 20)) return Bytes_(g.below(200000), 'q');
    if (g.chance(1, 6)) return g.bytes(9000);
    return g.bytes(40);
}
std::string fileName(pbt::Gen& g)
{
    switch (g.below(8))
    {
    case 0: return "with space";
    case 1: return "d\xc3\xa9j\xc3\xa0";
    case 2: return "%s\n\"'";
    case 3: return std::string(1 + g.below(255), 'n');
    default: return g.pick({"a", "b", "ax", "c.bin"});
    }
}

// ------------------------------------------------------------------------------------------------ things to store
// what a stored thing is and how to get it back
struct Thing
{
    virtual ~Thing() = default;
    virtual void store(pbt::Gen& g, std::string_view name) const = 0;
    virtual Bytes_ expected() const = 0;
    // read from the file with the expected content (or more behind it)
    virtual void load(pbt::Gen& g, std::string_view name, bool exact) const = 0;
    // read from a file with the given damaged content: error or (if permitted) success
    virtual bool truncationIsError() const = 0;
    virtual void loadAny(pbt::Gen& g, std::string_view name) const = 0;
    virtual std::string descr() const = 0;
};
struct Raw : Thing
{
    Bytes_ data; // bytes with unused bits zero
    size_t bits = 0;
    int how = 0;
    explicit Raw(pbt::Gen& g)
    {
        data = content(g);
        bits = data.size() * 8;
        how = static_cast<int>(g.below(4));
        if (how >= 2 && bits > 0)
        {
            bits -= g.below(8);
            if (bits % 8) data.back() = static_cast<char>(static_cast<unsigned char>(data.back()) & (0xFF << (8 - bits % 8)));
        }
        // a buffer with its own allocator
    }
    void store(pbt::Gen&, std::string_view name) const override
    {
        const std::vector<uint8_t> mem(data.begin(), data.end()); // exactly as long as needed
        switch (how)
        {
        case 0: writeBufferToFile(mem.data(), mem.size(), name); break;
        case 1:
        case 2: writeBufferToFile(mem.data(), bits, BitsTag(), name); break;
        default: {
            if (bits % 2)
            {
                std::pmr::monotonic_buffer_resource mr;
                BasicBitBuffer<PmrA> b(Span<const uint8_t>(mem.data(), mem.size()), bits, PmrA(&mr));
                writeBufferToFile(b, name);
            }
            else writeBufferToFile(BitBuffer(Span<const uint8_t>(mem.data(), mem.size()), bits), name);
        }
        }
    }
    Bytes_ expected() const override { return data; }
    void load(pbt::Gen&, std::string_view name, bool exact) const override
    {
        const BitBuffer b = readBufferFromFile(name);
        CHECK_EQM(b.getBitSize() % 8, size_t(0), "bits read");
        if (exact) CHECK_EQM(b.getByteSize(), data.size(), "bytes read");
        CHECKM(b.getByteSize() >= data.size() && std::equal(data.begin(), data.end(), reinterpret_cast<const char*>(b.getBuffer())), "content read differs");
    }
    bool truncationIsError() const override { return false; }
    void loadAny(pbt::Gen&, std::string_view name) const override { (void)readBufferFromFile(name); }
    std::string descr() const override { return std::to_string(bits) + " bits"; }
};
template <class T, class... P>
struct Obj : Thing
{
    mutable T obj;
    std::tuple<P...> params;
    bool truncError;
    Obj(T o, bool t, P... p) : obj(std::move(o)), params(p...), truncError(t) {}
    template <class F>
    auto with(F f) const
    {
        return std::apply(f, params);
    }
    void store(pbt::Gen& g, std::string_view name) const override
    {
        with([&](auto... p) {
            switch (g.below(3))
            {
            case 0: serializeToFile(obj, name, p...); break;
            case 1: {
                View<T> v(obj, p...);
                (void)zserio::detail::initializeOffsets(v, 0);
                serializeToFile(v, name);
                break;
            }
            default: {
                DataView<T> v(obj, p...);
                serializeToFile(v, name);
                break;
            }
            }
        });
    }
    Bytes_ expected() const override
    {
        const auto b = with([&](auto... p) { return serializeToBytes(obj, p...); });
        return Bytes_(reinterpret_cast<const char*>(b.data()), b.size());
    }
    void load(pbt::Gen& g, std::string_view name, bool) const override
    {
        with([&](auto... p) {
            const ArrayPreallocation pre = g.flip() ? ArrayPreallocation() : ArrayPreallocation(g.below(100));
            switch (g.below(4))
            {
            case 0: {
                T back;
                View<T> v = deserializeFromFile(name, back, p...);
                CHECKM(back == obj && &v.zserioData() == &back, "object read differs");
                break;
            }
            case 1: {
                T back;
                View<T> v = deserializeFromFile(name, pre, back, p...);
                CHECKM(back == obj && v == View<T>(obj, p...), "object read differs");
                break;
            }
            case 2: {
                DataView<T> v = deserializeFromFile<T>(name, p...);
                CHECKM(v.zserioData() == obj, "object read differs");
                break;
            }
            default: {
                DataView<T> v = deserializeFromFile<T>(name, pre, p...);
                CHECKM(v.zserioData() == obj, "object read differs");
                break;
            }
            }
        });
    }
    bool truncationIsError() const override { return truncError; }
    void loadAny(pbt::Gen&, std::string_view name) const override
    {
        with([&](auto... p) {
            T back;
            (void)deserializeFromFile(name, back, p...);
        });
    }
    std::string descr() const override { return "object of " + std::to_string(expected().size()) + " bytes"; }
};
template <class N>
struct Json : Thing
{
    using T = typename N::WObj;
    using A = typename N::Alloc;
    T obj;
    uint8_t indent;
    explicit Json(pbt::Gen& g) : obj(to::genWObj<N>(g, A())), indent(static_cast<uint8_t>(g.below(6)))
    {
        if (g.chance(1, 4))
        { // more than a stream buffer
            obj.text.assign(g.below(30000), 'j');
        }
    }
    void store(pbt::Gen&, std::string_view name) const override
    {
        if (indent == 4) toJsonFile(obj, name);
        else toJsonFile(obj, name, indent);
    }
    Bytes_ expected() const override
    {
        const auto s = toJsonString(obj, indent);
        return Bytes_(s.data(), s.size());
    }
    void load(pbt::Gen& g, std::string_view name, bool) const override
    {
        if (g.flip())
        {
            CHECKM(fromJsonFile<T>(name) == obj, "object read from JSON differs");
        }
        else
        {
            auto r = fromJsonFile<A>(typeInfo<T, A>(), name);
            CHECKM((ReflectableUtil::getValue<T, A>(r)) == obj, "object read from JSON differs");
        }
    }
    bool truncationIsError() const override { return true; }
    void loadAny(pbt::Gen&, std::string_view name) const override { (void)fromJsonFile<T>(name); }
    std::string descr() const override { return "JSON of " + std::to_string(expected().size()) + " bytes"; }
};
std::unique_ptr<Thing> makeThing(pbt::Gen& g)
{
    switch (g.below(10))
    {
    case 0:
    case 1:
    case 2: return std::make_unique<Raw>(g);
    case 3: {
        const uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
        return std::make_unique<Obj<sch::Inner<StdA>, UInt8>>(sch::genInner<StdA>(g, p, StdA()), true, UInt8(p));
    }
    case 4: {
        const uint8_t p = static_cast<uint8_t>(1 + g.edge(31));
        auto d = sch::genMain<StdA>(g, p, StdA());
        (void)zserio::detail::initializeOffsets(View<sch::Main<StdA>>(d, UInt8(p)), 0);
        return std::make_unique<Obj<sch::Main<StdA>, UInt8>>(std::move(d), false, UInt8(p));
    }
    case 5: return std::make_unique<Obj<to::Std::WObj>>(to::genWObj<to::Std>(g, StdA()), true);
    case 6: return std::make_unique<Obj<to::Pmr::WObj>>(to::genWObj<to::Pmr>(g, to::Pmr::Alloc()), true);
    case 7: return std::make_unique<Obj<to::Ppmr::CObj>>(to::genCObj<to::Ppmr>(g, to::Ppmr::Alloc()), true);
    case 8: return std::make_unique<Json<to::Std>>(g);
    default: return std::make_unique<Json<to::Pmr>>(g);
    }
}

// ------------------------------------------------------------------------------------------------ histories
SUBCHECK(histories, 6000, 300000, "a history of storing raw bits, objects (three entry points) and JSON under names given as unterminated views, over files left by earlier steps, with size limits, full device, missing and occupied paths, and of reading them back, also cut or extended: file content is exactly the expected bytes after success, every failure raises an error, other files untouched; non-trivial: a failure was injected or a file was overwritten")
{
    const Scratch scratch;
    std::map<std::string, Bytes_> model; // regular files
    std::map<std::string, std::unique_ptr<Thing>> stored;
    auto path = [&](const std::string& n) { return scratch.dir + "/" + n; };
    const size_t steps = 1 + g.below(8);
    for (size_t i = 0; i < steps; ++i)
    {
        const std::string n = fileName(g);
        const std::string f = path(n);
        switch (g.below(8))
        {
        case 0:
        case 1:
        case 2:
        case 3: { // store
            auto t = makeThing(g);
            const Bytes_ exp = t->expected();
            std::optional<size_t> limit;
            if (g.chance(1, 4)) limit = g.flip() ? g.below(exp.size() + 2) : exp.size() - std::min<size_t>(exp.size(), g.below(3));
            g.note("store " + t->descr() + (limit ? " limit " + std::to_string(*limit) : ""));
            const bool mustFail = limit && *limit < exp.size();
            g.nontrivial(mustFail || model.count(n) != 0);
            std::string msg;
            bool failed = false;
            const Name name(g, f);
            {
                const SizeLimit sl(limit);
                failed = raises([&] { t->store(g, name); }, &msg);
            }
            CHECKM(failed == mustFail, (mustFail ? "incomplete write reported as success" : "complete write failed: ") << msg);
            if (failed)
            { // whatever is left is of no interest
                unlink(f.c_str());
                model.erase(n);
                stored.erase(n);
            }
            else
            {
                model[n] = exp;
                stored[n] = std::move(t);
            }
            break;
        }
        case 4: { // read back
            if (stored.empty()) break;
            auto it = stored.begin();
            std::advance(it, static_cast<long>(g.below(stored.size())));
            g.note("load " + it->second->descr());
            it->second->load(g, Name(g, path(it->first)), model[it->first] == it->second->expected());
            break;
        }
        case 5: { // cut or extend a file behind the back of the library and read it
            if (stored.empty()) break;
            auto it = stored.begin();
            std::advance(it, static_cast<long>(g.below(stored.size())));
            Bytes_ b = it->second->expected();
            const Name name(g, path(it->first));
            if (g.flip())
            {
                if (b.empty()) break;
                const size_t keep = g.below(b.size());
                g.note("cut " + it->second->descr() + " to " + std::to_string(keep));
                g.nontrivial();
                b.resize(keep);
                put(path(it->first), b);
                const bool failed = raises([&] { it->second->loadAny(g, name); });
                if (it->second->truncationIsError()) CHECKM(failed, "truncated content accepted: " << keep << " bytes of " << it->second->descr());
            }
            else
            {
                b += g.bytes(20);
                put(path(it->first), b);
                if (dynamic_cast<Raw*>(it->second.get()) || dynamic_cast<Obj<to::Std::WObj>*>(it->second.get())) it->second->load(g, name, false);
            }
            model[it->first] = b;
            stored.erase(it);
            break;
        }
        case 6: { // what is not there or not a file
            auto t = makeThing(g);
            g.nontrivial();
            switch (g.below(5))
            {
            case 0: {
                const std::string m = "missing" + n.substr(0, 40);
                g.note("read of a missing file");
                CHECKM(raises([&] { t->loadAny(g, Name(g, path(m))); }), "missing file read");
                break;
            }
            case 1:
                g.note("file in a missing directory");
                CHECKM(raises([&] { t->store(g, Name(g, path("nodir/file"))); }), "stored in a missing directory");
                CHECKM(raises([&] { t->loadAny(g, Name(g, path("nodir/file"))); }), "read from a missing directory");
                break;
            case 2:
                g.note("directory");
                CHECKM(raises([&] { t->store(g, scratch.dir); }), "stored over a directory");
                CHECKM(raises([&] { t->loadAny(g, scratch.dir); }), "directory read as a file");
                break;
            case 3: {
                if (model.empty()) break;
                g.note("file used as a directory");
                const std::string m = path(model.begin()->first) + "/below";
                CHECKM(raises([&] { t->store(g, m); }), "stored below a file");
                CHECKM(raises([&] { t->loadAny(g, m); }), "read below a file");
                break;
            }
            default: {
                g.note("empty or too long name");
                CHECKM(raises([&] { t->store(g, std::string_view()); }), "stored without a name");
                CHECKM(raises([&] { t->loadAny(g, ""); }), "read without a name");
                CHECKM(raises([&] { t->store(g, path(std::string(300, 'l'))); }), "stored under a too long name");
                break;
            }
            }
            break;
        }
        default: { // a device that is always full
            auto t = makeThing(g);
            g.note("full device " + t->descr());
            const bool some = !t->expected().empty();
            g.nontrivial(some);
            CHECKM(raises([&] { t->store(g, Name(g, "/dev/full").operator std::string_view()); }) == some, "store to a full device");
            break;
        }
        }
        // the whole directory
        std::map<std::string, Bytes_> found;
        DIR* d = opendir(scratch.dir.c_str());
        while (const dirent* e = readdir(d))
        {
            const std::string m = e->d_name;
            if (m == "." || m == "..") continue;
            auto b = slurp(path(m));
            CHECKM(b.has_value(), "something else than a file appeared: " << m);
            found[m] = *b;
        }
        closedir(d);
        for (const auto& [k, v] : model)
        {
            CHECKM(found.count(k) != 0, "file " << pbt::show(k) << " is missing");
            CHECK_EQM(found[k].size(), v.size(), "size of " << pbt::show(k));
            CHECKM(found[k] == v, "content of " << pbt::show(k) << " differs");
        }
        for (const auto& [k, v] : found) CHECKM(model.count(k) != 0, "unexpected file " << pbt::show(k));
    }
}

SUBCHECK(bits, 30000, 1500000, "any bit string of any length (0 to some thousand bits) through writeBufferToFile and readBufferFromFile: the file has exactly the bytes, the buffer read equals them; non-trivial: not a multiple of 8 bits")
{
    const Scratch scratch;
    const Raw r(g);
    const std::string f = scratch.dir + "/" + fileName(g);
    if (g.flip()) put(f, content(g));
    const Name name(g, f);
    g.note(r.descr());
    g.nontrivial(r.bits % 8 != 0);
    r.store(g, name);
    const auto got = slurp(f);
    CHECKM(got.has_value(), "no file");
    CHECK_EQM(got->size(), r.data.size(), "file size");
    CHECKM(*got == r.data, "file content");
    r.load(g, name, true);
    // the same content through links
    if (g.chance(1, 4))
    {
        const std::string l = scratch.dir + "/link";
        if (symlink(f.c_str(), l.c_str()) == 0)
        {
            r.load(g, l, true);
            const Raw other(g);
            other.store(g, l);
            CHECKM(slurp(f) == other.data, "content written through a link");
            other.load(g, f, true);
        }
    }
}

SUBCHECK(write_limits, 12000, 600000, "storing anything when only the first n bytes fit (every n around the total size, the stream buffer size and 0): an error exactly when something is cut off; non-trivial: something is cut off")
{
    const Scratch scratch;
    const std::string f = scratch.dir + "/f";
    auto t = makeThing(g);
    const Bytes_ exp = t->expected();
    size_t limit = 0;
    switch (g.below(5))
    {
    case 0: limit = exp.size(); break;
    case 1: limit = exp.size() > 0 ? exp.size() - 1 : 0; break;
    case 2: limit = exp.size() / 8192 * 8192; break;
    case 3: limit = g.below(exp.size() + 1); break;
    default: limit = exp.size() + g.below(10); break;
    }
    g.note(t->descr() + " limit " + std::to_string(limit));
    g.nontrivial(limit < exp.size());
    bool failed = false;
    std::string msg;
    {
        const SizeLimit sl(limit);
        failed = raises([&] { t->store(g, f); }, &msg);
    }
    CHECKM(failed == (limit < exp.size()), "limit " << limit << " of " << exp.size() << " bytes: " << (failed ? "error " + msg : "reported as success"));
    if (!failed)
    {
        CHECKM(slurp(f) == exp, "content");
        t->load(g, f, true);
    }
}

// sizes around 2^32
SUBCHECK(large_files, 1, 6, "a sparse file with a size around 2^32 - 1 bytes is read completely; non-trivial: always")
{
    const Scratch scratch;
    const std::string f = scratch.dir + "/large";
    const uint64_t size = (UINT64_C(1) << 32) - 1 - (g.exhausted() ? 0 : 0);
    g.nontrivial();
    const int fd = open(f.c_str(), O_CREAT | O_RDWR, 0600);
    if (fd < 0 || ftruncate(fd, static_cast<off_t>(size)) != 0 || pwrite(fd, "end", 3, static_cast<off_t>(size - 3)) != 3)
    {
        if (fd >= 0) close(fd);
        throw pbt::Discard{};
    }
    close(fd);
    const BitBuffer b = readBufferFromFile(f);
    CHECK_EQ(static_cast<uint64_t>(b.getByteSize()), size);
    CHECK(b.getBuffer()[size - 3] == 'e' && b.getBuffer()[size - 1] == 'd' && b.getBuffer()[0] == 0);
}
} // namespace
