#include "pbt.h"

#include <algorithm>
#include <cmath>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#endif
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
        void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p);
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:exitcode=77:"
           "detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=16:malloc_context_size=12";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:exitcode=77";
}
#endif

namespace pbt
{

// ---------------------------------------------------------------- generator
static uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
uint64_t Gen::rng()
{
    return splitmix(m_state);
}
uint64_t Gen::draw(uint64_t maxIncl)
{
    uint64_t v = 0;
    switch (m_mode)
    {
    case Mode::RNG:
        v = rng();
        if (maxIncl != UINT64_MAX)
            v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * (static_cast<unsigned __int128>(maxIncl) + 1)) >> 64);
        break;
    case Mode::REPLAY:
        v = m_pos < m_srcLen ? m_src[m_pos] : 0;
        ++m_pos;
        if (v > maxIncl) v = maxIncl;
        break;
    case Mode::BYTES:
    {
        int need = maxIncl == 0 ? 0 : (64 - __builtin_clzll(maxIncl) + 7) / 8;
        for (int i = 0; i < need; ++i)
        {
            v |= static_cast<uint64_t>(m_pos < m_srcLen ? m_bytes[m_pos] : 0) << (8 * i);
            ++m_pos;
        }
        if (v > maxIncl) v = v % (maxIncl + 1);
        break;
    }
    }
    if (m_rec.size() > 4000000) throw Discard();
    m_rec.push_back(v);
    if (m_mirror != nullptr)
    {
        size_t n = m_rec.size();
        if (n <= m_mirrorCap) { m_mirror[n - 1] = v; *m_mirrorCount = n; }
    }
    return v;
}
uint64_t Gen::recordHash() const
{
    uint64_t h = 1469598103934665603ULL;
    for (uint64_t v : m_rec)
    {
        h ^= v;
        h *= 0x9E3779B97F4A7C15ULL;
        h ^= h >> 29;
    }
    return h;
}
size_t Gen::size(size_t max)
{
    if (max == 0) return 0;
    switch (draw(9))
    {
    case 0: case 1: case 2: case 3: return draw(std::min<size_t>(max, 4));
    case 4: case 5: case 6: return draw(std::min<size_t>(max, 12));
    case 7: return draw(std::min<size_t>(max, 40));
    case 8: return draw(max);
    default: return max - draw(std::min<size_t>(max, 3));
    }
}
uint64_t Gen::edge(uint64_t maxIncl)
{
    if (maxIncl == 0) return 0;
    switch (draw(9))
    {
    case 0: case 1: return draw(std::min<uint64_t>(maxIncl, 3));
    case 2: return maxIncl - draw(std::min<uint64_t>(maxIncl, 3));
    case 3: case 4: // near a power of two
    {
        int top = 63 - __builtin_clzll(maxIncl);
        uint64_t p = 1ULL << draw(static_cast<uint64_t>(top));
        uint64_t d = draw(4); // 0,1,2 -> p+d ; 3,4 -> p-1,p-2
        uint64_t v = d <= 2 ? p + d : p - (d - 2);
        return v > maxIncl ? maxIncl : v;
    }
    case 5: case 6: // random bit length
    {
        int top = 64 - __builtin_clzll(maxIncl);
        unsigned len = 1 + static_cast<unsigned>(draw(static_cast<uint64_t>(top) - 1));
        uint64_t m = len == 64 ? UINT64_MAX : (1ULL << len) - 1;
        return draw(std::min(m, maxIncl));
    }
    default: return draw(maxIncl);
    }
}
uint64_t Gen::ubits(unsigned bits)
{
    if (bits == 0) return 0;
    return edge(bits >= 64 ? UINT64_MAX : (1ULL << bits) - 1);
}
int64_t Gen::sbits(unsigned bits)
{
    if (bits == 0) return 0;
    uint64_t mag = bits == 1 ? 0 : edge((1ULL << (bits - 1)) - 1);
    bool neg = flip();
    return neg ? static_cast<int64_t>(~mag) : static_cast<int64_t>(mag);
}
uint32_t Gen::floatBits()
{
    switch (draw(5))
    {
    case 0: return static_cast<uint32_t>(draw(3)) << 30;
    case 1: // small integers/halves
    {
        float f = static_cast<float>(range(-1000, 1000)) / 8.0F;
        uint32_t u;
        memcpy(&u, &f, 4);
        return u;
    }
    case 2: // exponent near the half range, edge mantissa
    {
        uint32_t e = static_cast<uint32_t>(range(127 - 27, 127 + 20));
        uint32_t m = static_cast<uint32_t>(ubits(23));
        return (static_cast<uint32_t>(flip()) << 31) | (e << 23) | m;
    }
    case 3:
    {
        uint32_t e = pick({0U, 1U, 2U, 254U, 255U});
        return (static_cast<uint32_t>(flip()) << 31) | (e << 23) | static_cast<uint32_t>(ubits(23));
    }
    default: return static_cast<uint32_t>(draw(UINT32_MAX));
    }
}
float Gen::anyFloat(bool nonFinite)
{
    uint32_t u = floatBits();
    if (!nonFinite && (u & 0x7F800000U) == 0x7F800000U) u &= ~0x00800000U;
    float f;
    memcpy(&f, &u, 4);
    return f;
}
double Gen::anyDouble(bool nonFinite)
{
    double d = 0;
    switch (draw(5))
    {
    case 0: return static_cast<double>(range(-20, 20));
    case 1: return static_cast<double>(range(-100000, 100000)) / 1000.0;
    case 2:
    {
        uint64_t e = edge(2047);
        uint64_t u = (static_cast<uint64_t>(flip()) << 63) | (e << 52) | ubits(52);
        if (!nonFinite && e == 2047) u &= ~(1ULL << 52);
        memcpy(&d, &u, 8);
        return d;
    }
    case 3: return static_cast<double>(sbits(64));
    case 4: return static_cast<double>(anyFloat(nonFinite));
    default:
    {
        uint64_t u = draw(UINT64_MAX);
        if (!nonFinite && ((u >> 52) & 2047) == 2047) u &= ~(1ULL << 52);
        memcpy(&d, &u, 8);
        return d;
    }
    }
}
std::string Gen::bytes(size_t maxLen)
{
    size_t n = size(maxLen);
    std::string s(n, '\0');
    for (auto& c : s) c = static_cast<char>(ubits(8));
    return s;
}
std::string Gen::ascii(size_t maxLen)
{
    size_t n = size(maxLen);
    std::string s(n, 'a');
    for (auto& c : s) c = static_cast<char>(draw(3) ? 'a' + draw(25) : ' ' + draw(94));
    return s;
}
std::string Gen::utf8(size_t maxLen, bool nul)
{
    size_t n = size(maxLen);
    std::string s;
    while (s.size() < n)
    {
        uint32_t cp = 0;
        switch (draw(7))
        {
        case 0: case 1: case 2: cp = static_cast<uint32_t>('a' + draw(25)); break;
        case 3: cp = static_cast<uint32_t>(' ' + draw(94)); break;
        case 4: cp = static_cast<uint32_t>(draw(31)); break;
        case 5: cp = static_cast<uint32_t>(pick<int>({'"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0x7F, 0})); break;
        case 6: cp = static_cast<uint32_t>(0x80 + draw(0x7FF - 0x80)); break;
        default: cp = flip() ? static_cast<uint32_t>(0x10000 + draw(0xFFFFF)) : static_cast<uint32_t>(0x800 + draw(0xCFFF)); break;
        }
        if (cp == 0 && !nul) cp = 'z';
        if (cp < 0x80) s += static_cast<char>(cp);
        else if (cp < 0x800) { s += static_cast<char>(0xC0 | (cp >> 6)); s += static_cast<char>(0x80 | (cp & 63)); }
        else if (cp < 0x10000)
        {
            s += static_cast<char>(0xE0 | (cp >> 12)); s += static_cast<char>(0x80 | ((cp >> 6) & 63));
            s += static_cast<char>(0x80 | (cp & 63));
        }
        else
        {
            s += static_cast<char>(0xF0 | (cp >> 18)); s += static_cast<char>(0x80 | ((cp >> 12) & 63));
            s += static_cast<char>(0x80 | ((cp >> 6) & 63)); s += static_cast<char>(0x80 | (cp & 63));
        }
    }
    return s;
}

// ---------------------------------------------------------------- registry / failures
std::vector<SubCheck>& registry()
{
    static std::vector<SubCheck> r;
    return r;
}
void fail(const char* file, int line, const std::string& msg)
{
    const char* b = strrchr(file, '/');
    throw Failure{std::string(b ? b + 1 : file) + ":" + std::to_string(line) + ": " + msg};
}
std::string hex(const void* p, size_t n, size_t max)
{
    std::string r;
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n && i < max; ++i)
    {
        char b[4];
        snprintf(b, sizeof b, "%02x", c[i]);
        r += b;
    }
    if (n > max) r += "..";
    return r;
}

// ---------------------------------------------------------------- memory accounting
static bool g_armed = false;
static int64_t g_live = 0, g_blocks = 0, g_peak = 0;
static size_t g_single = 0;
#ifdef PBT_ASAN
static void mh(const volatile void* p, size_t s)
{
    if (!g_armed || p == nullptr) return;
    g_live += static_cast<int64_t>(s);
    ++g_blocks;
    if (g_live > g_peak) g_peak = g_live;
    if (s > g_single) g_single = s;
}
static void fh(const volatile void* p)
{
    if (!g_armed || p == nullptr) return;
    g_live -= static_cast<int64_t>(__sanitizer_get_allocated_size(p));
    --g_blocks;
}
#endif
MemScope::MemScope()
{
#ifdef PBT_ASAN
    static bool installed = false;
    if (!installed)
    {
        installed = true;
        __sanitizer_install_malloc_and_free_hooks(mh, fh);
    }
#endif
    g_live = g_blocks = g_peak = 0;
    g_single = 0;
    g_armed = true;
}
MemScope::~MemScope() { g_armed = false; }
size_t MemScope::liveBytes() const { return g_live > 0 ? static_cast<size_t>(g_live) : 0; }
size_t MemScope::liveBlocks() const { return g_blocks > 0 ? static_cast<size_t>(g_blocks) : 0; }
size_t MemScope::peakBytes() const { return g_peak > 0 ? static_cast<size_t>(g_peak) : 0; }
size_t MemScope::maxSingle() const { return g_single; }

// ---------------------------------------------------------------- runner
static const size_t MAX_SUBS = 96;
static const size_t HASH_CAP = 3000000;
static const size_t MIRROR_CAP = 1 << 20;
static const size_t SAMPLE_CAP = 1500;

struct Slot
{
    volatile uint64_t sub, idx, startNs;
    volatile int failed, done;
    char msg[8000];
    volatile uint64_t evals[MAX_SUBS], nontriv[MAX_SUBS], discards[MAX_SUBS];
    char samples[MAX_SUBS][2][SAMPLE_CAP];
    volatile uint64_t nHash;
    uint64_t hashes[HASH_CAP];
};
struct Attempt
{
    volatile uint64_t nRec;
    volatile int failed; // 1 = check failure
    char msg[8000];
    char notes[20000];
    uint64_t rec[MIRROR_CAP];
};
template <class T>
static T* shared(size_t n = 1)
{
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<T*>(p);
}
static uint64_t nowNs()
{
    return static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(
            std::chrono::steady_clock::now().time_since_epoch()).count());
}
static uint64_t caseSeed(uint64_t seed, const char* name, uint64_t idx)
{
    uint64_t h = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (const char* c = name; *c; ++c) h = (h ^ static_cast<unsigned char>(*c)) * 1099511628211ULL;
    h += idx * 0xD1B54A32D192ED03ULL;
    splitmix(h);
    uint64_t r = splitmix(h);
    return r;
}
static void copyStr(char* dst, size_t cap, const std::string& s)
{
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}
// 0 ok, 1 fail, 2 discard
static int runOne(Prop prop, Gen& g, std::string& msg)
{
    try { prop(g); return 0; }
    catch (const Discard&) { return 2; }
    catch (const Failure& f) { msg = f.msg; return 1; }
    catch (const std::exception& e) { msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what(); return 1; }
    catch (...) { msg = "unexpected exception of unknown type"; return 1; }
}
static void limitChild()
{
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
}
static std::string readTail(const std::string& path)
{
    std::ifstream f(path);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    return s;
}
static std::string summarize(const std::string& err)
{
    // first interesting sanitizer lines
    std::string out;
    std::istringstream is(err);
    std::string l;
    int n = 0;
    while (std::getline(is, l) && n < 14)
    {
        if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos ||
                l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos ||
                l.find("Assertion") != std::string::npos || l.find("/repo/") != std::string::npos)
        {
            out += l.substr(0, 300) + " | ";
            ++n;
        }
    }
    return out.empty() ? err.substr(0, 600) : out;
}
struct AttemptResult
{
    bool failed = false;
    std::string msg, notes;
    std::vector<uint64_t> rec;
};
static std::string g_tmp;
static AttemptResult attempt(const SubCheck& sc, const std::function<Gen()>& mk, Attempt* at, double timeout)
{
    at->nRec = 0;
    at->failed = 0;
    at->msg[0] = at->notes[0] = 0;
    fflush(nullptr);
    std::string errFile = g_tmp + "/attempt.err";
    pid_t pid = fork();
    if (pid == 0)
    {
        limitChild();
        int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        Gen g = mk();
        g.mirror(at->rec, MIRROR_CAP, &at->nRec);
        g.setNoting(true);
        std::string msg;
        int r = runOne(sc.prop, g, msg);
        copyStr(at->notes, sizeof at->notes, g.notes());
        if (r == 1)
        {
            at->failed = 1;
            copyStr(at->msg, sizeof at->msg, msg);
        }
        _exit(r == 1 ? 3 : 0);
    }
    AttemptResult res;
    uint64_t start = nowNs();
    int status = 0;
    bool hang = false;
    for (useconds_t us = 200;; us = std::min<useconds_t>(us * 2, 20000))
    {
        pid_t w = waitpid(pid, &status, WNOHANG);
        if (w == pid) break;
        if ((nowNs() - start) * 1e-9 > timeout)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            hang = true;
            break;
        }
        usleep(us);
    }
    size_t n = at->nRec;
    n = std::min(n, MIRROR_CAP);
    res.rec.assign(at->rec, at->rec + n);
    res.notes = at->notes;
    if (hang) { res.failed = true; res.msg = "hang: case did not finish"; }
    else if (at->failed) { res.failed = true; res.msg = at->msg; }
    else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
    {
        res.failed = true;
        res.msg = "crash: " + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status))) +
                " " + summarize(readTail(errFile));
    }
    return res;
}

static AttemptResult shrink(const SubCheck& sc, AttemptResult best, Attempt* at, double budget)
{
    uint64_t start = nowNs();
    auto left = [&] { return budget - (nowNs() - start) * 1e-9; };
    auto tryIt = [&](const std::vector<uint64_t>& c) {
        if (left() <= 0) return false;
        AttemptResult r = attempt(sc, [&] { return Gen(c.data(), c.size()); }, at, 10);
        if (!r.failed) return false;
        // shortlex on what was really consumed
        if (r.rec.size() < best.rec.size() || (r.rec.size() == best.rec.size() && r.rec < best.rec))
        {
            best = r;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && left() > 0)
    {
        progress = false;
        for (size_t len = std::max<size_t>(best.rec.size() / 2, 1); len >= 1 && left() > 0; len /= 2)
        {
            for (size_t i = 0; i + len <= best.rec.size() && left() > 0;)
            {
                std::vector<uint64_t> c(best.rec);
                c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
                if (tryIt(c)) { progress = true; continue; }
                bool allZero = true;
                c = best.rec;
                for (size_t k = i; k < i + len; ++k) { allZero = allZero && c[k] == 0; c[k] = 0; }
                if (!allZero && tryIt(c)) progress = true;
                i += len;
            }
        }
        for (size_t i = 0; i < best.rec.size() && left() > 0; ++i)
        {
            uint64_t lo = 0;
            while (i < best.rec.size() && lo < best.rec[i] && left() > 0)
            {
                std::vector<uint64_t> c(best.rec);
                c[i] = lo + (best.rec[i] - lo) / 2;
                if (c[i] == best.rec[i]) break;
                if (tryIt(c)) progress = true;
                else lo = c[i] + 1;
            }
        }
        // delete one and decrement an earlier one (sizes)
        for (size_t i = 0; i < best.rec.size() && best.rec.size() < 300 && left() > 0; ++i)
        {
            if (best.rec[i] == 0) continue;
            for (size_t j = i + 1; j < best.rec.size() && j < i + 12 && left() > 0; ++j)
            {
                std::vector<uint64_t> c(best.rec);
                c[i] -= 1;
                c.erase(c.begin() + static_cast<long>(j));
                if (tryIt(c)) { progress = true; break; }
            }
        }
    }
    return best;
}

static std::string jesc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
static void writeReplay(const std::string& path, const char* property, const SubCheck& sc, uint64_t seed, uint64_t idx, const AttemptResult& r)
{
    std::ofstream f(path);
    f << "{\"property\":" << jesc(property) << ",\n\"sub\":" << jesc(sc.name) << ",\n\"seed\":" << seed << ",\n\"case\":" << idx
      << ",\n\"message\":" << jesc(r.msg) << ",\n\"notes\":" << jesc(r.notes) << ",\n\"choices\":[";
    for (size_t i = 0; i < r.rec.size(); ++i) f << (i ? "," : "") << r.rec[i];
    f << "]}\n";
}
static bool loadReplay(const std::string& path, std::string& sub, std::vector<uint64_t>& ch)
{
    std::string s = readTail(path);
    size_t p = s.find("\"sub\":\"");
    if (p == std::string::npos) return false;
    p += 7;
    sub = s.substr(p, s.find('"', p) - p);
    p = s.find("\"choices\":[");
    if (p == std::string::npos) return false;
    p += 11;
    while (p < s.size() && s[p] != ']')
    {
        ch.push_back(strtoull(s.c_str() + p, nullptr, 10));
        p = s.find_first_of(",]", p);
        if (s[p] == ',') ++p;
    }
    return true;
}

bool known(const char* id)
{
    const char* e = getenv("PBT_KNOWN");
    return e && (std::string(",") + e + ",").find(std::string(",") + id + ",") != std::string::npos;
}
static std::string choiceText(const Gen& g)
{
    std::string r = "choices";
    for (size_t i = 0; i < g.record().size() && i < 24; ++i) r += " " + std::to_string(g.record()[i]);
    return r + (g.record().size() > 24 ? " ..." : "");
}
int runMain(int argc, char** argv, const char* property, double scale)
{
    uint64_t seed = 1;
    std::string tier = "quick", out, replayOut = "replay.json", replay, only, bytesFile;
    double cap = 0;
    int jobs = 8;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--tier") tier = next();
        else if (a == "--out") out = next();
        else if (a == "--replay-out") replayOut = next();
        else if (a == "--replay") replay = next();
        else if (a == "--only") only = next();
        else if (a == "--bytes") bytesFile = next();
        else if (a == "--cap") cap = atof(next().c_str());
        else if (a == "--scale") scale *= atof(next().c_str());
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--list") list = true;
    }
    auto& reg = registry();
    std::sort(reg.begin(), reg.end(), [](const SubCheck& a, const SubCheck& b) { return strcmp(a.name, b.name) < 0; });
    if (!only.empty())
    {
        std::vector<SubCheck> f;
        for (auto& s : reg)
            if (only == s.name) f.push_back(s);
        reg = f;
    }
    if (list)
    {
        for (auto& s : reg) printf("%s %lu %lu\n", s.name, s.quickCount, s.thoroughCount);
        return 0;
    }
    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (mkdtemp(tmpl) == nullptr) { perror("mkdtemp"); return 2; }
    g_tmp = tmpl;
    setenv("PBT_TMP", tmpl, 1);
    auto cleanup = [&] { std::string c = "/bin/rm -rf " + g_tmp; if (system(c.c_str())) {} };
    Attempt* at = shared<Attempt>();

    if (!replay.empty() || !bytesFile.empty())
    {
        std::string sub = only;
        std::vector<uint64_t> ch;
        std::string data;
        if (!replay.empty())
        {
            if (!loadReplay(replay, sub, ch)) { fprintf(stderr, "bad replay file\n"); cleanup(); return 2; }
        }
        else data = readTail(bytesFile);
        for (auto& s : reg)
            if (sub == s.name)
            {
                AttemptResult r = attempt(s, [&] {
                    return replay.empty() ? Gen(reinterpret_cast<const uint8_t*>(data.data()), data.size()) : Gen(ch.data(), ch.size());
                }, at, 30);
                if (!replay.empty() || !r.failed)
                {
                    printf("%s\nnotes: %s\n", r.failed ? r.msg.c_str() : "PASS", r.notes.c_str());
                    cleanup();
                    return r.failed ? 1 : 0;
                }
                AttemptResult b = shrink(s, r, at, 45);
                writeReplay(replayOut, property, s, seed, 0, b);
                printf("FAIL %s: %s\nnotes: %s\n", s.name, b.msg.c_str(), b.notes.c_str());
                cleanup();
                return 1;
            }
        fprintf(stderr, "unknown sub-check %s\n", sub.c_str());
        cleanup();
        return 2;
    }

    size_t nSubs = reg.size();
    if (nSubs > MAX_SUBS) { fprintf(stderr, "too many subs\n"); return 2; }
    bool thorough = tier == "thorough";
    if (cap <= 0) cap = thorough ? 600 : 75;
    uint64_t t0 = nowNs();
    Slot* slots = shared<Slot>(static_cast<size_t>(jobs));
    std::vector<pid_t> pids(static_cast<size_t>(jobs));
    fflush(nullptr);
    for (int w = 0; w < jobs; ++w)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            limitChild();
            std::string ef = g_tmp + "/w" + std::to_string(w) + ".err";
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            dup2(fd, 1);
            Slot& s = slots[w];
            const uint64_t CH = 50;
            bool capHit = false;
            for (uint64_t c = 0; c < CH && !capHit; ++c)
            {
                for (size_t k = 0; k < nSubs && !capHit; ++k)
                {
                    uint64_t cnt = static_cast<uint64_t>(static_cast<double>(thorough ? reg[k].thoroughCount : reg[k].quickCount) * scale);
                    if (cnt == 0) cnt = 1;
                    uint64_t a = cnt * c / CH, b = cnt * (c + 1) / CH;
                    for (uint64_t i = a; i < b; ++i)
                    {
                        if (i % static_cast<uint64_t>(jobs) != static_cast<uint64_t>(w)) continue;
                        uint64_t ns = nowNs();
                        if ((ns - t0) * 1e-9 > cap) { capHit = true; break; }
                        s.sub = k;
                        s.idx = i;
                        s.startNs = ns;
                        Gen g(caseSeed(seed, reg[k].name, i));
                        bool wantSample = w == 0 && (s.samples[k][0][0] == 0 || s.samples[k][1][0] == 0);
                        g.setNoting(wantSample);
                        std::string msg;
                        int r = runOne(reg[k].prop, g, msg);
                        if (r == 1)
                        {
                            copyStr(s.msg, sizeof s.msg, msg);
                            s.failed = 1;
                            _exit(3);
                        }
                        if (r == 2) { s.discards[k] = s.discards[k] + 1; continue; }
                        s.evals[k] = s.evals[k] + 1;
                        if (g.isNontrivial())
                        {
                            s.nontriv[k] = s.nontriv[k] + 1;
                            if (s.nHash < HASH_CAP) { s.hashes[s.nHash] = g.recordHash() ^ (k * 0x9E3779B97F4A7C15ULL); s.nHash = s.nHash + 1; }
                            if (wantSample) copyStr(s.samples[k][s.samples[k][0][0] ? 1 : 0], SAMPLE_CAP, g.notes().empty() ? choiceText(g) : g.notes());
                        }
                    }
                }
            }
            s.done = 1;
            _exit(0);
        }
        pids[static_cast<size_t>(w)] = pid;
    }
    int failW = -1;
    bool hang = false;
    int live = jobs;
    std::vector<bool> ended(static_cast<size_t>(jobs), false);
    while (live > 0 && failW < 0)
    {
        bool any = false;
        for (int w = 0; w < jobs && failW < 0; ++w)
        {
            if (ended[static_cast<size_t>(w)]) continue;
            int st = 0;
            pid_t r = waitpid(pids[static_cast<size_t>(w)], &st, WNOHANG);
            if (r == pids[static_cast<size_t>(w)])
            {
                any = true;
                ended[static_cast<size_t>(w)] = true;
                --live;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].done))
                {
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !slots[w].failed)
                    {
                        // killed from outside (memory pressure): not a verdict on the code
                        fprintf(stderr, "worker %d was killed from outside at %s case %lu\n", w, reg[slots[w].sub].name, (unsigned long)slots[w].idx);
                    }
                    failW = w;
                }
            }
            else
            {
                uint64_t st0 = slots[w].startNs;
                if (st0 != 0 && !slots[w].done && (nowNs() - st0) * 1e-9 > 40)
                {
                    failW = w;
                    hang = true;
                }
            }
        }
        if (!any) usleep(20000);
    }
    for (int w = 0; w < jobs; ++w)
        if (!ended[static_cast<size_t>(w)])
        {
            kill(pids[static_cast<size_t>(w)], SIGKILL);
            int st;
            waitpid(pids[static_cast<size_t>(w)], &st, 0);
        }
    int rc = 0;
    std::string failMsg, failSub;
    if (failW >= 0)
    {
        const SubCheck& sc = reg[slots[failW].sub];
        uint64_t idx = slots[failW].idx;
        uint64_t cs = caseSeed(seed, sc.name, idx);
        AttemptResult r = attempt(sc, [&] { return Gen(cs); }, at, hang ? 60 : 40);
        if (!r.failed)
        {
            // not reproducible in isolation: record what the worker saw, do not claim a violation
            printf("UNREPRODUCED sub=%s case=%lu msg=%s %s\n", sc.name, (unsigned long)idx, slots[failW].msg,
                    summarize(readTail(g_tmp + "/w" + std::to_string(failW) + ".err")).c_str());
            rc = 4;
        }
        else
        {
            AttemptResult b = r.rec.size() >= MIRROR_CAP ? r : shrink(sc, r, at, hang ? 30 : 45);
            writeReplay(replayOut, property, sc, seed, idx, b);
            printf("FAIL sub=%s case=%lu\nmessage: %s\nnotes: %s\noriginal message: %s\n", sc.name, (unsigned long)idx, b.msg.c_str(), b.notes.c_str(), r.msg.c_str());
            failMsg = b.msg;
            failSub = sc.name;
            rc = 1;
        }
    }
    if (!out.empty())
    {
        std::vector<uint64_t> hs;
        uint64_t ev = 0, nt = 0, disc = 0;
        for (int w = 0; w < jobs; ++w)
        {
            hs.insert(hs.end(), slots[w].hashes, slots[w].hashes + slots[w].nHash);
        }
        std::sort(hs.begin(), hs.end());
        hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
        std::ofstream f(out);
        f << "{\"subs\":[";
        for (size_t k = 0; k < nSubs; ++k)
        {
            uint64_t e = 0, n = 0, d = 0;
            for (int w = 0; w < jobs; ++w) { e += slots[w].evals[k]; n += slots[w].nontriv[k]; d += slots[w].discards[k]; }
            ev += e; nt += n; disc += d;
            f << (k ? "," : "") << "\n{\"name\":" << jesc(reg[k].name) << ",\"evaluations\":" << e << ",\"nontrivial\":" << n << ",\"discards\":" << d
              << ",\"planned\":" << std::max<uint64_t>(1, static_cast<uint64_t>(static_cast<double>(thorough ? reg[k].thoroughCount : reg[k].quickCount) * scale)) << ",\"rule\":" << jesc(reg[k].what)
              << ",\"samples\":[" << jesc(slots[0].samples[k][0]) << "," << jesc(slots[0].samples[k][1]) << "]}";
        }
        f << "],\n\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"discards\":" << disc << ",\"distinct_nontrivial\":" << hs.size()
          << ",\"wall_s\":" << (nowNs() - t0) * 1e-9 << ",\"rc\":" << rc << ",\"fail_sub\":" << jesc(failSub) << ",\"fail_msg\":" << jesc(failMsg) << "}\n";
    }
    cleanup();
    return rc;
}

} // namespace pbt

#ifdef PBT_FUZZER
// coverage-guided driver over the same properties: PBT_FUZZ_SUB selects the sub-check
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static pbt::Prop prop = nullptr;
    if (prop == nullptr)
    {
        const char* n = getenv("PBT_FUZZ_SUB");
        for (auto& s : pbt::registry())
            if (n != nullptr && strcmp(n, s.name) == 0) prop = s.prop;
        if (prop == nullptr) { fprintf(stderr, "PBT_FUZZ_SUB unknown\n"); _exit(2); }
        if (getenv("PBT_TMP") == nullptr) setenv("PBT_TMP", "/tmp", 1);
    }
    pbt::Gen g(data, size);
    std::string msg;
    if (pbt::runOne(prop, g, msg) == 1)
    {
        fprintf(stderr, "PBT FAILURE: %s\n", msg.c_str());
        abort();
    }
    return 0;
}
#else
#ifndef PBT_PROPERTY
#define PBT_PROPERTY "P00"
#endif
#endif
