// Small property-based testing core: choice-sequence generator, sub-check registry, CHECK macros.
// Every random decision is one recorded "choice" so that failures are shrunk and replayed on the choice sequence.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

namespace pbt
{

struct Failure
{
    std::string msg;
};
struct Discard
{};

class Gen
{
public:
    enum class Mode
    {
        RNG,
        REPLAY,
        BYTES
    };
    explicit Gen(uint64_t seed) : m_mode(Mode::RNG), m_state(seed) {}
    Gen(const uint64_t* choices, size_t n) : m_mode(Mode::REPLAY), m_src(choices), m_srcLen(n) {}
    Gen(const uint8_t* data, size_t n) : m_mode(Mode::BYTES), m_bytes(data), m_srcLen(n) {}

    // uniform in [0, maxIncl]; smaller is "simpler"
    uint64_t draw(uint64_t maxIncl);

    uint64_t below(uint64_t n) { return draw(n - 1); }
    bool flip() { return draw(1) != 0; }
    // true with probability num/den; shrinks to false
    bool chance(uint32_t num, uint32_t den) { return draw(den - 1) >= den - num; }
    int64_t range(int64_t lo, int64_t hi)
    {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) +
                draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
    }
    // edge biased size in [0, max]
    size_t size(size_t max);
    // edge biased unsigned value representable in `bits` bits
    uint64_t ubits(unsigned bits);
    // edge biased signed value representable in `bits` bits (two's complement)
    int64_t sbits(unsigned bits);
    // edge biased value of integral type T
    template <class T>
    T integral()
    {
        if constexpr (std::is_same_v<T, bool>) return flip();
        else if constexpr (std::is_signed_v<T>) return static_cast<T>(sbits(sizeof(T) * 8));
        else return static_cast<T>(ubits(sizeof(T) * 8));
    }
    // edge biased within [lo,hi] of T
    template <class T>
    T within(T lo, T hi)
    {
        if (lo == hi) return lo;
        uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
        return static_cast<T>(static_cast<uint64_t>(lo) + edge(span));
    }
    uint64_t edge(uint64_t maxIncl);
    double anyDouble(bool allowNonFinite = true);
    float anyFloat(bool allowNonFinite = true);
    uint32_t floatBits();
    // arbitrary bytes / text
    std::string bytes(size_t maxLen);
    std::string ascii(size_t maxLen);
    std::string utf8(size_t maxLen, bool nul = true);
    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
    template <class T>
    T pick(std::initializer_list<T> v)
    {
        return *(v.begin() + below(v.size()));
    }
    template <class T>
    void shuffle(std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; --i)
        {
            size_t j = i - 1 - below(i);
            std::swap(v[i - 1], v[j]);
        }
    }

    void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
    bool isNontrivial() const { return m_nontrivial; }
    bool noting() const { return m_noting; }
    void setNoting(bool b) { m_noting = b; }
    void note(const std::string& s)
    {
        if (m_noting && m_notes.size() < 20000) { m_notes += s; m_notes += "; "; }
    }
    const std::string& notes() const { return m_notes; }
    const std::vector<uint64_t>& record() const { return m_rec; }
    bool exhausted() const { return m_mode != Mode::RNG && m_pos >= m_srcLen; }
    uint64_t recordHash() const;
    size_t drawCount() const { return m_rec.size(); }
    // memory to mirror the record into (survives crash)
    void mirror(uint64_t* mem, size_t cap, volatile uint64_t* count)
    {
        m_mirror = mem; m_mirrorCap = cap; m_mirrorCount = count;
    }

private:
    uint64_t rng();
    Mode m_mode;
    uint64_t m_state = 0;
    const uint64_t* m_src = nullptr;
    const uint8_t* m_bytes = nullptr;
    size_t m_srcLen = 0;
    size_t m_pos = 0;
    std::vector<uint64_t> m_rec;
    bool m_nontrivial = false;
    bool m_noting = false;
    std::string m_notes;
    uint64_t* m_mirror = nullptr;
    size_t m_mirrorCap = 0;
    volatile uint64_t* m_mirrorCount = nullptr;
};

using Prop = void (*)(Gen&);
struct SubCheck
{
    const char* name;
    Prop prop;
    uint64_t quickCount;
    uint64_t thoroughCount;
    const char* what; // what a case is and what is nontrivial
};
std::vector<SubCheck>& registry();
struct Registrar
{
    Registrar(const char* name, Prop prop, uint64_t q, uint64_t t, const char* what)
    {
        registry().push_back({name, prop, q, t, what});
    }
};
// declare sub-check: SUBCHECK(name, quickCount, thoroughCount, "rule") { body using Gen& g }
#define SUBCHECK(NAME, Q, T, WHAT) \
    static void sub_##NAME(pbt::Gen& g); \
    static pbt::Registrar reg_##NAME(#NAME, sub_##NAME, Q, T, WHAT); \
    static void sub_##NAME([[maybe_unused]] pbt::Gen& g)

template <class T, class = void>
struct IsStreamable : std::false_type
{};
template <class T>
struct IsStreamable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>>
        : std::true_type
{};

template <class T>
std::string show(const T& v)
{
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, std::byte>) return "b" + std::to_string(static_cast<int>(v));
    else if constexpr (std::is_enum_v<T>)
        return "enum(" + std::to_string(static_cast<long long>(static_cast<std::underlying_type_t<T>>(v))) + ")";
    else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>)
        return std::to_string(static_cast<int>(v));
    else if constexpr (std::is_floating_point_v<T>)
    {
        char b[64];
        snprintf(b, sizeof b, "%.17g(%a)", static_cast<double>(v), static_cast<double>(v));
        return b;
    }
    else if constexpr (std::is_convertible_v<const T&, std::string_view>)
    {
        std::string_view s = v;
        std::string r = "\"";
        for (unsigned char c : s.substr(0, 200))
        {
            if (c >= 32 && c < 127) r += static_cast<char>(c);
            else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        }
        return r + (s.size() > 200 ? "\"..." : "\"");
    }
    else if constexpr (IsStreamable<T>::value)
    {
        std::ostringstream os;
        os << v;
        return os.str();
    }
    else return std::string("<") + typeid(T).name() + ">";
}
template <class T, class A>
std::string show(const std::vector<T, A>& v)
{
    std::string r = "[";
    size_t n = 0;
    for (const auto& e : v)
    {
        if (n++) r += ",";
        if (n > 64) { r += "..."; break; }
        T copy(e);
        r += show(copy);
    }
    return r + "]";
}

[[noreturn]] void fail(const char* file, int line, const std::string& msg);
std::string hex(const void* p, size_t n, size_t max = 96);
inline std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }

#define CHECK(cond) do { if (!(cond)) ::pbt::fail(__FILE__, __LINE__, #cond); } while (0)
#define CHECKM(cond, msg) \
    do { if (!(cond)) { std::ostringstream os_; os_ << #cond << " :: " << msg; ::pbt::fail(__FILE__, __LINE__, os_.str()); } } while (0)
#define CHECK_EQ(a, b) \
    do { auto&& a_ = (a); auto&& b_ = (b); \
         if (!(a_ == b_)) ::pbt::fail(__FILE__, __LINE__, std::string(#a " == " #b " : ") + ::pbt::show(a_) + " vs " + ::pbt::show(b_)); } while (0)
#define CHECK_EQM(a, b, msg) \
    do { auto&& a_ = (a); auto&& b_ = (b); \
         if (!(a_ == b_)) { std::ostringstream os_; os_ << #a " == " #b " : " << ::pbt::show(a_) << " vs " << ::pbt::show(b_) << " :: " << msg; \
             ::pbt::fail(__FILE__, __LINE__, os_.str()); } } while (0)
#define CHECK_THROWS(EXC, expr) \
    do { bool thrown_ = false; try { (void)(expr); } catch (const EXC&) { thrown_ = true; } \
         if (!thrown_) ::pbt::fail(__FILE__, __LINE__, "expected " #EXC " from " #expr); } while (0)
#define CHECK_THROWSM(EXC, expr, msg) \
    do { bool thrown_ = false; try { (void)(expr); } catch (const EXC&) { thrown_ = true; } \
         if (!thrown_) { std::ostringstream os_; os_ << "expected " #EXC " from " #expr " :: " << msg; ::pbt::fail(__FILE__, __LINE__, os_.str()); } } while (0)
// runs expr, returns true if EXC thrown
#define THROWS(EXC, expr) \
    ([&]() -> bool { try { (void)(expr); return false; } catch (const EXC&) { return true; } }())

// memory accounting (counts all heap use of the process through malloc hooks; only while armed)
struct MemScope
{
    MemScope();
    ~MemScope();
    size_t liveBytes() const;   // allocated in scope and not freed
    size_t liveBlocks() const;
    size_t peakBytes() const;
    size_t maxSingle() const;
};

// true if the finding `id` is listed in known_findings.txt (given by check.py in PBT_KNOWN)
bool known(const char* id);

int runMain(int argc, char** argv, const char* property, double scale = 1);

} // namespace pbt
