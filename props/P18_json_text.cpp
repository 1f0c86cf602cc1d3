// JSON text level: encoder, decoder, tokenizer and parser against an independent reference of the supported grammar.
#include <cmath>
#include <cstdlib>
#include <memory>
#include <memory_resource>
#include <optional>
#include <sstream>
#include <variant>

#include "pbt.h"
#include "zserio/JsonDecoder.h"
#include "zserio/JsonEncoder.h"
#include "zserio/JsonParser.h"
#include "zserio/JsonTokenizer.h"

namespace
{
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;
constexpr size_t CHUNK = 64 * 1024;

// JSON scalar
struct Val
{
    enum K
    {
        NUL,
        BOOL,
        INT,
        UINT,
        DBL,
        STR
    } k = NUL;
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    bool operator==(const Val& o) const
    {
        if (k != o.k) return false;
        switch (k)
        {
        case NUL: return true;
        case BOOL: return b == o.b;
        case INT: return i == o.i;
        case UINT: return u == o.u;
        case DBL: return (std::isnan(d) && std::isnan(o.d)) || std::memcmp(&d, &o.d, 8) == 0;
        default: return s == o.s;
        }
    }
    std::string str() const
    {
        switch (k)
        {
        case NUL: return "null";
        case BOOL: return b ? "true" : "false";
        case INT: return "i" + std::to_string(i);
        case UINT: return "u" + std::to_string(u);
        case DBL: return "d" + pbt::show(d);
        default: return pbt::show(s) + "#" + std::to_string(s.size());
        }
    }
};
Val vNull() { return {}; }
Val vBool(bool b) { Val v; v.k = Val::BOOL; v.b = b; return v; }
Val vInt(int64_t i) { Val v; v.k = Val::INT; v.i = i; return v; }
Val vUint(uint64_t u) { Val v; v.k = Val::UINT; v.u = u; return v; }
Val vDbl(double d) { Val v; v.k = Val::DBL; v.d = d; return v; }
Val vStr(std::string s) { Val v; v.k = Val::STR; v.s = std::move(s); return v; }

template <class A>
std::optional<Val> fromAny(const zserio::BasicAny<A>& a)
{
    using Str = zserio::BasicString<zserio::RebindAlloc<A, char>>;
    if (!a.hasValue()) return std::nullopt;
    if (a.template isType<std::nullptr_t>()) return vNull();
    if (a.template isType<bool>()) return vBool(a.template get<bool>());
    if (a.template isType<int64_t>()) return vInt(a.template get<int64_t>());
    if (a.template isType<uint64_t>()) return vUint(a.template get<uint64_t>());
    if (a.template isType<double>()) return vDbl(a.template get<double>());
    if (a.template isType<Str>())
    {
        const Str& s = a.template get<Str>();
        return vStr(std::string(s.data(), s.size()));
    }
    pbt::fail(__FILE__, __LINE__, "value of an unexpected type");
}

// decode from a heap buffer of exactly the given size (any over-read is seen by the address sanitizer)
template <class A = std::allocator<uint8_t>>
std::pair<std::optional<Val>, size_t> decode(std::string_view text, bool* overflow = nullptr)
{
    std::unique_ptr<char[]> buf(new char[text.size()]);
    std::memcpy(buf.get(), text.data(), text.size());
    zserio::BasicJsonDecoder<A> dec;
    auto r = dec.decodeValue(std::string_view(buf.get(), text.size()));
    if (overflow) *overflow = r.integerOverflow;
    return {fromAny<A>(r.value), r.numReadChars};
}

// ---------------------------------------------------------------- reference for strings
int hexv(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
void putUtf8(std::string& r, unsigned cp)
{
    if (cp < 0x80) r += static_cast<char>(cp);
    else if (cp < 0x800)
    {
        r += static_cast<char>(0xC0 | (cp >> 6));
        r += static_cast<char>(0x80 | (cp & 0x3F));
    }
    else
    {
        r += static_cast<char>(0xE0 | (cp >> 12));
        r += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
        r += static_cast<char>(0x80 | (cp & 0x3F));
    }
}
// RFC 8259 string text (complete) to content; fails the check if the text is no valid JSON string
std::string refUnescape(const std::string& t)
{
    CHECKM(t.size() >= 2 && t.front() == '"' && t.back() == '"', pbt::show(t));
    std::string r;
    for (size_t i = 1; i + 1 < t.size(); ++i)
    {
        unsigned char c = static_cast<unsigned char>(t[i]);
        CHECKM(c >= 0x20, "raw control character in " << pbt::show(t));
        CHECKM(c != '"', "unescaped quote in " << pbt::show(t));
        if (c != '\\')
        {
            r += t[i];
            continue;
        }
        ++i;
        CHECKM(i + 1 < t.size(), "dangling escape in " << pbt::show(t));
        switch (t[i])
        {
        case '"': r += '"'; break;
        case '\\': r += '\\'; break;
        case '/': r += '/'; break;
        case 'b': r += '\b'; break;
        case 'f': r += '\f'; break;
        case 'n': r += '\n'; break;
        case 'r': r += '\r'; break;
        case 't': r += '\t'; break;
        case 'u':
            {
                CHECKM(i + 5 < t.size(), "short \\u in " << pbt::show(t));
                unsigned cp = 0;
                for (int k = 1; k <= 4; ++k)
                {
                    int h = hexv(t[i + static_cast<size_t>(k)]);
                    CHECKM(h >= 0, "bad \\u in " << pbt::show(t));
                    cp = cp * 16 + static_cast<unsigned>(h);
                }
                i += 4;
                putUtf8(r, cp);
                break;
            }
        default: CHECKM(false, "bad escape in " << pbt::show(t));
        }
    }
    return r;
}
std::string genContent(pbt::Gen& g, size_t maxLen)
{
    switch (g.below(5))
    {
    case 0: return g.ascii(maxLen);
    case 1: return g.utf8(maxLen);
    case 2: return g.bytes(maxLen);
    case 3:
        {
            std::string s;
            size_t n = g.size(maxLen);
            static const std::string S = std::string("\"\\\b\f\n\r\t/\x01\x1f\x7f u0nA{}[],:'\xc3\xa9\x80\xff", 27) + std::string(1, '\0');
            for (size_t i = 0; i < n; ++i) s += S[g.below(S.size())];
            return s;
        }
    default:
        {
            // looks like escape sequences
            std::string s;
            size_t n = g.size(maxLen / 4 + 1);
            for (size_t i = 0; i < n; ++i) s += g.pick({"\\u0041", "\\n", "\\\\", "\\\"", "\"", "\\u00e9", "\\", "x"});
            return s;
        }
    }
}
// valid JSON text of a string using random (supported) spellings of each character
std::string refEscape(pbt::Gen& g, const std::string& s)
{
    std::string t = "\"";
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = static_cast<unsigned char>(s[i]);
        const char* sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" :
                c == '\r' ? "\\r" : c == '\t' ? "\\t" : nullptr;
        bool must = c < 0x20 || c == '"' || c == '\\';
        // two-byte UTF-8 sequence of U+0080..U+00FF may be spelled \u00xx
        bool lat = (c == 0xC2 || c == 0xC3) && i + 1 < s.size() && (static_cast<unsigned char>(s[i + 1]) & 0xC0) == 0x80;
        bool uni = g.chance(1, 6);
        if (lat && uni)
        {
            unsigned cp = ((c & 0x1FU) << 6) | (static_cast<unsigned char>(s[i + 1]) & 0x3FU);
            char b[8];
            snprintf(b, sizeof b, g.flip() ? "\\u%04X" : "\\u%04x", cp);
            t += b;
            ++i;
        }
        else if (sh && !uni) t += sh;
        else if (must || (uni && c < 0x80))
        {
            char b[8];
            snprintf(b, sizeof b, g.flip() ? "\\u%04X" : "\\u%04x", c);
            t += b;
        }
        else t += s[i];
    }
    return t + "\"";
}

// RFC 8259 number?
bool isJsonNumber(std::string_view t)
{
    size_t i = 0;
    auto digits = [&]() {
        size_t b = i;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
        return i - b;
    };
    if (i < t.size() && t[i] == '-') ++i;
    size_t b = i;
    size_t n = digits();
    if (n == 0 || (n > 1 && t[b] == '0')) return false;
    if (i < t.size() && t[i] == '.')
    {
        ++i;
        if (digits() == 0) return false;
    }
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
    {
        ++i;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
        if (digits() == 0) return false;
    }
    return i == t.size();
}

// ---------------------------------------------------------------- generated scalars with their text
struct Scalar
{
    std::string text;
    Val val;
};
// the text of an integer literal of any magnitude; nullopt if out of the 64-bit range
std::optional<Val> refInteger(const std::string& t)
{
    bool neg = t[0] == '-';
    unsigned __int128 v = 0;
    bool big = false;
    for (size_t i = neg ? 1 : 0; i < t.size(); ++i)
    {
        if (v > (static_cast<unsigned __int128>(1) << 100)) big = true;
        else v = v * 10 + static_cast<unsigned>(t[i] - '0');
    }
    if (neg)
    {
        if (big || v > (static_cast<unsigned __int128>(1) << 63)) return std::nullopt;
        return vInt(static_cast<int64_t>(0 - static_cast<uint64_t>(v)));
    }
    if (big || v > UINT64_MAX) return std::nullopt;
    return vUint(static_cast<uint64_t>(v));
}
std::string genIntText(pbt::Gen& g, bool mayOverflow)
{
    if (mayOverflow && g.chance(1, 3))
    {
        std::string s = g.pick({"", "-"});
        if (g.flip()) return s + g.pick({"18446744073709551616", "9223372036854775809", "9223372036854775808", "9223372036854775807",
                              "18446744073709551615", "18446744073709551620", "184467440737095516150"});
        size_t n = 17 + g.below(30);
        s += static_cast<char>('1' + g.below(9));
        while (--n) s += static_cast<char>('0' + g.below(10));
        return s;
    }
    return g.flip() ? std::to_string(g.ubits(64)) : std::to_string(g.sbits(64));
}
std::string genDoubleText(pbt::Gen& g)
{
    std::string t = g.flip() ? "-" : "";
    auto digs = [&](size_t n) {
        std::string r;
        while (n--) r += static_cast<char>('0' + g.below(10));
        return r;
    };
    if (g.chance(1, 3)) t += "0";
    else t += static_cast<char>('1' + g.below(9)) + digs(g.size(20));
    bool frac = g.flip();
    if (frac) t += "." + digs(1 + g.size(20));
    if (!frac || g.flip())
    {
        t += g.pick({"e", "E"});
        t += g.pick({"", "+", "-"});
        t += digs(1 + g.below(3));
    }
    return t;
}
Scalar genScalar(pbt::Gen& g, size_t maxStr)
{
    switch (g.below(8))
    {
    case 0: return {"null", vNull()};
    case 1: return g.flip() ? Scalar{"true", vBool(true)} : Scalar{"false", vBool(false)};
    case 2:
    case 3:
        {
            std::string t = genIntText(g, false);
            return {t, *refInteger(t)};
        }
    case 4:
        {
            std::string t = genDoubleText(g);
            return {t, vDbl(std::strtod(t.c_str(), nullptr))};
        }
    case 5:
        switch (g.below(3))
        {
        case 0: return {"NaN", vDbl(NAN)};
        case 1: return {"Infinity", vDbl(INFINITY)};
        default: return {"-Infinity", vDbl(-INFINITY)};
        }
    default:
        {
            std::string s = g.utf8(maxStr);
            if (g.chance(1, 4)) s = genContent(g, maxStr);
            return {refEscape(g, s), vStr(s)};
        }
    }
}

// ---------------------------------------------------------------- tokens, documents
struct Tok
{
    zserio::JsonToken t;
    std::string text;
    Val val; // VALUE only
    size_t line = 0, col = 0;
};
Tok punct(char c)
{
    using T = zserio::JsonToken;
    T t = c == '{' ? T::BEGIN_OBJECT : c == '}' ? T::END_OBJECT : c == '[' ? T::BEGIN_ARRAY : c == ']' ? T::END_ARRAY :
            c == ':' ? T::KEY_SEPARATOR : T::ITEM_SEPARATOR;
    return {t, std::string(1, c), {}, 0, 0};
}
Tok value(Scalar s) { return {zserio::JsonToken::VALUE, std::move(s.text), std::move(s.val), 0, 0}; }

bool wordy(const std::string& t) { return t[0] != '"' && !std::strchr("{}[]:,", t[0]); }

std::string genWs(pbt::Gen& g, size_t max)
{
    std::string r;
    size_t n = g.below(max + 1);
    for (size_t i = 0; i < n; ++i) r += g.pick({" ", "\t", "\n", "\r\n", "\r", " "});
    return r;
}
struct Layout
{
    std::string text;
    size_t line = 1, col = 1; // position of the end of file
};
void advance(Layout& l, const std::string& ws)
{
    for (size_t i = 0; i < ws.size(); ++i)
    {
        if (ws[i] == '\r')
        {
            if (i + 1 < ws.size() && ws[i + 1] == '\n') ++i;
            ++l.line;
            l.col = 1;
        }
        else if (ws[i] == '\n')
        {
            ++l.line;
            l.col = 1;
        }
        else ++l.col;
    }
    l.text += ws;
}
// white space making the text so long that the following bytes fall around an input chunk boundary
std::string padding(pbt::Gen& g, size_t already)
{
    size_t target = CHUNK * (1 + g.below(2)) - g.below(60);
    if (target < already) return "";
    size_t n = target - already;
    std::string p;
    switch (g.below(4))
    {
    case 0: p.assign(n, ' '); break;
    case 1: p.assign(n, '\n'); break;
    case 2:
        while (p.size() + 2 <= n) p += "\r\n";
        p.append(n - p.size(), '\t');
        break;
    default:
        p.assign(n, ' ');
        for (size_t i = 100; i < n; i += 100) p[i] = '\r';
    }
    return p;
}
// lay the tokens out with random white space; assigns positions
Layout layout(pbt::Gen& g, std::vector<Tok>& toks, bool pad, size_t wsMax)
{
    Layout l;
    std::string pending = genWs(g, wsMax);
    size_t padAt = pad ? g.below(toks.size() + 1) : SIZE_MAX;
    for (size_t i = 0; i <= toks.size(); ++i)
    {
        if (i == padAt) pending += padding(g, l.text.size() + pending.size());
        // a lone CR at the very end of the input is not counted as a line end: not generated
        if (i == toks.size() && !pending.empty() && pending.back() == '\r') pending += '\n';
        if (i && i < toks.size() && pending.empty() && wordy(toks[i - 1].text) && wordy(toks[i].text)) pending = " ";
        // CR directly before a LF of the next part would merge: parts are advanced as one string
        advance(l, pending);
        if (i == toks.size()) break;
        toks[i].line = l.line;
        toks[i].col = l.col;
        l.text += toks[i].text;
        l.col += toks[i].text.size();
        pending = genWs(g, wsMax);
    }
    return l;
}

std::string tail(const std::string& t)
{
    return t.size() > 200 ? "..." + pbt::show(std::string_view(t).substr(t.size() - 150)) + " size " + std::to_string(t.size())
                          : pbt::show(t);
}

template <class A>
void checkTokens(const std::vector<Tok>& toks, const Layout& l, size_t valid, bool garbage)
{
    std::istringstream in(l.text);
    zserio::BasicJsonTokenizer<A> tz(in, A());
    for (size_t i = 0; i < valid; ++i)
    {
        zserio::JsonToken t = tz.next();
        CHECK_EQM(static_cast<int>(t), static_cast<int>(toks[i].t), "token " << i << " of " << tail(l.text));
        CHECK_EQM(static_cast<int>(tz.getToken()), static_cast<int>(t), "token " << i);
        CHECK_EQM(tz.getLine(), toks[i].line, "token " << i << " of " << tail(l.text));
        CHECK_EQM(tz.getColumn(), toks[i].col, "token " << i << " of " << tail(l.text));
        if (t == zserio::JsonToken::VALUE)
        {
            auto v = fromAny<A>(tz.getValue());
            CHECKM(v.has_value() && *v == toks[i].val,
                    "token " << i << ": " << (v ? v->str() : "none") << " expected " << toks[i].val.str() << " in " << tail(l.text));
        }
        else
        {
            CHECK(tz.getValue().template isType<char>());
            CHECK_EQ(tz.getValue().template get<char>(), toks[i].text[0]);
        }
    }
    if (garbage)
    {
        std::string what;
        try
        {
            zserio::JsonToken t = tz.next();
            CHECKM(false, "malformed token accepted as " << static_cast<int>(t) << " in " << tail(l.text));
        }
        catch (const zserio::JsonParserException& e)
        {
            what = e.what();
        }
        std::string pos = ":" + std::to_string(toks[valid].line) + ":" + std::to_string(toks[valid].col) + ":";
        CHECKM(what.find(pos) != std::string::npos, "error '" << what << "' expected position " << pos << " in " << tail(l.text));
        return;
    }
    for (int k = 0; k < 2; ++k)
    {
        CHECK_EQM(static_cast<int>(tz.next()), static_cast<int>(zserio::JsonToken::END_OF_FILE), tail(l.text));
        CHECK(!tz.getValue().hasValue());
        CHECK_EQM(tz.getLine(), l.line, tail(l.text));
        CHECK_EQM(tz.getColumn(), l.col, tail(l.text));
    }
}

struct Ev
{
    char k; // { } [ ] k v
    Val v;
    bool operator==(const Ev& o) const { return k == o.k && v == o.v; }
    std::string str() const { return std::string(1, k) + (k == 'k' || k == 'v' ? v.str() : ""); }
};
template <class A>
struct Recorder : zserio::BasicJsonParser<A>::IObserver
{
    std::vector<Ev> evs;
    void beginObject() override { evs.push_back({'{', {}}); }
    void endObject() override { evs.push_back({'}', {}}); }
    void beginArray() override { evs.push_back({'[', {}}); }
    void endArray() override { evs.push_back({']', {}}); }
    void visitKey(std::string_view k) override { evs.push_back({'k', vStr(std::string(k))}); }
    void visitValue(std::nullptr_t) override { evs.push_back({'v', vNull()}); }
    void visitValue(bool b) override { evs.push_back({'v', vBool(b)}); }
    void visitValue(int64_t i) override { evs.push_back({'v', vInt(i)}); }
    void visitValue(uint64_t u) override { evs.push_back({'v', vUint(u)}); }
    void visitValue(double d) override { evs.push_back({'v', vDbl(d)}); }
    void visitValue(std::string_view s) override { evs.push_back({'v', vStr(std::string(s))}); }
};

void genElement(pbt::Gen& g, std::vector<Tok>& out, size_t depth, size_t& budget)
{
    size_t k = depth == 0 || budget == 0 ? 0 : g.below(4);
    if (budget) --budget;
    if (k <= 1)
    {
        out.push_back(value(genScalar(g, 12)));
        return;
    }
    size_t n = g.below(5);
    out.push_back(punct(k == 2 ? '[' : '{'));
    for (size_t i = 0; i < n; ++i)
    {
        if (i) out.push_back(punct(','));
        if (k == 3)
        {
            std::string s = g.ascii(8);
            out.push_back(value({refEscape(g, s), vStr(s)}));
            out.push_back(punct(':'));
        }
        genElement(g, out, depth - 1, budget);
    }
    out.push_back(punct(k == 2 ? ']' : '}'));
}

// reference grammar over tokens: appends events; returns false at the first unexpected token (pos = its index)
struct RefParser
{
    const std::vector<Tok>& t;
    size_t p = 0;
    std::vector<Ev> evs;
    using T = zserio::JsonToken;
    T cur() const { return p < t.size() ? t[p].t : T::END_OF_FILE; }
    bool element()
    {
        switch (cur())
        {
        case T::VALUE: evs.push_back({'v', t[p++].val}); return true;
        case T::BEGIN_ARRAY:
            ++p;
            evs.push_back({'[', {}});
            if (cur() == T::END_ARRAY) { ++p; evs.push_back({']', {}}); return true; }
            while (true)
            {
                if (!element()) return false;
                if (cur() == T::END_ARRAY) { ++p; evs.push_back({']', {}}); return true; }
                if (cur() != T::ITEM_SEPARATOR) return false;
                ++p;
            }
        case T::BEGIN_OBJECT:
            ++p;
            evs.push_back({'{', {}});
            if (cur() == T::END_OBJECT) { ++p; evs.push_back({'}', {}}); return true; }
            while (true)
            {
                if (cur() != T::VALUE || t[p].val.k != Val::STR) return false;
                evs.push_back({'k', t[p++].val});
                if (cur() != T::KEY_SEPARATOR) return false;
                ++p;
                if (!element()) return false;
                if (cur() == T::END_OBJECT) { ++p; evs.push_back({'}', {}}); return true; }
                if (cur() != T::ITEM_SEPARATOR) return false;
                ++p;
            }
        default: return false;
        }
    }
};

template <class A>
void checkParse(const std::vector<Tok>& toks, const Layout& l)
{
    std::istringstream in(l.text);
    Recorder<A> rec;
    zserio::BasicJsonParser<A> parser(in, rec, A());
    RefParser ref{toks, 0, {}};
    while (true)
    {
        bool end = ref.p >= toks.size();
        bool ok = end || ref.element();
        size_t line = ref.p < toks.size() ? toks[ref.p].line : l.line;
        size_t col = ref.p < toks.size() ? toks[ref.p].col : l.col;
        bool result = false;
        std::string error;
        bool threw = false;
        try
        {
            result = parser.parse();
        }
        catch (const zserio::JsonParserException& e)
        {
            threw = true;
            error = e.what();
        }
        CHECKM(threw == !ok, (threw ? "valid document rejected: " + error : "malformed document accepted") << " in " << tail(l.text));
        CHECKM(rec.evs.size() <= ref.evs.size() && (threw || rec.evs.size() == ref.evs.size()),
                rec.evs.size() << " events, expected " << ref.evs.size() << " in " << tail(l.text));
        for (size_t i = 0; i < rec.evs.size(); ++i)
            CHECKM(rec.evs[i] == ref.evs[i], "event " << i << ": " << rec.evs[i].str() << " expected " << ref.evs[i].str() << " in " << tail(l.text));
        if (threw)
        {
            std::string pos = ":" + std::to_string(line) + ":" + std::to_string(col) + ":";
            CHECKM(error.find(pos) != std::string::npos, "error '" << error << "' expected position " << pos << " in " << tail(l.text));
            return;
        }
        CHECK_EQM(parser.getLine(), line, tail(l.text));
        CHECK_EQM(parser.getColumn(), col, tail(l.text));
        CHECK_EQM(result, ref.p >= toks.size(), tail(l.text));
        if (end) return;
    }
}

template <class T>
void intCase(pbt::Gen& g)
{
    T v = g.integral<T>();
    std::ostringstream os;
    zserio::JsonEncoder::encodeIntegral(os, v);
    std::string t = os.str();
    CHECK_EQ(t, std::to_string(v));
    auto [r, n] = decode(t);
    CHECKM(r.has_value(), t);
    CHECK_EQ(n, t.size());
    Val e = v < 0 ? vInt(static_cast<int64_t>(v)) : vUint(static_cast<uint64_t>(v));
    CHECKM(*r == e, r->str() << " expected " << e.str());
    g.nontrivial(v != 0);
}
} // namespace

SUBCHECK(encode_string, 300000, 12000000, "random string content (arbitrary bytes, UTF-8, special characters); non-trivial: needs an escape")
{
    std::string s = genContent(g, 40);
    std::ostringstream os;
    zserio::JsonEncoder::encodeString(os, s);
    std::string t = os.str();
    CHECK_EQ(refUnescape(t), s);
    auto [r, n] = decode(t);
    CHECKM(r.has_value(), pbt::show(t));
    CHECK_EQ(n, t.size());
    CHECKM(*r == vStr(s), r->str() << " from " << pbt::show(t));
    // what follows the closing quote does not matter
    std::string more = t + genContent(g, 8);
    auto [r2, n2] = decode<PmrA>(more);
    CHECKM(r2.has_value() && *r2 == vStr(s) && n2 == t.size(), pbt::show(more));
    g.nontrivial(t.size() != s.size() + 2);
}

SUBCHECK(encode_integer, 200000, 8000000, "edge-biased integer of a random integral type; non-trivial: not zero")
{
    switch (g.below(9))
    {
    case 0: intCase<int8_t>(g); break;
    case 1: intCase<uint8_t>(g); break;
    case 2: intCase<int16_t>(g); break;
    case 3: intCase<uint16_t>(g); break;
    case 4: intCase<int32_t>(g); break;
    case 5: intCase<uint32_t>(g); break;
    case 6: intCase<int64_t>(g); break;
    case 7: intCase<uint64_t>(g); break;
    default:
        {
            bool b = g.flip();
            std::ostringstream os;
            zserio::JsonEncoder::encodeBool(os, b);
            if (g.flip())
            {
                // an integer following on the same stream is not affected
                zserio::JsonEncoder::encodeIntegral(os, uint8_t(1));
                CHECK_EQ(os.str(), std::string(b ? "true1" : "false1"));
                break;
            }
            auto [r, n] = decode(os.str());
            CHECKM(r.has_value() && *r == vBool(b) && n == os.str().size(), os.str());
            std::ostringstream on;
            zserio::JsonEncoder::encodeNull(on);
            auto [rn, nn] = decode(on.str());
            CHECKM(rn.has_value() && *rn == vNull() && nn == 4, on.str());
        }
    }
}

SUBCHECK(encode_float, 300000, 12000000, "any double or float (all classes); non-trivial: finite and not integral")
{
    double d;
    switch (g.below(4))
    {
    case 0: d = static_cast<double>(g.anyFloat()); break;
    case 1: d = static_cast<double>(g.sbits(64)) * g.pick({1.0, 0.5, 0.1, 10.0, 1e-5}); break;
    case 2: d = std::nextafter(g.pick({1e15, 1e16, 1e17, 1.0, 0.1, 0.3, 9007199254740992.0, 1e22, 1e23, 5e-324, 2.2250738585072014e-308}), g.pick({-1e300, 1e300})); break;
    default: d = g.anyDouble();
    }
    if (g.flip()) d = -d;
    std::ostringstream os;
    zserio::JsonEncoder::encodeFloatingPoint(os, d);
    std::string t = os.str();
    if (std::isnan(d)) CHECK_EQ(t, std::string("NaN"));
    else if (std::isinf(d)) CHECK_EQ(t, std::string(d < 0 ? "-Infinity" : "Infinity"));
    else CHECKM(isJsonNumber(t), t);
    auto [r, n] = decode(t);
    CHECKM(r.has_value(), t);
    CHECK_EQ(n, t.size());
    CHECKM(*r == vDbl(d), r->str() << " expected " << vDbl(d).str() << " text " << t);
    // a second value encoded to the same stream is independent of the first
    double d2 = g.anyDouble();
    std::ostringstream o2;
    zserio::JsonEncoder::encodeFloatingPoint(o2, d2);
    zserio::JsonEncoder::encodeFloatingPoint(os, d2);
    CHECK_EQ(os.str(), t + o2.str());
    g.nontrivial(std::isfinite(d) && d != std::floor(d));
}

SUBCHECK(decode_number, 300000, 12000000, "number text (in and out of range, followed by other text, exact-size buffer); non-trivial: a value is decoded")
{
    std::string follow = g.pick({"", "", ",", " ", "]", "}", "\n", "x", "\"", "-", ":"});
    switch (g.below(3))
    {
    case 0:
        {
            std::string t = genIntText(g, true);
            auto e = refInteger(t);
            bool over = false;
            auto [r, n] = decode(t + follow, &over);
            CHECK_EQM(over, !e.has_value(), t);
            CHECK_EQM(r.has_value(), e.has_value(), t);
            CHECK_EQM(n, t.size(), t);
            if (e) CHECKM(*r == *e, r->str() << " expected " << e->str());
            g.nontrivial(e.has_value());
            break;
        }
    case 1:
        {
            std::string t = genDoubleText(g);
            auto [r, n] = decode(t + follow);
            CHECKM(r.has_value(), t);
            CHECK_EQM(n, t.size(), t);
            CHECKM(*r == vDbl(std::strtod(t.c_str(), nullptr)), r->str() << " from " << t);
            g.nontrivial();
            break;
        }
    default:
        {
            // not a number
            std::string t = g.pick({"-", "1e", "1e+", "1e-", "-1e", "1.5e", ".", "-.", "e5", "+1", "-e", "-x", "x", "E", "-+5", ".e5", "1.0E+", "--1"});
            if (follow == "-" || follow == "x") follow = "";
            auto [r, n] = decode(t + follow);
            CHECKM(!r.has_value(), t + follow << " accepted as " << r->str());
            CHECKM(n <= t.size() + follow.size(), t);
        }
    }
}

SUBCHECK(decode_string, 300000, 12000000, "string text with random supported escapes, truncations and bad escapes; non-trivial: has an escape")
{
    std::string s = genContent(g, 20);
    std::string t = refEscape(g, s);
    auto [r, n] = decode(t + g.pick({"", ",", "\"", " x"}));
    CHECKM(r.has_value(), pbt::show(t));
    CHECK_EQM(n, t.size(), pbt::show(t));
    CHECKM(*r == vStr(s), r->str() << " expected " << vStr(s).str() << " from " << pbt::show(t));
    g.nontrivial(t.find('\\') != std::string::npos);
    // every truncation is rejected
    size_t cut = 1 + g.below(t.size() - 1);
    auto [rc, nc] = decode(t.substr(0, cut));
    CHECKM(!rc.has_value(), pbt::show(t.substr(0, cut)) << " accepted as " << rc->str());
    CHECKM(nc <= cut, pbt::show(t.substr(0, cut)));
    // unknown escapes are rejected
    std::string bad = "\"" + g.ascii(3);
    for (char& c : bad)
        if (c == '\\' || (c == '"' && &c != &bad[0])) c = '_';
    bad += g.pick({"\\x", "\\a", "\\0", "\\'", "\\u", "\\u0", "\\u00", "\\u004", "\\u00G0", "\\u000g", "\\u00 1", "\\U0041", "\\ ", "\\v", "\\B", "\\N"});
    bad += "\"";
    auto [rb, nb] = decode(bad);
    CHECKM(!rb.has_value(), pbt::show(bad) << " accepted as " << rb->str());
    CHECKM(nb <= bad.size(), pbt::show(bad));
}

SUBCHECK(decode_literal, 100000, 4000000, "literals, their truncations and misspellings; non-trivial: misspelled")
{
    struct L
    {
        const char* t;
        Val v;
    };
    static const std::vector<L> LS = {{"null", vNull()}, {"true", vBool(true)}, {"false", vBool(false)}, {"NaN", vDbl(NAN)},
            {"Infinity", vDbl(INFINITY)}, {"-Infinity", vDbl(-INFINITY)}};
    const L& l = g.pick(LS);
    std::string t = l.t;
    std::string follow = g.pick({"", ",", "]", " ", "}", "\n"});
    auto [r, n] = decode(t + follow);
    CHECKM(r.has_value() && *r == l.v && n == t.size(), t);
    std::string bad = t;
    if (g.flip()) bad.resize(1 + g.below(t.size() - 1));
    else
    {
        size_t p = 1 + g.below(t.size() - 1);
        bad[p] = g.pick({'x', 'A', 'z', '0', ' ', '"', '\xff'});
        if (bad == t) bad[p] = '#';
    }
    if (bad.size() >= 2 && bad[0] == '-' && bad[1] >= '0' && bad[1] <= '9') return; // that is a number
    auto [rb, nb] = decode(bad + follow);
    CHECKM(!rb.has_value(), bad << " accepted as " << rb->str());
    CHECKM(nb <= bad.size() + follow.size(), bad);
    g.nontrivial();
}

SUBCHECK(tokens, 25000, 1000000, "random token sequence, with token positions around the 64 KiB input chunk boundaries; non-trivial: text crosses a boundary")
{
    std::vector<Tok> toks;
    bool pad = !g.chance(1, 3);
    size_t n = g.size(12);
    for (size_t i = 0; i < n; ++i)
    {
        if (g.chance(2, 5)) toks.push_back(punct(g.pick({'{', '}', '[', ']', ':', ','})));
        else toks.push_back(value(genScalar(g, 12)));
    }
    if (pad && g.chance(1, 4))
    {
        // a token longer than one chunk
        std::string s(CHUNK + g.below(CHUNK), 'x');
        s[g.below(s.size())] = '"';
        toks.push_back(value({refEscape(g, s.substr(0, 0)), vStr("")}));
        std::ostringstream os;
        zserio::JsonEncoder::encodeString(os, s);
        toks.back().text = os.str();
        toks.back().val = vStr(s);
    }
    bool garbage = g.chance(1, 3);
    if (garbage)
    {
        Tok t{zserio::JsonToken::UNKNOWN, g.pick({"nul", "tru", "f", "\"abc", "-", "@", "nulx", "1e", "\"\\x\"", "\"\\u1234\"", "Inf", "-Inf", "\\",
                  "18446744073709551616", "-9223372036854775809", "'a'", "N", "#", "."}),
                {}, 0, 0};
        toks.push_back(t);
    }
    Layout l = layout(g, toks, pad, g.pick({0, 1, 3}));
    if (garbage && !l.text.empty() && g.flip())
    {
        // nothing after the malformed token
        size_t end = l.text.find_last_not_of(" \t\r\n");
        if (toks.back().text != "\"abc") l.text.resize(end + 1);
    }
    size_t valid = toks.size() - (garbage ? 1 : 0);
    if (g.flip()) checkTokens<std::allocator<uint8_t>>(toks, l, valid, garbage);
    else checkTokens<PmrA>(toks, l, valid, garbage);
    g.nontrivial(l.text.size() > CHUNK);
}

SUBCHECK(documents, 100000, 4000000, "random sequence of JSON documents, random white space; non-trivial: nested")
{
    std::vector<Tok> toks;
    size_t n = g.below(8) == 0 ? 0 : 1 + (g.chance(1, 4) ? g.below(3) : 0);
    for (size_t i = 0; i < n; ++i)
    {
        size_t budget = 40;
        genElement(g, toks, g.chance(1, 30) ? 30 : 4, budget);
    }
    bool pad = g.chance(1, 10);
    Layout l = layout(g, toks, pad, g.pick({0, 1, 3}));
    if (g.flip()) checkParse<std::allocator<uint8_t>>(toks, l);
    else checkParse<PmrA>(toks, l);
    g.nontrivial(toks.size() > 3);
}

SUBCHECK(nesting, 3000, 60000, "documents nested hundreds or thousands of levels deep, complete, cut short or closed wrongly; non-trivial: 500 levels or more")
{
    // 300000 levels are used only if the overflow of the stack they cause is not listed as a known finding
    const size_t depth = !pbt::known("P18-deep-nesting") && g.chance(1, 100) ? 300000 : g.pick<size_t>({3, 60, 255, 256, 257, 500, 1000, 1024, 2000, 3000}) + g.below(9);
    const uint64_t objects = g.draw(3) == 0 ? g.draw(UINT64_MAX) : g.flip() ? 0 : UINT64_MAX;
    auto isObject = [&](size_t level) { return ((objects >> (level % 64)) & 1) != 0; };
    std::string text;
    std::vector<Ev> want;
    for (size_t i = 0; i < depth; ++i)
    {
        if (isObject(i)) { text += "{\"k\":"; want.push_back({'{', {}}); want.push_back({'k', vStr("k")}); }
        else { text += '['; want.push_back({'[', {}}); }
    }
    text += "7";
    want.push_back({'v', vUint(7)});
    const size_t fault = g.below(4); // 2: cut, 3: one wrong closing
    const size_t at = g.below(depth);
    bool ok = true;
    for (size_t i = depth; i-- > 0;)
    {
        if (fault == 2 && i == at) { ok = false; break; }
        bool obj = isObject(i);
        if (fault == 3 && i == at) { text += obj ? ']' : '}'; ok = false; break; }
        text += obj ? '}' : ']';
        want.push_back({obj ? '}' : ']', {}});
    }
    g.note("depth " + std::to_string(depth) + " fault " + std::to_string(fault) + " at " + std::to_string(at));
    g.nontrivial(depth >= 500);
    std::istringstream in(text);
    Recorder<std::allocator<uint8_t>> rec;
    zserio::BasicJsonParser<> p(in, rec);
    if (ok) CHECK(p.parse());
    else CHECK_THROWS(zserio::JsonParserException, p.parse());
    CHECK_EQ(rec.evs.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) CHECKM(rec.evs[i] == want[i], "event " << i << ": " << rec.evs[i].str() << " want " << want[i].str());
}

SUBCHECK(malformed, 200000, 8000000, "JSON document with one to three token edits, judged by a reference grammar; non-trivial: malformed")
{
    std::vector<Tok> toks;
    size_t budget = 20;
    genElement(g, toks, 3, budget);
    auto rnd = [&]() {
        if (g.chance(2, 3)) return punct(g.pick({'{', '}', '[', ']', ':', ','}));
        return value(genScalar(g, 4));
    };
    size_t edits = 1 + (g.chance(1, 4) ? g.below(3) : 0);
    for (size_t k = 0; k < edits; ++k)
    {
        size_t p = g.below(toks.size() + 1);
        switch (g.below(4))
        {
        case 0: toks.insert(toks.begin() + static_cast<ptrdiff_t>(p), rnd()); break;
        case 1:
            if (p < toks.size()) toks.erase(toks.begin() + static_cast<ptrdiff_t>(p));
            break;
        case 2:
            if (p < toks.size()) toks[p] = rnd();
            break;
        default:
            if (p + 1 < toks.size()) std::swap(toks[p], toks[p + 1]);
        }
    }
    Layout l = layout(g, toks, g.chance(1, 40), g.pick({0, 1}));
    RefParser ref{toks, 0, {}};
    bool ok = true;
    while (ok && ref.p < toks.size()) ok = ref.element();
    g.nontrivial(!ok);
    checkParse<std::allocator<uint8_t>>(toks, l);
}

SUBCHECK(hostile, 200000, 8000000, "mutated or random text; either a parser exception or events that survive a re-encode and re-parse; non-trivial: accepted")
{
    std::string text;
    if (g.chance(1, 3)) text = g.bytes(60);
    else
    {
        std::vector<Tok> toks;
        size_t budget = 10;
        genElement(g, toks, 3, budget);
        text = layout(g, toks, false, 1).text;
        size_t edits = g.below(4);
        for (size_t k = 0; k < edits && !text.empty(); ++k)
        {
            size_t p = g.below(text.size());
            switch (g.below(3))
            {
            case 0: text[p] = static_cast<char>(g.below(256)); break;
            case 1: text.erase(p, 1 + g.below(3)); break;
            default: text.insert(p, g.pick({"\"", "\\", "e", ".", "-", "0", ",", "null", "{", "]", "\r", "\\u00", "1e5"}));
            }
        }
    }
    auto run = [](const std::string& t, std::vector<Ev>& evs) -> bool {
        std::istringstream in(t);
        Recorder<std::allocator<uint8_t>> rec;
        zserio::BasicJsonParser<> p(in, rec);
        bool ok = true;
        try
        {
            for (size_t i = 0; i <= t.size(); ++i)
            {
                if (p.parse()) break;
                CHECKM(i < t.size(), "does not terminate on " << pbt::show(t));
            }
        }
        catch (const zserio::JsonParserException&)
        {
            ok = false;
        }
        evs = rec.evs;
        return ok;
    };
    std::vector<Ev> e1, e2;
    bool ok = run(text, e1);
    if (!ok) return;
    // re-encode
    std::ostringstream os;
    std::string stack;
    bool first = true, afterKey = false;
    for (const Ev& e : e1)
    {
        bool close = e.k == '}' || e.k == ']';
        if (!first && !close && !afterKey) os << (stack.empty() ? "\n" : ",");
        first = e.k == '{' || e.k == '[';
        afterKey = e.k == 'k';
        if (e.k == '{' || e.k == '[') { stack += e.k; os << e.k; }
        else if (close) { stack.pop_back(); os << e.k; }
        else switch (e.v.k)
        {
        case Val::NUL: zserio::JsonEncoder::encodeNull(os); break;
        case Val::BOOL: zserio::JsonEncoder::encodeBool(os, e.v.b); break;
        case Val::INT: zserio::JsonEncoder::encodeIntegral(os, e.v.i); break;
        case Val::UINT: zserio::JsonEncoder::encodeIntegral(os, e.v.u); break;
        case Val::DBL: zserio::JsonEncoder::encodeFloatingPoint(os, e.v.d); break;
        default: zserio::JsonEncoder::encodeString(os, e.v.s);
        }
        if (afterKey) os << ":";
    }
    CHECK(stack.empty());
    CHECKM(run(os.str(), e2), "re-encoded text rejected: " << pbt::show(os.str()) << " of " << pbt::show(text));
    CHECK_EQ(e1.size(), e2.size());
    for (size_t i = 0; i < e1.size(); ++i)
    {
        Ev x = e1[i];
        // "-0" is a signed zero integer; encoded as 0 it comes back unsigned
        if (x.v.k == Val::INT && x.v.i >= 0) x.v = vUint(static_cast<uint64_t>(x.v.i));
        CHECKM(x == e2[i], x.str() << " vs " << e2[i].str() << " of " << pbt::show(text));
    }
    g.nontrivial(!e1.empty());
}
