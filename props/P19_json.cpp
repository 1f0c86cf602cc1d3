// P19: export to JSON and import of JSON.
// Oracles: an independent JSON parser and object model for exported text, import of exported and of independently rendered
// text must give an equal object, and documents with exactly one defect must be refused.
#include <fstream>
#include <sstream>
#include <unistd.h>

#include "reflcheck.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/JsonReader.h"
#include "zserio/JsonWriter.h"
#include "zserio/Walker.h"

using namespace rf;

namespace
{
// text of a bytes or bit buffer value with one part that does not belong there
std::string objectMisfit(pbt::Gen& g, bool withSize)
{
    const std::vector<std::string> bad = {"\"1\"", "true", "false", "null", "1.5", "-1", "256", "18446744073709551615", "{}", "[]", "[1]", "{\"buffer\":[1]}", "{\"bitSize\":1}", "\"\""};
    const size_t n = 1 + g.size(5), at = g.below(n), what = g.below(withSize ? 5 : 4);
    std::string buffer = "[";
    for (size_t i = 0; i < n; ++i) buffer += (i ? "," : "") + (what == 0 && i == at ? g.pick(bad) : std::to_string(g.below(256)));
    buffer += "]";
    std::string key = "\"buffer\"";
    if (what == 1)
    {
        do buffer = g.pick(bad); while (buffer[0] == '[');
    }
    if (what == 2) key = g.pick({std::string("\"Buffer\""), std::string("\"buffe\""), std::string("\"buffer \""), std::string("\"\"")});
    if (what == 3) buffer += g.pick({std::string(",\"x\":1"), std::string(",\"\":[]"), std::string(",\"bitsize\":8"), std::string(",\"buffers\":[1]")});
    std::string size = "\"bitSize\":";
    if (what == 4)
    {
        std::string v;
        do v = g.pick(bad); while (v == "256"); // its own defect only for short buffers
        size += v;
    }
    else size += std::to_string(n * 8 - g.below(8));
    const std::string first = key + ":" + buffer;
    if (!withSize) return "{" + first + "}";
    return g.flip() ? "{" + first + "," + size + "}" : "{" + size + "," + first + "}";
}
// ---------------------------------------------------------------------------------------------- independent JSON parser
struct J
{
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
    std::string t; // number text, string content, true / false
    std::vector<std::pair<std::string, J>> obj;
    std::vector<J> arr;
};
struct Parser
{
    const std::string& s;
    size_t p = 0;
    [[noreturn]] void bad(const char* what) const { throw pbt::Failure{std::string("exported text is not well-formed JSON: ") + what + " at " + std::to_string(p) + " of " + pbt::show(s)}; }
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
    bool eat(char c)
    {
        ws();
        if (p < s.size() && s[p] == c) { ++p; return true; }
        return false;
    }
    bool word(const char* w)
    {
        size_t n = std::strlen(w);
        if (s.compare(p, n, w) == 0) { p += n; return true; }
        return false;
    }
    std::string str()
    {
        std::string r;
        for (;;)
        {
            if (p >= s.size()) bad("open string");
            char c = s[p++];
            if (c == '"') return r;
            if (static_cast<unsigned char>(c) < 0x20) bad("control character");
            if (c != '\\') { r += c; continue; }
            if (p >= s.size()) bad("open escape");
            c = s[p++];
            const char* from = "\"\\/bfnrt";
            const char* to = "\"\\/\b\f\n\r\t";
            if (const char* q = std::strchr(from, c)) { r += to[q - from]; continue; }
            if (c != 'u' || p + 4 > s.size()) bad("escape");
            unsigned cp = 0;
            for (int i = 0; i < 4; ++i)
            {
                char h = s[p++];
                if (!std::isxdigit(static_cast<unsigned char>(h))) bad("hex digit");
                cp = cp * 16 + static_cast<unsigned>(h <= '9' ? h - '0' : (h | 0x20) - 'a' + 10);
            }
            if (cp < 0x80) r += static_cast<char>(cp);
            else if (cp < 0x800) { r += static_cast<char>(0xC0 | (cp >> 6)); r += static_cast<char>(0x80 | (cp & 0x3F)); }
            else bad("unexpected code point");
        }
    }
    J value(int depth = 0)
    {
        if (depth > 200) bad("depth");
        ws();
        J j;
        if (p >= s.size()) bad("end");
        char c = s[p];
        if (c == '{')
        {
            ++p;
            j.k = J::OBJ;
            if (eat('}')) return j;
            do
            {
                if (!eat('"')) bad("key");
                std::string key = str();
                if (!eat(':')) bad("colon");
                j.obj.emplace_back(key, value(depth + 1));
            } while (eat(','));
            if (!eat('}')) bad("object end");
            return j;
        }
        if (c == '[')
        {
            ++p;
            j.k = J::ARR;
            if (eat(']')) return j;
            do j.arr.push_back(value(depth + 1)); while (eat(','));
            if (!eat(']')) bad("array end");
            return j;
        }
        if (c == '"') { ++p; j.k = J::STR; j.t = str(); return j; }
        if (word("null")) return j;
        if (word("true")) { j.k = J::BOOL; j.t = "true"; return j; }
        if (word("false")) { j.k = J::BOOL; j.t = "false"; return j; }
        j.k = J::NUM;
        for (const char* w : {"NaN", "Infinity", "-Infinity"}) if (word(w)) { j.t = w; return j; } // documented extension
        size_t b = p;
        auto digits = [&] { size_t q = p; while (p < s.size() && std::isdigit(static_cast<unsigned char>(s[p]))) ++p; if (p == q) bad("digits"); };
        if (s[p] == '-') ++p;
        if (p < s.size() && s[p] == '0') ++p;
        else digits();
        if (p < s.size() && s[p] == '.') { ++p; digits(); }
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { ++p; if (p < s.size() && (s[p] == '+' || s[p] == '-')) ++p; digits(); }
        j.t = s.substr(b, p - b);
        return j;
    }
    J document()
    {
        J j = value();
        ws();
        if (p != s.size()) bad("trailing text");
        return j;
    }
};

// ---------------------------------------------------------------------------------------------- exported text vs model
bool isInt(const std::string& t) { return t.find_first_not_of("-0123456789") == std::string::npos; }
bool maskDenotes(const std::string& text, const std::vector<std::pair<std::string, uint64_t>>& items, uint64_t v)
{
    if (!text.empty() && std::isdigit(static_cast<unsigned char>(text[0])))
    {
        size_t e = text.find_first_not_of("0123456789");
        std::string rest = e == std::string::npos ? "" : text.substr(e);
        return text.substr(0, e) == std::to_string(v) && (rest.empty() || (rest.substr(0, 4) == " /* " && rest.substr(rest.size() - 3) == " */"));
    }
    uint64_t got = 0;
    size_t p = 0;
    for (;;)
    {
        size_t e = text.find(" | ", p);
        std::string name = text.substr(p, e == std::string::npos ? e : e - p);
        bool found = false;
        for (const auto& it : items) if (it.first == name) { got |= it.second; found = true; }
        if (!found) return false;
        if (e == std::string::npos) break;
        p = e + 3;
    }
    return got == v;
}
template <class A>
void sameValue(const J& j, const Node& n, const zserio::IBasicTypeInfo<A>& ti, bool names, const std::string& w)
{
    auto bytes = [&](const J& b) {
        CHECKM(b.k == J::ARR, w << " buffer");
        std::string r;
        for (const auto& e : b.arr)
        {
            CHECKM(e.k == J::NUM && isInt(e.t) && std::stol(e.t) >= 0 && std::stol(e.t) <= 255, w << " byte " << e.t);
            r += static_cast<char>(std::stol(e.t));
        }
        CHECKM(r == n.s, w << " bytes " << pbt::hex(r.data(), r.size()) << " want " << show(n));
    };
    std::string raw = n.k == Node::INT || n.sgn ? std::to_string(n.i) : std::to_string(n.u);
    switch (n.k)
    {
    case Node::ABSENT: CHECKM(j.k == J::NUL, w << " must be null"); return;
    case Node::BOOL: CHECKM(j.k == J::BOOL && j.t == (n.u ? "true" : "false"), w << show(n)); return;
    case Node::INT:
    case Node::UINT: CHECKM(j.k == J::NUM && j.t == raw, w << " " << j.t << " want " << raw); return;
    case Node::FLT:
    {
        CHECKM(j.k == J::NUM, w);
        double d = j.t == "NaN" ? std::nan("") : j.t == "Infinity" ? HUGE_VAL : j.t == "-Infinity" ? -HUGE_VAL : std::strtod(j.t.c_str(), nullptr);
        CHECKM(sameDouble(d, n.d), w << " " << j.t << " want " << show(n));
        return;
    }
    case Node::STR: CHECKM(j.k == J::STR && j.t == n.s, w << " " << pbt::show(j.t) << " want " << show(n)); return;
    case Node::BYTES:
        CHECKM(j.k == J::OBJ && j.obj.size() == 1 && j.obj[0].first == "buffer", w);
        bytes(j.obj[0].second);
        return;
    case Node::BITS:
        CHECKM(j.k == J::OBJ && j.obj.size() == 2 && j.obj[0].first == "buffer" && j.obj[1].first == "bitSize", w);
        bytes(j.obj[0].second);
        CHECKM(j.obj[1].second.k == J::NUM && j.obj[1].second.t == std::to_string(n.bits), w << " bitSize");
        return;
    case Node::ENUM:
        if (!names) CHECKM(j.k == J::NUM && j.t == raw, w << " " << j.t);
        else
        {
            std::string want;
            for (const auto& it : ti.getEnumItems()) if (it.value == (n.sgn ? static_cast<uint64_t>(n.i) : n.u)) want = it.schemaName;
            CHECKM(j.k == J::STR && j.t == want, w << " " << j.t << " want " << want);
        }
        return;
    case Node::MASK:
        if (!names) CHECKM(j.k == J::NUM && j.t == raw, w << " " << j.t);
        else
        {
            std::vector<std::pair<std::string, uint64_t>> items;
            for (const auto& it : ti.getBitmaskValues()) items.emplace_back(it.schemaName, it.value);
            CHECKM(j.k == J::STR && maskDenotes(j.t, items, n.u), w << " " << pbt::show(j.t) << " want " << raw);
        }
        return;
    default: break;
    }
    if (n.k == Node::ARRAY)
    {
        CHECKM(j.k == J::ARR, w);
        CHECK_EQM(j.arr.size(), n.elems.size(), w);
        for (size_t i = 0; i < n.elems.size(); ++i) sameValue<A>(j.arr[i], n.elems[i], ti, names, w + "[" + std::to_string(i) + "]");
        return;
    }
    CHECKM(j.k == J::OBJ, w);
    size_t at = 0;
    for (const auto& f : n.fields)
    {
        if (n.k == Node::VARIANT && f.first != n.choice) continue;
        CHECKM(at < j.obj.size() && j.obj[at].first == f.first, w << "." << f.first << " missing");
        const zserio::BasicFieldInfo<A>* fi = nullptr;
        for (const auto& x : ti.getFields()) if (x.schemaName == f.first) fi = &x;
        CHECK(fi != nullptr);
        sameValue<A>(j.obj[at].second, f.second, fi->typeInfo, names, w + "." + f.first);
        ++at;
    }
    CHECKM(at == j.obj.size(), w << " has additional fields");
}

// ---------------------------------------------------------------------------------------------- independent renderer
template <class A>
struct Render
{
    pbt::Gen& g;
    size_t defectAt = SIZE_MAX; // index of the value replaced by a defective one
    size_t at = 0;
    std::string defect;

    std::string ws() { static const char* w[] = {"", "", "", " ", "\n", "\t", "\r\n ", "  "}; return w[g.below(8)]; }
    std::string str(const std::string& s)
    {
        std::string r = "\"";
        char b[8];
        for (char c : s)
        {
            unsigned char u = static_cast<unsigned char>(c);
            if (u < 0x20 || (u < 0x7f && g.chance(1, 16))) { std::snprintf(b, sizeof b, g.flip() ? "\\u%04x" : "\\u%04X", u); r += b; }
            else if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else r += c;
        }
        return r + "\"";
    }
    std::string bufText(const std::string& s)
    {
        std::string r = "[" + ws();
        for (size_t i = 0; i < s.size(); ++i) r += (i ? "," + ws() : "") + std::to_string(static_cast<unsigned char>(s[i])) + ws();
        return r + "]";
    }
    static std::string pick(pbt::Gen& g, std::vector<std::string> v) { return v[g.below(v.size())]; }
    std::string bad(const Node& n, const zserio::IBasicTypeInfo<A>& ti, bool root, bool element)
    {
        std::vector<std::string> c = {"[[]]", "[1]"};
        unsigned bits = static_cast<unsigned>(n.width * 8);
        auto add = [&](std::initializer_list<const char*> l) { for (auto x : l) c.emplace_back(x); };
        if (element && n.k != Node::ABSENT) add({"null"});
        switch (n.k)
        {
        case Node::BOOL: add({"1", "0", "\"true\"", "1.0", "{}", "[]"}); break;
        case Node::INT:
        case Node::UINT:
            add({"\"1\"", "true", "1.0", "1e2", "{}", "[]", "-0.0", "NaN", "18446744073709551616", "-9223372036854775809"});
            if (n.k == Node::UINT) add({"-1", "-9223372036854775808"});
            if (n.k == Node::INT && bits < 64) { c.push_back(std::to_string(int64_t(1) << (bits - 1))); c.push_back(std::to_string(-(int64_t(1) << (bits - 1)) - 1)); }
            if (n.k == Node::INT) add({"9223372036854775808"});
            if (n.k == Node::UINT && bits < 64) { c.push_back(std::to_string(uint64_t(1) << bits)); c.push_back("4294967296"); }
            break;
        case Node::FLT: add({"\"1.0\"", "true", "{}", "[]"}); break;
        case Node::STR: add({"1", "-1", "true", "1.5", "{}", "[]"}); break;
        case Node::BYTES:
            for (int i = 0; i < 5; ++i) c.push_back(objectMisfit(g, false));
            add({"1", "\"text\"", "true", "[]", "{}", "{\"buffer\":[256]}", "{\"buffer\":[-1]}", "{\"buffer\":[\"a\"]}", "{\"buffer\":1}", "{\"buffer\":[1],\"bitSize\":8}",
                    "{\"buffer\":[1.0]}", "{\"buffer\":{}}", "{\"buffer\":[[1]]}", "{\"buffer\":[null]}", "{\"buffer\":[true]}", "{\"bytes\":[]}", "{\"buffer\":null}"});
            break;
        case Node::BITS:
            for (int i = 0; i < 8; ++i) c.push_back(objectMisfit(g, true));
            add({"1", "\"text\"", "true", "[]", "{}", "{\"buffer\":[256],\"bitSize\":8}", "{\"buffer\":[-1],\"bitSize\":8}", "{\"buffer\":[\"a\"],\"bitSize\":8}", "{\"buffer\":1,\"bitSize\":8}",
                    "{\"buffer\":[1.0],\"bitSize\":8}", "{\"buffer\":[1]}", "{\"bitSize\":8}", "{\"bitSize\":0}", "{\"buffer\":[1],\"bitSize\":9}", "{\"bitSize\":9,\"buffer\":[1]}", "{\"buffer\":[1],\"bitSize\":-1}",
                    "{\"buffer\":[1],\"bitSize\":\"8\"}", "{\"buffer\":[1],\"bitSize\":null}", "{\"buffer\":[1],\"bitSize\":[8]}", "{\"buffer\":[1],\"bitSize\":18446744073709551615}", "{\"buffer\":[1],\"x\":8}",
                    "{\"buffer\":[],\"bitSize\":1}"});
            break;
        case Node::ENUM:
        {
            add({"\"\"", "\"noSuchItem\"", "true", "1.0", "{}", "[]"});
            const auto items = ti.getEnumItems();
            std::string name(items[g.below(items.size())].schemaName);
            for (std::string t : {name + "x", " " + name, name + " ", name.substr(0, name.size() - 1)})
            {
                bool is = false;
                for (const auto& it : items) is = is || it.schemaName == t;
                if (!is) c.push_back("\"" + t + "\"");
            }
            for (int i = 0; i < 4; ++i)
            {
                int64_t s = g.sbits(bits);
                uint64_t u = n.sgn ? static_cast<uint64_t>(s) : g.ubits(bits);
                bool is = false;
                for (const auto& it : items) is = is || it.value == u;
                if (!is) c.push_back(n.sgn ? std::to_string(s) : std::to_string(u));
            }
            if (!n.sgn) add({"-1"});
            break;
        }
        case Node::MASK:
        {
            add({"\"\"", "\" \"", "\"noSuchItem\"", "true", "1.0", "{}", "[]", "-1", "\"-1\"", "\"18446744073709551616\"", "18446744073709551616"});
            const auto items = ti.getBitmaskValues();
            std::string x(items[g.below(items.size())].schemaName), y(items[g.below(items.size())].schemaName);
            for (const std::string& t : {x + " |", "| " + x, x + " || " + y, x + " ", x + " " + y, x + ", " + y, x + " | noSuchItem", x + "|" + y + "#", " " + x}) c.push_back("\"" + t + "\"");
            if (bits < 64) c.push_back(std::to_string(uint64_t(1) << bits));
            break;
        }
        case Node::ARRAY: c = {"1", "\"text\"", "true", "{}", "[[]]", "[null]", "{\"\":1}", "1.5", "{\"buffer\":[]}", "{\"buffer\":[],\"bitSize\":0}"}; break;
        case Node::ABSENT: return "{\"noSuchField\":1}"; // absent optional fields: something no field accepts
        default:
            if (root) c = {"[]", "[{}]", "1", "-1", "\"text\"", "true", "null", "1.5"};
            else add({"1", "\"text\"", "true", "[]", "1.5"});
            add({"{\"noSuchField\":1}", "{\"noSuchField\":null}", "{\"noSuchField\":{}}", "{\"noSuchField\":[]}", "{\"\":1}", "{\"\":{}}", "{\"\":[]}", "{\"\":null}"});
            break;
        }
        return pick(g, c);
    }
    std::string value(const Node& n, const zserio::IBasicTypeInfo<A>& ti, bool root = false, bool element = false)
    {
        if (at++ == defectAt)
        {
            defect = bad(n, ti, root, element);
            return defect;
        }
        std::string raw = n.k == Node::INT || n.sgn ? std::to_string(n.i) : std::to_string(n.u);
        switch (n.k)
        {
        case Node::ABSENT: return "null";
        case Node::BOOL: return n.u ? "true" : "false";
        case Node::INT:
        case Node::UINT: return raw;
        case Node::FLT:
        {
            if (std::isnan(n.d)) return "NaN";
            if (std::isinf(n.d)) return n.d > 0 ? "Infinity" : "-Infinity";
            if (std::abs(n.d) < 1e9 && std::trunc(n.d) == n.d && !(n.d == 0 && std::signbit(n.d)) && g.flip()) return std::to_string(static_cast<int64_t>(n.d));
            char b[64];
            std::snprintf(b, sizeof b, g.flip() ? "%.17g" : "%.20e", n.d);
            std::string t = b;
            if (t.find_first_of(".eE") == std::string::npos) t += ".0";
            return t;
        }
        case Node::STR: return str(n.s);
        case Node::BYTES: return "{" + ws() + "\"buffer\"" + ws() + ":" + ws() + bufText(n.s) + ws() + "}";
        case Node::BITS:
        {
            std::string a = "\"buffer\"" + ws() + ":" + ws() + bufText(n.s), b = "\"bitSize\":" + ws() + std::to_string(n.bits);
            return g.flip() ? "{" + a + ws() + "," + b + "}" : "{" + b + "," + ws() + a + "}";
        }
        case Node::ENUM:
            if (g.flip())
                for (const auto& it : ti.getEnumItems())
                    if (it.value == (n.sgn ? static_cast<uint64_t>(n.i) : n.u)) return str(std::string(it.schemaName));
            return raw;
        case Node::MASK:
        {
            unsigned how = static_cast<unsigned>(g.below(3));
            if (how == 0) return raw;
            if (how == 1) return "\"" + raw + "\"";
            std::string r;
            uint64_t have = 0;
            const auto items = ti.getBitmaskValues();
            for (size_t i = items.size(); i-- > 0;)
                if ((items[i].value & n.u) == items[i].value && (items[i].value != 0 || n.u == 0))
                {
                    have |= items[i].value;
                    r += (r.empty() ? "" : g.flip() ? " | " : "|") + std::string(items[i].schemaName);
                }
            return r.empty() || have != n.u ? raw : str(r);
        }
        default: break;
        }
        if (n.k == Node::ARRAY)
        {
            std::string r = "[" + ws();
            for (size_t i = 0; i < n.elems.size(); ++i) r += (i ? "," + ws() : "") + value(n.elems[i], ti, false, true) + ws();
            return r + "]";
        }
        std::vector<size_t> order;
        for (size_t i = 0; i < n.fields.size(); ++i) if (n.k == Node::STRUCT || n.fields[i].first == n.choice) order.push_back(i);
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
        std::string r = "{" + ws();
        bool first = true;
        auto item = [&](const std::string& key, const std::string& v) {
            r += (first ? "" : "," + ws()) + str(key) + ws() + ":" + ws() + v + ws();
            first = false;
        };
        for (size_t i : order)
        {
            const auto& f = n.fields[i];
            const zserio::BasicFieldInfo<A>* fi = nullptr;
            for (const auto& x : ti.getFields()) if (x.schemaName == f.first) fi = &x;
            CHECK(fi != nullptr);
            if (f.second.k == Node::ABSENT && at != defectAt && g.flip()) { ++at; continue; }
            if (g.chance(1, 20)) item(f.first, "null"); // replaced below
            item(f.first, value(f.second, fi->typeInfo));
        }
        return r + "}";
    }
};
size_t countValues(const Node& n)
{
    size_t c = 1;
    for (const auto& f : n.fields) if (n.k == Node::STRUCT || f.first == n.choice) c += countValues(f.second);
    for (const auto& e : n.elems) c += countValues(e);
    return c;
}
template <class A>
Str<A> nm(std::string_view s, const A& a) { return Str<A>(s.data(), s.size(), RebindAlloc<A, char>(a)); }

// ---------------------------------------------------------------------------------------------- filters keeping everything
template <class A>
struct Filters
{
    zserio::BasicDefaultWalkFilter<A> def;
    zserio::BasicDepthWalkFilter<A> depth{1000};
    zserio::BasicArrayLengthWalkFilter<A> len{100000};
    zserio::BasicRegexWalkFilter<A> re{".*"};
    zserio::BasicAndWalkFilter<A> both;
    zserio::IBasicWalkFilter<A>& pick(pbt::Gen& g)
    {
        switch (g.below(6))
        {
        case 0: return depth;
        case 1: return len;
        case 2: return re;
        case 3: return both;
        default: return def;
        }
    }
    Filters() : both({depth, len, def}) {}
};

template <class A>
std::string exportAny(pbt::Gen& g, IObj<A>& o, const A& a, bool& names)
{
    std::ostringstream out;
    Filters<A> filters;
    names = g.flip();
    auto run = [&](zserio::BasicJsonWriter<A>& w) {
        if (!names) w.setEnumerableFormat(zserio::BasicJsonWriter<A>::EnumerableFormat::NUMBER);
        else if (g.flip()) w.setEnumerableFormat(zserio::BasicJsonWriter<A>::EnumerableFormat::STRING);
        if (g.chance(1, 3)) w.setItemSeparator(nm<A>(g.pick(std::vector<std::string>{",", ", ", " ,\n", "\t,"}), a));
        if (g.chance(1, 3)) w.setKeySeparator(nm<A>(g.pick(std::vector<std::string>{":", " : ", ":\n", "\t:"}), a));
        zserio::BasicWalker<A> walker(w, filters.pick(g));
        if (g.flip()) walker.walk(o.crefl(a));
        else walker.walk(o.refl(a));
    };
    switch (g.below(3))
    {
    case 0: { zserio::BasicJsonWriter<A> w(out, a); run(w); break; }
    case 1: { zserio::BasicJsonWriter<A> w(out, static_cast<uint8_t>(g.size(9)), a); run(w); break; }
    default: { zserio::BasicJsonWriter<A> w(out, nm<A>(g.pick(std::vector<std::string>{"", "\t", "  ", " \t "}), a), a); run(w); break; }
    }
    CHECK(out.good());
    return out.str();
}
template <class A>
void checkImport(const IObj<A>& o, const Node& want, const Ptr<A>& p, const std::string& text)
{
    CHECK(p != nullptr);
    Node got = stripped(o.modelOf(p));
    CHECKM(got == want, "imported object differs " << firstDiff(want, got) << " from " << pbt::show(text));
}
bool hasNan(const Node& n)
{
    if (n.k == Node::FLT && std::isnan(n.d)) return true;
    for (const auto& f : n.fields) if (hasNan(f.second)) return true;
    for (const auto& e : n.elems) if (hasNan(e)) return true;
    return false;
}
template <class A>
void roundTrip(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    Opt2 opt;
    opt.finite = !g.chance(1, 6);
    opt.maxElems = g.chance(1, 30) ? 60 : 4;
    auto o = t.gen(g, a, opt);
    Node n = o->model();
    g.note(t.name + " " + show(n));
    bool names = true;
    std::string text = exportAny<A>(g, *o, a, names);
    J j = Parser{text}.document();
    sameValue<A>(j, n, o->ti(), names, t.name);
    Node want = stripped(n);
    std::istringstream in(text);
    zserio::BasicJsonReader<A> r(in, a);
    Ptr<A> p = r.read(o->ti());
    checkImport<A>(*o, want, p, text);
    if (!hasNan(n)) CHECKM(o->sameAs(p), "imported object does not compare equal: " << pbt::show(text));
    g.nontrivial(n.fields.size() > 1 && text.size() > 20);
}
// independently rendered text: any key order, white space, number form
template <class A>
void importCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    Opt2 opt;
    opt.finite = !g.chance(1, 6);
    auto o = t.gen(g, a, opt);
    Node n = o->model();
    Node want = stripped(n);
    Render<A> r{g};
    std::string text = r.ws() + r.value(n, o->ti(), true) + r.ws();
    g.note(t.name + " " + text);
    Ptr<A> p;
    if (g.flip())
    {
        std::istringstream in(text);
        p = zserio::fromJsonStream<A>(o->ti(), in, a);
    }
    else p = zserio::fromJsonString<A>(o->ti(), nm<A>(text, a), a);
    checkImport<A>(*o, want, p, text);
    g.nontrivial(n.fields.size() > 1 && text.size() > 20);
}
// exactly one value of the document does not fit the schema
template <class A>
void defectCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    auto o = t.gen(g, a, Opt2{});
    Node n = o->model();
    Render<A> r{g};
    r.defectAt = g.below(countValues(n));
    std::string text = r.value(n, o->ti(), true);
    g.note(t.name + " " + text + " defect " + r.defect);
    CHECK(!r.defect.empty());
    bool threw = false;
    Ptr<A> p;
    try
    {
        std::istringstream in(text);
        zserio::BasicJsonReader<A> reader(in, a);
        p = reader.read(o->ti());
    }
    catch (const zserio::CppRuntimeException&) { threw = true; }
    CHECKM(threw, "document accepted despite " << r.defect << " in " << pbt::show(text) << ", created " << show(o->modelOf(p)));
    g.nontrivial(r.defectAt > 0);
}
// several documents in one stream
template <class A>
void sequenceCase(pbt::Gen& g, const A& a)
{
    std::vector<std::unique_ptr<IObj<A>>> objs;
    std::string text;
    size_t n = 1 + g.size(3);
    for (size_t i = 0; i < n; ++i)
    {
        objs.push_back(pickType<A>(g).gen(g, a, Opt2{}));
        Render<A> r{g};
        text += r.ws() + r.value(objs.back()->model(), objs.back()->ti(), true) + r.ws();
    }
    g.note(text);
    std::istringstream in(text);
    zserio::BasicJsonReader<A> r(in, a);
    std::vector<Ptr<A>> got;
    for (auto& o : objs)
    {
        got.push_back(r.read(o->ti()));
        checkImport<A>(*o, stripped(o->model()), got.back(), text);
    }
    // nothing is left: no object can be read
    RF_THROWS(r.read(objs.back()->ti()), "end of stream after " + text);
    for (size_t i = 0; i < n; ++i) checkImport<A>(*objs[i], stripped(objs[i]->model()), got[i], text);
    g.nontrivial(n > 1);
}

// ---------------------------------------------------------------------------------------------- typed convenience functions
std::string scratch()
{
    static std::string dir = [] {
        char t[] = "/tmp/p19_XXXXXX";
        return std::string(mkdtemp(t));
    }();
    return dir;
}
struct Cleanup
{
    ~Cleanup()
    {
        std::string d = scratch();
        for (const char* f : {"/a.json", "/b"}) unlink((d + f).c_str());
        rmdir(d.c_str());
    }
} cleanup;
std::string slurp(const std::string& f)
{
    std::ifstream in(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
template <class A, class T>
void typedCase(pbt::Gen& g, const A& a)
{
    using namespace zserio;
    T obj = genT<T, A>(g, a, 0, Opt2{});
    Node n = modelT<A, T>(obj, 0);
    g.note(show(n));
    const auto& ti = typeInfo<T, A>();
    Filters<A> fl;
    uint8_t indent = static_cast<uint8_t>(g.size(8));
    bool useIndent = g.flip(), useFilter = g.flip();
    auto& filter = fl.depth;
    std::string text;
    std::string file = scratch() + "/a.json";
    unsigned how = static_cast<unsigned>(g.below(3));
    auto cv = [](const auto& s) { return std::string(s.data(), s.size()); };
    if (how == 0)
    {
        if (useIndent && useFilter) text = cv(toJsonString(obj, indent, filter, a));
        else if (useIndent) text = cv(toJsonString(obj, indent, a));
        else if (useFilter) text = cv(toJsonString(obj, filter, a));
        else text = cv(toJsonString(obj, a));
    }
    else if (how == 1)
    {
        std::ostringstream out;
        if (useIndent && useFilter) toJsonStream(obj, out, indent, filter, a);
        else if (useIndent) toJsonStream(obj, out, indent, a);
        else if (useFilter) toJsonStream(obj, out, filter, a);
        else toJsonStream(obj, out, a);
        text = out.str();
    }
    else
    {
        if (g.flip()) std::ofstream(file) << std::string(g.below(3000), 'x'); // previous content
        if (useIndent && useFilter) toJsonFile(obj, nm<A>(file, a), indent, filter, a);
        else if (useIndent) toJsonFile(obj, file, indent, a);
        else if (useFilter) toJsonFile(obj, file, filter, a);
        else toJsonFile(obj, file, a);
        text = slurp(file);
    }
    J j = Parser{text}.document();
    sameValue<A>(j, n, ti, true, "typed");
    auto check = [&](const T& got) {
        CHECKM(got == obj, "imported object is not equal: " << pbt::show(text));
        Node m = modelT<A, T>(got, 0);
        CHECKM(m == n, "imported object differs " << firstDiff(n, m));
    };
    if (how == 2)
    {
        check(fromJsonFile<T>(file, a));
        check(ReflectableUtil::getValue<T, A>(fromJsonFile<A>(ti, file, a)));
    }
    check(fromJsonString<T>(nm<A>(text, a), a));
    std::istringstream in(text);
    check(fromJsonStream<T>(in, a));
    g.nontrivial(text.size() > 20);
}
template <class A>
void typedAny(pbt::Gen& g, const A& a)
{
    switch (g.below(5))
    {
    case 0: typedCase<A, Tree<A>>(g, a); break;
    case 1: typedCase<A, Rich<A, Str<A>>>(g, a); break;
    case 2: typedCase<A, Rich<A, ES16>>(g, a); break;
    case 3: typedCase<A, Rich<A, Bbf<A>>>(g, a); break;
    default: typedCase<A, Rich<A, RUni<A, ES16>>>(g, a); break;
    }
}
// bitmasks with bits that have no name
template <class A, class M>
void rawMask(pbt::Gen& g, const A& a)
{
    using R = Rich<A, M>;
    using V = typename M::ZserioType::ValueType;
    auto mask = [&] { return M(typename M::ZserioType(g.within<V>(0, zserio::NumericLimits<typename M::ZserioType>::max()))); };
    R obj(a);
    obj.v = mask();
    obj.o = mask();
    size_t n = g.size(4);
    for (size_t i = 0; i < n; ++i) obj.a.push_back(mask());
    Node m = modelT<A, R>(obj, 0);
    g.note(show(m));
    auto text = zserio::toJsonString(obj, a);
    std::string s(text.data(), text.size());
    sameValue<A>(Parser{s}.document(), m, zserio::typeInfo<R, A>(), true, "mask");
    R got = zserio::fromJsonString<R>(text, a);
    CHECKM(got == obj, pbt::show(s) << " gives " << show(modelT<A, R>(got, 0)));
    g.nontrivial(n > 0);
}
template <class F>
void anyAlloc(pbt::Gen& g, F f)
{
    if (g.flip()) f(PmrA{});
    else f(PpmrA{});
}
} // namespace

SUBCHECK(round_trip_std, 20000, 300000, "export of a random object in a random format, parsed independently and compared with the model, then imported; non-trivial: several fields") { roundTrip(g, StdA{}); }
SUBCHECK(round_trip_pmr, 8000, 100000, "same with polymorphic allocators") { anyAlloc(g, [&](auto a) { roundTrip(g, a); }); }
SUBCHECK(import_std, 20000, 300000, "independently rendered documents: any key order, white space, enum / bitmask / number form; non-trivial: several fields") { importCase(g, StdA{}); }
SUBCHECK(import_pmr, 8000, 100000, "same with polymorphic allocators") { anyAlloc(g, [&](auto a) { importCase(g, a); }); }
SUBCHECK(defect_std, 40000, 600000, "documents with exactly one value that does not fit the schema; non-trivial: the defect is not at the root") { defectCase(g, StdA{}); }
SUBCHECK(defect_pmr, 10000, 100000, "same with polymorphic allocators") { anyAlloc(g, [&](auto a) { defectCase(g, a); }); }
SUBCHECK(sequence, 10000, 100000, "several documents in one stream, then end of stream; non-trivial: more than one") { if (g.flip()) sequenceCase(g, StdA{}); else sequenceCase(g, PmrA{}); }
SUBCHECK(typed, 6000, 60000, "toJsonString / Stream / File and fromJson* with every argument combination; non-trivial: text longer than an empty object")
{
    switch (g.below(3))
    {
    case 0: typedAny(g, StdA{}); break;
    case 1: typedAny(g, PmrA{}); break;
    default: typedAny(g, PpmrA{}); break;
    }
}
SUBCHECK(bitmask, 10000, 100000, "bitmasks with undeclared bits; non-trivial: array elements")
{
    if (g.flip()) rawMask<StdA, M16>(g, StdA{});
    else rawMask<StdA, M64>(g, StdA{});
}
