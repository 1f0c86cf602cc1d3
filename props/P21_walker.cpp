// P21: tree walking visits exactly what the filter admits, in schema order.
// Oracle: the expected notification list computed from the independent object model and an independent
// formulation of every filter.
#include <regex>

#include "reflcheck.h"

using namespace rf;

namespace
{
enum Kind { K_ARRAY, K_COMPOUND, K_VALUE };
constexpr size_t NONE = zserio::WALKER_NOT_ELEMENT;

struct Item
{
    Kind k;
    const Node* n;
    std::string name;
    std::string path;
    size_t depth;      // 1 for fields of the root
    size_t idx;
};
// independent formulation of a filter
struct Rule
{
    virtual ~Rule() = default;
    virtual bool before(const Item& it) = 0;
    virtual bool after(const Item& it) = 0;
};
struct AllRule : Rule
{
    bool before(const Item&) override { return true; }
    bool after(const Item&) override { return true; }
};
struct DepthRule : Rule
{
    size_t max;
    explicit DepthRule(size_t m) : max(m) {}
    bool before(const Item& it) override { return it.depth <= max; }
    bool after(const Item&) override { return true; }
};
struct LengthRule : Rule
{
    size_t max;
    explicit LengthRule(size_t m) : max(m) {}
    bool before(const Item& it) override { return it.idx == NONE || it.idx < max; }
    bool after(const Item& it) override { return it.idx == NONE || it.idx < max; }
};
inline bool isCompound(const Node& n) { return n.k == Node::STRUCT || n.k == Node::VARIANT; }
template <class F>
void below(const Node& n, const std::string& path, F f)
{
    // paths of everything strictly below a node
    if (n.k == Node::ARRAY)
    {
        for (size_t i = 0; i < n.elems.size(); ++i)
        {
            std::string p = path + "[" + std::to_string(i) + "]";
            f(p);
            below(n.elems[i], p, f);
        }
    }
    else if (isCompound(n))
    {
        for (const auto& c : n.fields)
        {
            if (n.k == Node::VARIANT && c.first != n.choice) continue;
            std::string p = path.empty() ? c.first : path + "." + c.first;
            f(p);
            below(c.second, p, f);
        }
    }
}
struct RegexRule : Rule
{
    std::regex re;
    explicit RegexRule(const std::string& s) : re(s) {}
    bool before(const Item& it) override
    {
        bool r = std::regex_match(it.path, re);
        if (it.k != K_VALUE) below(*it.n, it.path, [&](const std::string& p) { r = r || std::regex_match(p, re); });
        return r;
    }
    bool after(const Item&) override { return true; }
};
// arbitrary decisions, a function of the call number only
struct Script
{
    uint64_t seed;
    unsigned denBefore, denAfter;
    uint64_t n = 0;
    bool decide(unsigned den)
    {
        uint64_t x = seed + 0x9E3779B97F4A7C15ull * ++n;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return (x >> 33) % den != 0;
    }
};
struct ScriptRule : Rule
{
    Script s;
    explicit ScriptRule(const Script& x) : s(x) {}
    bool before(const Item&) override { return s.decide(s.denBefore); }
    bool after(const Item&) override { return s.decide(s.denAfter); }
};
struct AndRule : Rule
{
    std::vector<std::unique_ptr<Rule>> r;
    bool before(const Item& it) override
    {
        bool x = true;
        for (auto& e : r) x = e->before(it) && x;
        return x;
    }
    bool after(const Item& it) override
    {
        bool x = true;
        for (auto& e : r) x = e->after(it) && x;
        return x;
    }
};
template <class A>
struct ScriptFilter : zserio::IBasicWalkFilter<A>
{
    using R = zserio::IBasicReflectableDataConstPtr<A>;
    using F = zserio::BasicFieldInfo<A>;
    Script s;
    explicit ScriptFilter(const Script& x) : s(x) {}
    bool beforeArray(const R&, const F&) override { return s.decide(s.denBefore); }
    bool afterArray(const R&, const F&) override { return s.decide(s.denAfter); }
    bool beforeCompound(const R&, const F&, size_t) override { return s.decide(s.denBefore); }
    bool afterCompound(const R&, const F&, size_t) override { return s.decide(s.denAfter); }
    bool beforeValue(const R&, const F&, size_t) override { return s.decide(s.denBefore); }
    bool afterValue(const R&, const F&, size_t) override { return s.decide(s.denAfter); }
};

struct Event
{
    enum T { BEGIN_ROOT, END_ROOT, BEGIN_ARRAY, END_ARRAY, BEGIN_COMPOUND, END_COMPOUND, VALUE } t;
    const Node* n;
    std::string name;
    size_t idx;
};
const char* const eventNames[] = {"beginRoot", "endRoot", "beginArray", "endArray", "beginCompound", "endCompound", "visitValue"};

struct Expect
{
    Rule& r;
    std::vector<Event> ev;
    bool node(const Node& n, const std::string& name, const std::string& path, size_t depth, size_t idx)
    {
        Item it{n.k == Node::ARRAY ? K_ARRAY : isCompound(n) ? K_COMPOUND : K_VALUE, &n, name, path, depth, idx};
        if (r.before(it))
        {
            if (it.k == K_VALUE) ev.push_back({Event::VALUE, &n, name, idx});
            else if (it.k == K_ARRAY)
            {
                ev.push_back({Event::BEGIN_ARRAY, &n, name, idx});
                for (size_t i = 0; i < n.elems.size(); ++i)
                    if (!node(n.elems[i], name, path + "[" + std::to_string(i) + "]", depth + 1, i)) break;
                ev.push_back({Event::END_ARRAY, &n, name, idx});
            }
            else
            {
                ev.push_back({Event::BEGIN_COMPOUND, &n, name, idx});
                fields(n, path, depth + 1);
                ev.push_back({Event::END_COMPOUND, &n, name, idx});
            }
        }
        return r.after(it);
    }
    void fields(const Node& n, const std::string& path, size_t depth)
    {
        for (const auto& f : n.fields)
        {
            if (n.k == Node::VARIANT && f.first != n.choice) continue;
            if (!node(f.second, f.first, path.empty() ? f.first : path + "." + f.first, depth, NONE)) break;
        }
    }
    void root(const Node& n)
    {
        ev.push_back({Event::BEGIN_ROOT, &n, "", NONE});
        fields(n, "", 1);
        ev.push_back({Event::END_ROOT, &n, "", NONE});
    }
};
template <class A>
struct Observer : zserio::IBasicWalkObserver<A>
{
    using R = zserio::IBasicReflectableDataConstPtr<A>;
    using F = zserio::BasicFieldInfo<A>;
    const std::vector<Event>& ev;
    const A& a;
    size_t pos = 0;
    Observer(const std::vector<Event>& e, const A& al) : ev(e), a(al) {}
    void on(Event::T t, const R& r, const F* f, size_t idx)
    {
        std::string at = std::string("event ") + std::to_string(pos) + " " + eventNames[t] + " " + (f ? std::string(f->schemaName) : std::string());
        CHECKM(pos < ev.size(), at << " not expected");
        const Event& e = ev[pos++];
        CHECKM(e.t == t, at << " expected " << eventNames[e.t] << " " << e.name);
        if (f) CHECKM(f->schemaName == e.name, at << " expected field " << e.name);
        CHECKM(idx == e.idx, at << " index " << idx << " expected " << e.idx);
        const Node& n = *e.n;
        if (isCompound(n))
        {
            CHECKM(r != nullptr && !r->isArray() && r->getTypeInfo().getSchemaName() == n.type, at);
            if (n.k == Node::VARIANT) CHECKM(r->getChoice() == n.choice, at);
            if (t == Event::BEGIN_COMPOUND || t == Event::BEGIN_ROOT) checkTree<R, A, false>(r, n, a, at, false);
        }
        else if (n.k == Node::ARRAY) CHECKM(r != nullptr && r->isArray() && r->size() == n.elems.size(), at);
        else checkTree<R, A, false>(r, n, a, at, false);
    }
    void beginRoot(const R& r) override { on(Event::BEGIN_ROOT, r, nullptr, NONE); }
    void endRoot(const R& r) override { on(Event::END_ROOT, r, nullptr, NONE); }
    void beginArray(const R& r, const F& f) override { on(Event::BEGIN_ARRAY, r, &f, NONE); }
    void endArray(const R& r, const F& f) override { on(Event::END_ARRAY, r, &f, NONE); }
    void beginCompound(const R& r, const F& f, size_t i) override { on(Event::BEGIN_COMPOUND, r, &f, i); }
    void endCompound(const R& r, const F& f, size_t i) override { on(Event::END_COMPOUND, r, &f, i); }
    void visitValue(const R& r, const F& f, size_t i) override { on(Event::VALUE, r, &f, i); }
};

std::string genRegex(pbt::Gen& g, const Node& n)
{
    std::vector<std::string> paths;
    below(n, "", [&](const std::string& p) { if (paths.size() < 200) paths.push_back(p); });
    auto literal = [&](const std::string& p) {
        std::string r;
        for (char c : p)
        {
            if (c == '[' || c == ']' || c == '.') r += '\\';
            r += c;
        }
        return r;
    };
    if (paths.empty()) return ".*";
    std::string p = g.pick(paths);
    switch (g.below(9))
    {
    case 0: return ".*";
    case 1: return literal(p);
    case 2: return literal(p) + ".*";
    case 3: return literal(p) + "\\..*";
    case 4: return ".*" + literal(p.substr(g.below(p.size())));
    case 5: // any index
    {
        std::string r;
        for (size_t i = 0; i < p.size(); ++i)
        {
            if (p[i] == '[') { r += "\\[\\d*\\]"; while (p[i] != ']') ++i; }
            else if (p[i] == '.') r += "\\.";
            else r += p[i];
        }
        return r;
    }
    case 6: return literal(p) + "|" + literal(g.pick(paths));
    case 7: return "[^.]*";
    default: return "[^.]*\\.[^.]*";
    }
}
template <class A>
std::unique_ptr<zserio::IBasicWalkFilter<A>> genFilter(pbt::Gen& g, const Node& n, const A& a, std::unique_ptr<Rule>& rule,
        std::vector<std::unique_ptr<zserio::IBasicWalkFilter<A>>>& pool, int depth)
{
    switch (g.below(depth == 0 ? 6 : 5))
    {
    case 0:
        g.note("default");
        rule = std::make_unique<AllRule>();
        return std::make_unique<zserio::BasicDefaultWalkFilter<A>>();
    case 1:
    {
        size_t max = g.chance(1, 10) ? SIZE_MAX : g.below(6);
        g.note("depth " + std::to_string(max));
        rule = std::make_unique<DepthRule>(max);
        return std::make_unique<zserio::BasicDepthWalkFilter<A>>(max);
    }
    case 2:
    {
        size_t max = g.chance(1, 10) ? SIZE_MAX : g.below(4);
        g.note("length " + std::to_string(max));
        rule = std::make_unique<LengthRule>(max);
        return std::make_unique<zserio::BasicArrayLengthWalkFilter<A>>(max);
    }
    case 3:
    {
        std::string re = genRegex(g, n);
        g.note("regex " + re);
        rule = std::make_unique<RegexRule>(re);
        return std::make_unique<zserio::BasicRegexWalkFilter<A>>(re.c_str(), a);
    }
    case 4:
    {
        Script s{g.draw(UINT32_MAX), static_cast<unsigned>(2 + g.below(6)), static_cast<unsigned>(2 + g.below(12))};
        g.note("script");
        rule = std::make_unique<ScriptRule>(s);
        return std::make_unique<ScriptFilter<A>>(s);
    }
    default:
    {
        using And = zserio::BasicAndWalkFilter<A>;
        typename And::WalkFilters fs{zserio::RebindAlloc<A, typename And::WalkFilterRef>(a)};
        auto ar = std::make_unique<AndRule>();
        size_t k = g.below(4);
        g.note("and of " + std::to_string(k));
        for (size_t i = 0; i < k; ++i)
        {
            std::unique_ptr<Rule> r;
            pool.push_back(genFilter<A>(g, n, a, r, pool, depth + 1));
            fs.push_back(*pool.back());
            ar->r.push_back(std::move(r));
        }
        rule = std::move(ar);
        return std::make_unique<And>(fs);
    }
    }
}
template <class A>
void walkCase(pbt::Gen& g, const A& a)
{
    const auto& t = pickType<A>(g);
    Opt2 opt;
    opt.finite = g.flip();
    opt.maxElems = 5;
    auto o = t.gen(g, a, opt);
    Node n = o->model();
    g.note(t.name + " " + show(n));
    CPtr<A> c = g.flip() ? o->crefl(a) : CPtr<A>(o->refl(a));
    if (g.chance(1, 6))
    {
        AllRule all;
        Expect e{all, {}};
        e.root(n);
        Observer<A> obs(e.ev, a);
        zserio::BasicWalker<A> w(obs);
        w.walk(c);
        CHECKM(obs.pos == e.ev.size(), "notifications missing after " << obs.pos << " of " << e.ev.size());
        g.nontrivial(e.ev.size() > 8);
        return;
    }
    std::unique_ptr<Rule> rule;
    std::vector<std::unique_ptr<zserio::IBasicWalkFilter<A>>> pool;
    auto f = genFilter<A>(g, n, a, rule, pool, 0);
    // the same filter object serves several walks
    size_t all = 0;
    {
        AllRule ar;
        Expect e{ar, {}};
        e.root(n);
        all = e.ev.size();
    }
    for (int round = 0; round < 2; ++round)
    {
        Expect e{*rule, {}};
        e.root(n);
        Observer<A> obs(e.ev, a);
        zserio::BasicWalker<A> w(obs, *f);
        w.walk(c);
        CHECKM(obs.pos == e.ev.size(), "notifications missing after " << obs.pos << " of " << e.ev.size());
        g.nontrivial(all > 8 && e.ev.size() > 4 && e.ev.size() < all);
    }
    CHECKM(o->model() == n, "walking modified the object");
}
template <class A>
void rootCase(pbt::Gen& g, const A& a)
{
    // anything but a compound is refused before any notification
    const auto& t = pickType<A>(g);
    auto o = t.gen(g, a, Opt2{});
    Node n = o->model();
    std::vector<Event> none;
    Observer<A> obs(none, a);
    zserio::BasicWalker<A> w(obs);
    RF_THROWS(w.walk(nullptr), "null root");
    for (const auto& f : n.fields)
    {
        if (f.second.k == Node::ABSENT) continue;
        if (f.second.isValue()) { RF_THROWS(w.walk(o->crefl(a)->getField(f.first)), f.first); g.nontrivial(); }
    }
}
} // namespace

SUBCHECK(walk_std, 12000, 200000, "object x filter (default, depth, length, path, scripted, conjunction), walked twice; non-trivial: some but not all nodes admitted") { walkCase(g, StdA{}); }
SUBCHECK(walk_pmr, 4000, 60000, "same with polymorphic allocators") { if (g.flip()) walkCase(g, PmrA{}); else walkCase(g, PpmrA{}); }
SUBCHECK(bad_root, 500, 3000, "null and non-compound roots; non-trivial: has a value field") { rootCase(g, StdA{}); }
