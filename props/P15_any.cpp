// Any against a reference (type, value) over operation histories, storage kinds, allocators and throw points.
#include <functional>
#include "tracked.h"
#include "zserio/Any.h"

void p15_a0(pbt::Gen&, bool);
void p15_a1(pbt::Gen&, bool);
void p15_a2(pbt::Gen&, bool);
void p15_a3(pbt::Gen&, bool);
void p15_a4(pbt::Gen&, bool);
void p15_a5(pbt::Gen&, bool);
void p15_a6(pbt::Gen&, bool);
void p15_a7(pbt::Gen&, bool);

namespace
{
void any(pbt::Gen& g, bool faults)
{
    switch (g.below(8))
    {
    case 0: p15_a0(g, faults); break;
    case 1: p15_a1(g, faults); break;
    case 2: p15_a2(g, faults); break;
    case 3: p15_a3(g, faults); break;
    case 4: p15_a4(g, faults); break;
    case 5: p15_a5(g, faults); break;
    case 6: p15_a6(g, faults); break;
    default: p15_a7(g, faults); break;
    }
}
} // namespace

SUBCHECK(histories, 40000, 1500000, "1-26 operations over 3 holders, 8 value types x 8 allocator kinds; nontrivial: at least 4 steps")
{
    any(g, false);
}
SUBCHECK(fault_histories, 40000, 1500000, "same with throwing values and failing allocations; nontrivial: at least 4 steps or something threw")
{
    any(g, true);
}

namespace
{
using namespace zserio;
using namespace trk;
using PmrA = std::pmr::polymorphic_allocator<uint8_t>;

// lists held in any holders: a node holds the rest of its list
struct Node
{
    explicit Node(int x, int) : v(x) {}
    int v;
    Tr<1, true> t{0};
    BasicAny<> next;
};
struct PmrNode
{
    using allocator_type = PmrA;
    explicit PmrNode(int x, int r) : v(x), next(AK<PmrA>::make(r)) {}
    PmrNode(const PmrNode& o) = default;
    PmrNode(PmrNode&& o) = default;
    PmrNode(const PmrNode& o, const PmrA& a) : v(o.v), t(o.t), next(o.next, a) {}
    PmrNode(PmrNode&& o, const PmrA& a) : v(o.v), t(std::move(o.t)), next(std::move(o.next), a) {}
    PmrNode& operator=(const PmrNode& o) = default;
    PmrNode& operator=(PmrNode&& o) = default;
    int v;
    Tr<1, true> t{0};
    BasicAny<PmrA> next;
};

template <class N, class L>
void lists(pbt::Gen& g, L head)
{
    std::vector<int> model; // a negative number is an int which ends the list
    const size_t steps = 1 + g.size(20);
    size_t own = 0;
    for (size_t st = 0; st < steps; ++st)
    {
        const bool closed = !model.empty() && model.back() < 0;
        const size_t nodes = model.size() - (closed ? 1 : 0);
        const size_t at = nodes == 0 ? 0 : g.below(nodes + 1);
        L* p = &head;
        for (size_t i = 0; i < at; ++i) p = &p->template get<N>().next;
        const auto pos = model.begin() + static_cast<ptrdiff_t>(at);
        const size_t op = g.draw(9);
        const bool isNode = at < nodes;
        const bool followed = at + 1 < nodes;
        const int v = static_cast<int>(g.below(100));
        const int r = static_cast<int>(1 + g.below(2));
        if (g.noting()) g.note("op" + std::to_string(op) + "@" + std::to_string(at) + "/" + std::to_string(model.size()));
        switch (op)
        {
        case 0: // insert
        case 1:
        {
            N n(v, r);
            if (op == 0) n.next = std::move(*p);
            else n.next = static_cast<const L&>(*p);
            *p = std::move(n);
            model.insert(pos, v);
            break;
        }
        case 2: // remove the node
            if (!isNode) break;
            *p = std::move(p->template get<N>().next);
            model.erase(pos);
            ++own;
            break;
        case 3:
            if (!isNode) break;
            *p = static_cast<const L&>(p->template get<N>().next);
            model.erase(pos);
            ++own;
            break;
        case 4: // the value of the same type is a part of the value
        case 5:
            if (!followed) break;
            {
                N n = p->template get<N>().next.template get<N>();
                if (op == 4) p->set(std::move(n));
                else *p = static_cast<const N&>(n);
            }
            model.erase(pos);
            break;
        case 6: // the value of another type is a part of the value
        case 7:
            if (!isNode) break;
            {
                int& part = p->template get<N>().v;
                part = -1 - part;
                const int was = part;
                if (op == 6) p->set(static_cast<const int&>(part));
                else *p = part;
                model.erase(pos, model.end());
                model.push_back(was);
            }
            ++own;
            break;
        case 8: *p = *static_cast<L*>(p); break;
        default:
            p->reset();
            model.erase(pos, model.end());
        }
        const L* q = &head;
        size_t objects = 0;
        for (int x : model)
        {
            if (x < 0)
            {
                CHECKM(q->template isType<int>(), "the end of the list is not a number");
                CHECK_EQ(q->template get<int>(), x);
                q = nullptr;
                break;
            }
            CHECKM(q->template isType<N>(), "list too short");
            CHECK_EQ(q->template get<N>().v, x);
            q = &q->template get<N>().next;
            ++objects;
        }
        if (q) CHECKM(!q->hasValue(), "list too long");
        CHECK_EQ(world().live.size(), objects);
    }
    g.nontrivial(own > 0 && steps >= 3);
}
} // namespace

SUBCHECK(list_edits, 40000, 800000, "1-21 edits of a list nested in any holders through assignments from its own parts, against a vector; nontrivial: at least one such assignment")
{
    if (g.flip()) lists<Node>(g, BasicAny<>());
    else
    {
        Pool pool;
        lists<PmrNode>(g, BasicAny<PmrA>(AK<PmrA>::make(1)));
        for (auto& r : pool.res) CHECK_EQ(r.live(), 0U);
    }
    CHECK_EQ(world().live.size(), 0U);
    expectClean("list_edits");
}
