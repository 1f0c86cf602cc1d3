#include "arrcase.h"
namespace el
{
namespace
{
using zserio::detail::ArrayType;
struct Recorder
{
    std::vector<std::pair<size_t, size_t>>* out;
    void setOffset(size_t i, zserio::BitSize b) const { out->emplace_back(i, b); }
};
template <class E, ArrayType AT>
void fill(ArrCase& c, bool packed, std::shared_ptr<zserio::Vector<typename E::T>> v, std::shared_ptr<zserio::Vector<typename E::T>> back)
{
    constexpr bool autoLen = AT == ArrayType::AUTO || AT == ArrayType::ALIGNED_AUTO;
    constexpr bool aligned = AT == ArrayType::ALIGNED || AT == ArrayType::ALIGNED_AUTO;
    const uint8_t p = c.param;
    c.expected = [=](size_t start) { return packed ? refPackedArray<E>(*v, p, start, autoLen, aligned) : refArray<E>(*v, p, start, autoLen, aligned); };
    c.validate = [=]() { zserio::detail::validate<AT>(makeView<E>(*v, p), "arr", v->size()); };
    c.validateLength = [=](size_t n) { zserio::detail::validate<AT>(makeView<E>(*v, p), "arr", n); };
    if constexpr (AT != ArrayType::IMPLICIT && !IsFloat<E>::value)
    {
        if (packed)
        {
            c.bitSize = [=](size_t pos) -> size_t { return zserio::detail::bitSizeOfPacked<AT>(makeView<E>(*v, p), static_cast<zserio::BitSize>(pos)); };
            c.initOffsets = [=](size_t pos, std::vector<std::pair<size_t, size_t>>& o) -> size_t {
                return zserio::detail::initializeOffsetsPacked<AT>(makeView<E>(*v, p), static_cast<zserio::BitSize>(pos), Recorder{&o});
            };
            c.write = [=](zserio::BitStreamWriter& w) { zserio::detail::writePacked<AT>(w, makeView<E>(*v, p)); };
            c.read = [=](zserio::BitStreamReader& r, size_t len) { readArrPacked<AT, E>(r, *back, p, len); };
            return;
        }
    }
    c.bitSize = [=](size_t pos) -> size_t { return zserio::detail::bitSizeOf<AT>(makeView<E>(*v, p), static_cast<zserio::BitSize>(pos)); };
    c.initOffsets = [=](size_t pos, std::vector<std::pair<size_t, size_t>>& o) -> size_t {
        return zserio::detail::initializeOffsets<AT>(makeView<E>(*v, p), static_cast<zserio::BitSize>(pos), Recorder{&o});
    };
    c.write = [=](zserio::BitStreamWriter& w) { zserio::detail::write<AT>(w, makeView<E>(*v, p)); };
    c.read = [=](zserio::BitStreamReader& r, size_t len) { readArr<AT, E>(r, *back, p, len); };
}
template <class E>
void make(pbt::Gen& g, ArrCase& c, size_t maxLen)
{
    c.param = genParam<E>(g);
    auto v = std::make_shared<zserio::Vector<typename E::T>>(genVec<E>(g, c.param, maxLen));
    auto back = std::make_shared<zserio::Vector<typename E::T>>();
    if (IsFloat<E>::value) c.packed = false;
    if (c.kind == IMPLICIT && (!E::implicit || c.packed)) c.kind = AUTO;
    c.packable = E::packable;
    c.nestedPacked = E::object; // both object kinds contain packed arrays
    c.n = v->size();
    c.sizeofT = sizeof(typename E::T);
    c.elemBits = E::enc(typename E::T{}, c.param).size();
    c.shown = E::name() + (c.packed ? " packed" : "") + " kind=" + std::to_string(c.kind) + " p=" + std::to_string(c.param) + " n=" + std::to_string(c.n);
    if constexpr (IsNum<E>::value)
    {
        if (g.noting())
        {
            c.shown += "[";
            for (size_t i = 0; i < v->size() && i < 20; ++i) { i128 n = E::num((*v)[i]); c.shown += (n > INT64_MAX ? std::to_string(static_cast<unsigned long long>(n)) : std::to_string(static_cast<long long>(n))) + ","; }
            c.shown += "]";
        }
    }
    c.equal = [=]() { return *v == *back; };
    c.backSize = [=]() { return back->size(); };
    c.prefill = [=](size_t n) { back->clear(); for (size_t i = 0; i < n; ++i) back->push_back(v->empty() ? typename E::T{} : (*v)[i % v->size()]); };
    switch (c.kind)
    {
    case NORMAL: fill<E, ArrayType::NORMAL>(c, c.packed, v, back); break;
    case AUTO: fill<E, ArrayType::AUTO>(c, c.packed, v, back); break;
    case ALIGNED: fill<E, ArrayType::ALIGNED>(c, c.packed, v, back); break;
    case ALIGNED_AUTO: fill<E, ArrayType::ALIGNED_AUTO>(c, c.packed, v, back); break;
    case IMPLICIT: if constexpr (E::implicit) fill<E, ArrayType::IMPLICIT>(c, false, v, back); break;
    }
}
using MyList = List<EL_LIST>;
} // namespace
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
size_t CAT(caseCount, SLICE)() { return count(MyList{}); }
void CAT(caseMake, SLICE)(pbt::Gen& g, size_t i, ArrCase& c, size_t maxLen)
{
    dispatch(MyList{}, i, [&](auto e) { make<decltype(e)>(g, c, maxLen); });
}
} // namespace el
