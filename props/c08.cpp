// C08: elements of the stable containers keep their address.
#include "mapw.hpp"

#include "blk.hpp"
namespace {
template<class T, unsigned N, bool COPY>
void vec(const char* name)
{
    vp::ctx.log("StableBlockVector<%s, %u>", name, N);
    vp::ctx.label("StableBlockVector");
    blk::runOne<blk::Vec, false, T, N, COPY, blk::Content | blk::Addresses>();
}
template<class T, unsigned N, bool COPY>
void deq(const char* name)
{
    vp::ctx.log("StableBlockDeque<%s, %u>", name, N);
    vp::ctx.label("StableBlockDeque");
    blk::runOne<blk::Deq, true, T, N, COPY, blk::Content | blk::Addresses>();
}
void run()
{
    using namespace mapw;
    using trk::MoveOnly;
    using trk::Plain;
    constexpr unsigned A = mapw::Addresses;
    switch (vp::ctx.below(16)) {
        case 0:
            return vec<int, 0, true>("int");
        case 1:
            return vec<int, 2, true>("int");
        case 2:
            return vec<std::string, 1, true>("std::string");
        case 3:
            return vec<MoveOnly, 1, false>("move-only element");
        case 4:
            return deq<int, 0, true>("int");
        case 5:
            return deq<int, 1, true>("int");
        case 6:
            return deq<std::string, 2, true>("std::string");
        case 7:
            return deq<MoveOnly, 1, false>("move-only element");
        case 8:
            return runMap<Mapped, Plain, KString, void, true, 1, A>("MappedVector<string, stable, 1>");
        case 9:
            return runMap<Mapped, int, KUser, void, true, 0, A>("MappedVector<ordered type, stable, 0> of int");
        case 10:
            return runMap<StringMapped, Plain, KView, void, true, 2, A>("StringMappedVector<stable, 2>");
        case 11:
            return runMap<Dual, Plain, KString, KInt, true, 1, A>("DualMappedVector<string, int, stable, 1>");
        case 12:
            return runMap<DualString, Plain, KView, KInt, true, 1, A>("DualStringMappedVector<int, stable, 1>");
        case 13:
            return runMap<Pointer, Plain, KString, void, false, 5, A>("MappedPointerVector<string>");
        case 14:
            return runMap<Pointer, MoveOnly, KInt, void, false, 5, A>("MappedPointerVector<int> of move-only");
        default:
            return runMap<DualPointer, Plain, KString, KInt, false, 5, A>("DualMappedPointerVector<string, int>");
    }
}
}  // namespace
const vp::Property vp::property{
    "C08",
    "A case is a random history over up to three containers of one of sixteen kinds (StableBlockVector and StableBlockDeque with block sizes 1, 2, 4 and four element types, the four stable mapped vectors, the two pointer-based ones); the address of every element is taken when it is "
    "inserted and compared, with its value, after every later operation, including growth, removals, shrink_to_fit, and moves of the container. Non-trivial: block boundaries were crossed at least twice with a full block (block containers), or something was removed and something inserted after that (mapped).",
    80000,
    1500000,
    run,
    true};
