// C11: constructions that fail in insertions leave the containers as they were.
#include "mapw.hpp"

#include "blk.hpp"
namespace {
template<unsigned N>
void vec()
{
    vp::ctx.log("StableBlockVector<throwing element, %u>", N);
    vp::ctx.label("StableBlockVector");
    blk::runOne<blk::Vec, false, trk::Throwing, N, true, blk::Content | blk::Lifetimes | blk::Faults>();
}
template<unsigned N>
void deq()
{
    vp::ctx.log("StableBlockDeque<throwing element, %u>", N);
    vp::ctx.label("StableBlockDeque");
    blk::runOne<blk::Deq, true, trk::Throwing, N, true, blk::Content | blk::Lifetimes | blk::Faults>();
}
void run()
{
    using namespace mapw;
    using trk::Throwing;
    constexpr unsigned F = mapw::Faults;
    switch (vp::ctx.below(16)) {
        case 0:
            return vec<0>();
        case 1:
            return vec<1>();
        case 2:
            return vec<2>();
        case 3:
            return deq<0>();
        case 4:
            return deq<1>();
        case 5:
            return deq<2>();
        case 6:
            return runMap<Mapped, Throwing, KString, void, true, 1, F>("MappedVector<string, stable, 1>");
        case 7:
            return runMap<Mapped, Throwing, KUser, void, false, 5, F>("MappedVector<ordered type>");
        case 8:
            return runMap<StringMapped, Throwing, KView, void, true, 1, F>("StringMappedVector<stable, 1>");
        case 9:
            return runMap<StringMapped, Throwing, KView, void, false, 5, F>("StringMappedVector");
        case 10:
            return runMap<Dual, Throwing, KString, KInt, true, 1, F>("DualMappedVector<string, int, stable, 1>");
        case 11:
            return runMap<Dual, Throwing, KInt, KString, false, 5, F>("DualMappedVector<int, string>");
        case 12:
            return runMap<DualString, Throwing, KView, KInt, true, 1, F>("DualStringMappedVector<int, stable, 1>");
        case 13:
            return runMap<DualString, Throwing, KView, KInt, false, 5, F>("DualStringMappedVector<int>");
        case 14:
            return runMap<Pointer, Throwing, KString, void, false, 5, F>("MappedPointerVector<string>");
        default:
            return runMap<DualPointer, Throwing, KString, KInt, false, 5, F>("DualMappedPointerVector<string, int>");
    }
}
}  // namespace
const vp::Property vp::property{
    "C11",
    "A case is a random history over up to three containers of one of sixteen kinds (StableBlockVector and StableBlockDeque with block sizes 1, 2, 4, the six mapped vectors in both storage forms) holding an element type whose constructors can be made to fail; about a third of the "
    "insertions are armed so that the first, second, ... construction inside them throws. After every operation size, elements, positions and search terms are compared with a model in which a failed insertion changes nothing, and the set of live elements is compared with the "
    "containers' contents. Non-trivial: at least one insertion failed (and, for block containers, a full block was reached and boundaries crossed).",
    80000,
    1500000,
    run,
    true};
