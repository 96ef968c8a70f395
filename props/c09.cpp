// C09: element lifetimes and allocator use of the block containers.
#include "blk.hpp"
using namespace blk;
namespace {
constexpr unsigned checks = Content | Lifetimes | AllocatorUse;
template<class T, unsigned N, bool COPY>
void one(const char* name)
{
    if (ctx.below(2) == 0) {
        ctx.log("StableBlockVector<%s, %u, accounting allocator>", name, N);
        ctx.label("StableBlockVector");
        runOne<Vec, false, T, N, COPY, checks>();
    } else {
        ctx.log("StableBlockDeque<%s, %u, accounting allocator>", name, N);
        ctx.label("StableBlockDeque");
        runOne<Deq, true, T, N, COPY, checks>();
    }
}
void run()
{
    switch (ctx.below(5)) {
        case 0:
            return one<Plain, 0, true>("accounted element");
        case 1:
            return one<Plain, 1, true>("accounted element");
        case 2:
            return one<Plain, 2, true>("accounted element");
        case 3:
            return one<Plain, 3, true>("accounted element");
        default:
            return one<MoveOnly, 1, false>("accounted move-only element");
    }
}
}  // namespace
const vp::Property vp::property{
    "C09",
    "A case is a random history (as in C06/C07) over up to three StableBlockVectors or StableBlockDeques of elements that account for their construction, use and destruction by address, with an allocator that accounts for its blocks; after every "
    "operation the live elements equal the sizes, a push requests a block only when none is spare, after shrink_to_fit no more blocks are held than can be in use, and at the end nothing is left. Non-trivial: the content reached a full block and block boundaries were crossed at least twice.",
    300000,
    2500000,
    run,
    true};
