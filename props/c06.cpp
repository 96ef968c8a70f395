// C06: StableBlockVector against std::vector semantics.
#include "blk.hpp"
using namespace blk;
namespace {
template<class T, unsigned N, bool COPY>
void one(const char* name)
{
    ctx.log("StableBlockVector<%s, %u>", name, N);
    runOne<Vec, false, T, N, COPY, Content>();
}
void run()
{
    switch (ctx.below(13)) {
        case 0:
            return one<int, 0, true>("int");
        case 1:
            return one<int, 1, true>("int");
        case 2:
            return one<int, 2, true>("int");
        case 3:
            return one<int, 4, true>("int");
        case 4:
            return one<std::string, 0, true>("std::string");
        case 5:
            return one<std::string, 2, true>("std::string");
        case 6:
            return one<std::string, 3, true>("std::string");
        case 7:
            return one<std::unique_ptr<int>, 1, false>("std::unique_ptr<int>");
        case 8:
            return one<Plain, 2, true>("accounted element");
        case 9:
            return one<int, 7, true>("int");
        case 11:
            return one<Multi, 2, true>("element made from none, one or two arguments");
        case 10:
            return one<Odd, 1, true>("over-aligned, list-constructible element");
        default:
            return one<int, 5, true>("int");
    }
}
}  // namespace
const vp::Property vp::property{
    "C06",
    "A case is a random history over up to three StableBlockVectors of one of thirteen element-type/block-size combinations (block sizes 1,2,4,8,16,32,128): all constructors, pushes, emplaces, pops, bulk runs long enough to outgrow the block table, "
    "assign/move_assign from four kinds of ranges, copy/move, clear, shrink_to_fit, writes, destruction; after every operation all containers are compared with model sequences. Non-trivial: the content reached a full block and block boundaries were crossed at least twice.",
    400000,
    3000000,
    run,
    true};
