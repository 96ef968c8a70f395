// C14: MappedPointerVector against a model.
#include "mapw.hpp"
using namespace mapw;
namespace {
void run()
{
    switch (ctx.below(6)) {
        case 0:
            return runMap<Pointer, Multi, KString, void, false, 5, 0>("MappedPointerVector<string>");
        case 1:
            return runMap<Pointer, Plain, KInt, void, false, 5, 0>("MappedPointerVector<int>");
        case 2:
            return runMap<Pointer, Multi, KUser, void, false, 5, 0>("MappedPointerVector<ordered type>");
        case 3:
            return runMap<Pointer, MoveOnly, KString, void, false, 5, 0>("MappedPointerVector<string> of move-only");
        case 4:
            return runMap<Pointer, Plain, KPointer, void, false, 5, 0>("MappedPointerVector<pointer>");
        case 5:
            return runMap<Pointer, Multi, KHash, void, false, 5, 0>("MappedPointerVector<user-hashed type>");
    }
}
}  // namespace
const vp::Property vp::property{
    "C14",
    "A case is a random history over up to three vectors (six term-type/element-type combinations): inserts with and without terms, insert_or_assign, added terms, removals by term and index, apply/modify/transform, writes, clears, copies, moves, destruction, elements made from none, one or two arguments or as copies of their own elements, out-of-range indices of any size, over a small term space (rarely hundreds of elements and 1500 terms) that includes zero, the empty string, long names and names with zero bytes; after every operation all elements, positions and terms (present and absent) are compared with a model. Non-trivial: something was removed and something inserted after that.",
    180000,
    1500000,
    run,
    true};
