// C17: DualMappedPointerVector against a model.
#include "mapw.hpp"
using namespace mapw;
namespace {
void run()
{
    switch (ctx.below(6)) {
        case 0:
            return runMap<DualPointer, Multi, KString, KInt, false, 5, 0>("DualMappedPointerVector<string, int>");
        case 1:
            return runMap<DualPointer, Plain, KInt, KString, false, 5, 0>("DualMappedPointerVector<int, string>");
        case 2:
            return runMap<DualPointer, Multi, KUser, KDouble, false, 5, 0>("DualMappedPointerVector<ordered type, double>");
        case 3:
            return runMap<DualPointer, MoveOnly, KString, KUser, false, 5, 0>("DualMappedPointerVector<string, ordered type> of move-only");
        case 4:
            return runMap<DualPointer, Plain, KEnum, KHash, false, 5, 0>("DualMappedPointerVector<enum, user-hashed type>");
        case 5:
            return runMap<DualPointer, Multi, KLong, KInt, false, 5, 0>("DualMappedPointerVector<int64, int>");
    }
}
}  // namespace
const vp::Property vp::property{
    "C17",
    "A case is a random history over up to three vectors (six term-type/element-type combinations): inserts with both, either or no term (also with terms in use), insert_or_assign, added terms by index and by existing terms of either kind, removals by either kind of term and by index, apply/modify/transform, writes, clears, copies, moves, destruction, over small term spaces that include zero and the empty string; after every operation all elements, positions and terms of both kinds (present and absent) are compared with a model. Non-trivial: something was removed and something inserted after that.",
    130000,
    1300000,
    run,
    true};
