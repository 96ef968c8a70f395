// C16: DualStringMappedVector against a model.
#include "mapw.hpp"
using namespace mapw;
namespace {
void run()
{
    switch (ctx.below(7)) {
        case 0:
            return runMap<DualString, Plain, KView, KInt, true, 5, 0>("DualStringMappedVector<int, stable, 5>");
        case 1:
            return runMap<DualString, Multi, KView, KInt, true, 1, 0>("DualStringMappedVector<int, stable, 1>");
        case 2:
            return runMap<DualString, Plain, KView, KUser, true, 2, 0>("DualStringMappedVector<ordered type, stable, 2>");
        case 3:
            return runMap<DualString, Multi, KView, KInt, false, 5, 0>("DualStringMappedVector<int, unstable, 5>");
        case 4:
            return runMap<DualString, int, KView, KDouble, false, 0, 0>("DualStringMappedVector<double, unstable, 0> of int");
        case 5:
            return runMap<DualString, Plain, KView, KHash, true, 0, 0>("DualStringMappedVector<user-hashed type, stable, 0>");
        case 6:
            return runMap<DualString, Multi, KView, KEnum, false, 1, 0>("DualStringMappedVector<enum, unstable, 1>");
    }
}
}  // namespace
const vp::Property vp::property{
    "C16",
    "A case is a random history over up to three vectors (seven term-type/storage combinations): inserts with both, either or no term (also with terms in use), insert_or_assign, added terms by index and by existing terms of either kind, removals by either kind of term and by index, apply/modify/transform, writes, clears, copies, moves, destruction, with names passed as views of memory that is wiped after the call, over small term spaces that include zero and the empty string; after every operation all elements, positions and terms of both kinds (present and absent) are compared with a model. Non-trivial: something was removed and something inserted after that.",
    110000,
    1300000,
    run,
    true};
