// C15: DualMappedVector against a model.
#include "mapw.hpp"
using namespace mapw;
namespace {
void run()
{
    switch (ctx.below(8)) {
        case 0:
            return runMap<Dual, Multi, KString, KInt, false, 5, 0>("DualMappedVector<string, int>");
        case 1:
            return runMap<Dual, Plain, KInt, KString, false, 5, 0>("DualMappedVector<int, string>");
        case 2:
            return runMap<Dual, Multi, KString, KUser, false, 5, 0>("DualMappedVector<string, ordered type>");
        case 3:
            return runMap<Dual, Plain, KString, KInt, true, 5, 0>("DualMappedVector<string, int, stable, 5>");
        case 4:
            return runMap<Dual, Multi, KUser, KDouble, true, 1, 0>("DualMappedVector<ordered type, double, stable, 1>");
        case 5:
            return runMap<Dual, std::string, KWide, KString, true, 2, 0>("DualMappedVector<wstring, string, stable, 2> of strings");
        case 6:
            return runMap<Dual, Plain, KHash, KEnum, true, 0, 0>("DualMappedVector<user-hashed type, enum, stable, 0>");
        case 7:
            return runMap<Dual, int, KLong, KPointer, false, 5, 0>("DualMappedVector<int64, pointer> of int");
    }
}
}  // namespace
const vp::Property vp::property{
    "C15",
    "A case is a random history over up to three vectors (eight term-type/storage combinations): inserts with both, either or no term (also with terms in use), insert_or_assign, added terms by index and by existing terms of either kind, removals by either kind of term and by index, apply/modify/transform, writes, clears, copies, moves, destruction, over small term spaces that include zero and the empty string; after every operation all elements, positions and terms of both kinds (present and absent) are compared with a model. Non-trivial: something was removed and something inserted after that.",
    130000,
    1500000,
    run,
    true};
