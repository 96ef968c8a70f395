// C13: StringMappedVector against a model.
#include "mapw.hpp"
using namespace mapw;
namespace {
void run()
{
    switch (ctx.below(6)) {
        case 0:
            return runMap<StringMapped, Multi, KView, void, true, 5, 0>("StringMappedVector<stable, 5>");
        case 1:
            return runMap<StringMapped, Plain, KView, void, true, 1, 0>("StringMappedVector<stable, 1>");
        case 2:
            return runMap<StringMapped, Multi, KView, void, false, 5, 0>("StringMappedVector<unstable, 5>");
        case 3:
            return runMap<StringMapped, Plain, KView, void, false, 0, 0>("StringMappedVector<unstable, 0>");
        case 4:
            return runMap<StringMapped, std::string, KView, void, true, 2, 0>("StringMappedVector<stable, 2> of strings");
        case 5:
            return runMap<StringMapped, int, KView, void, false, 3, 0>("StringMappedVector<unstable, 3> of int");
    }
}
}  // namespace
const vp::Property vp::property{
    "C13",
    "A case is a random history over up to three vectors (six element-type/storage combinations): inserts with and without terms, insert_or_assign, added terms, removals by term and index, apply/modify/transform, writes, clears, copies, moves, destruction, with names passed as views of memory that is wiped after the call, elements made from none, one or two arguments or as copies of their own elements, out-of-range indices of any size, over a small term space (rarely hundreds of elements and 1500 terms) that includes zero, the empty string, long names and names with zero bytes; after every operation all elements, positions and terms (present and absent) are compared with a model. Non-trivial: something was removed and something inserted after that.",
    150000,
    1500000,
    run,
    true};
