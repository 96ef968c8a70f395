// C12: MappedVector against a model.
#include "mapw.hpp"
using namespace mapw;
namespace {
void run()
{
    switch (ctx.below(11)) {
        case 0:
            return runMap<Mapped, Plain, KString, void, false, 5, 0>("MappedVector<string>");
        case 1:
            return runMap<Mapped, Multi, KInt, void, false, 5, 0>("MappedVector<int>");
        case 2:
            return runMap<Mapped, Plain, KUser, void, false, 5, 0>("MappedVector<ordered type>");
        case 3:
            return runMap<Mapped, Multi, KString, void, true, 5, 0>("MappedVector<string, stable, 5>");
        case 4:
            return runMap<Mapped, Plain, KInt, void, true, 1, 0>("MappedVector<int, stable, 1>");
        case 5:
            return runMap<Mapped, std::string, KUser, void, true, 2, 0>("MappedVector<ordered type, stable, 2> of strings");
        case 6:
            return runMap<Mapped, int, KWide, void, true, 0, 0>("MappedVector<wstring, stable, 0> of int");
        case 7:
            return runMap<Mapped, std::string, KDouble, void, false, 5, 0>("MappedVector<double> of strings");
        case 8:
            return runMap<Mapped, Multi, KEnum, void, false, 5, 0>("MappedVector<enum>");
        case 9:
            return runMap<Mapped, int, KPointer, void, true, 1, 0>("MappedVector<pointer, stable, 1> of int");
        case 10:
            return runMap<Mapped, Plain, KHash, void, true, 2, 0>("MappedVector<user-hashed type, stable, 2>");
    }
}
}  // namespace
const vp::Property vp::property{
    "C12",
    "A case is a random history over up to three vectors (eleven term-type/storage combinations): inserts with and without terms, insert_or_assign, added terms, removals by term and index, apply/modify/transform, writes, clears, copies, moves, destruction, elements made from none, one or two arguments or as copies of their own elements, out-of-range indices of any size, over a small term space (rarely hundreds of elements and 1500 terms) that includes zero, the empty string, long names and names with zero bytes; after every operation all elements, positions and terms (present and absent) are compared with a model. Non-trivial: something was removed and something inserted after that.",
    130000,
    1500000,
    run,
    true};
