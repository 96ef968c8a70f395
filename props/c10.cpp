// C10: iterators of the block containers against indices and standard algorithms.
#include "blk.hpp"
using namespace blk;
namespace {
template<class T, unsigned N>
void one(const char* name)
{
    if (ctx.below(2) == 0) {
        ctx.log("StableBlockVector<%s, %u>", name, N);
        ctx.label("StableBlockVector");
        runOne<Vec, false, T, N, true, Content | Iterators>();
    } else {
        ctx.log("StableBlockDeque<%s, %u>", name, N);
        ctx.label("StableBlockDeque");
        runOne<Deq, true, T, N, true, Content | Iterators>();
    }
}
void run()
{
    switch (ctx.below(7)) {
        case 0:
            return one<int, 0>("int");
        case 1:
            return one<int, 1>("int");
        case 2:
            return one<int, 2>("int");
        case 3:
            return one<std::string, 1>("std::string");
        case 4:
            return one<std::string, 3>("std::string");
        case 5:
            return one<Plain, 2>("accounted element");
        default:
            return one<short, 2>("short");
    }
}
}  // namespace
const vp::Property vp::property{
    "C10",
    "A case is a random history over up to three StableBlockVectors or StableBlockDeques (seven element-type/block-size combinations); in the reached states iterators and const iterators are walked one by one in both directions and by random steps of either sign "
    "(+=, -=, +, -, pre/post increment and decrement) and compared with indices, with each other and with end(), and standard algorithms are compared with the same ones over a std sequence. Non-trivial: the content reached a full block and block boundaries were crossed at least twice.",
    200000,
    1200000,
    run,
    true};
