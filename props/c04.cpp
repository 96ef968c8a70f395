// C04: stack buffer (owning and raw): LIFO with reversal, byte for byte, exact space answers.
#include "stackbuf.hpp"
using namespace stk;
namespace {
template<class B>
void drive(B& b, Model& m)
{
    Stats st;
    const uint32_t mean = isBig(m.cap) ? 14 : ctx.chance(1, 6) ? 120 : 30;
    const uint32_t pushy = 4 + ctx.below(6);
    checkQueries(b, m);
    while (ctx.more(mean)) {
        switch (ctx.weighted({pushy, 5, 1, 1, 2, 1, burstWeight(m.cap)})) {
            case 0:
                push(b, m, drawSize(m), st);
                break;
            case 1:
                popSome(b, m, st);
                break;
            case 2:
                badPush(b);
                break;
            case 3: {
                int k = ctx.range(1, 4);
                while (k-- > 0) {
                    popSome(b, m, st);
                }
                break;
            }
            case 4:
                reverse(b, m, st);
                break;
            case 6:
                if (ctx.below(3) == 2) {
                    popBurst(b, m, st);
                } else {
                    burst(b, m, st);
                }
                break;
            default:
                if (ctx.chance(1, 4)) {
                    clear(b, m);
                }
                break;
        }
        checkQueries(b, m);
        checkSpace(b, m);
    }
    drain(b, m, st);
    checkQueries(b, m);
    checkSpace(b, m);
    if (st.reversals != 0) {
        ctx.label("reversed two or more blocks");
    }
    if (st.refused != 0) {
        ctx.label("with refusals");
    }
    if (st.popped >= 3 && st.pushed >= 3) {
        ctx.nontrivial();
    }
}
void run()
{
    serial() = 0;
    Model m;
    m.cap = drawCapacity();
    if (ctx.below(2) == 0) {
        ctx.log("StackBuffer(%d)", m.cap);
        gmlc::containers::StackBuffer b(m.cap);
        drive(b, m);
    } else {
        ctx.log("StackBufferRaw of %d bytes", m.cap);
        ctx.label("raw");
        Exact mem(m.cap);
        gmlc::containers::StackBufferRaw b(mem.mem.get(), m.cap);
        drive(b, m);
    }
}
}  // namespace
const vp::Property vp::property{
    "C04",
    "A case is a random sequence of pushes (small, capacity-related and exact-fit sizes), pops into exact/larger/too small exact-size heap destinations, refused pushes, reversals and clears on an owning or raw stack buffer of capacity "
    "0..2500 (rarely up to 200000, or filled with hundreds of small blocks), compared after every step with a reversible LIFO of byte blocks and the exact room formula, then drained; address sanitizer on. Non-trivial: at least three blocks stored and delivered.",
    2500000,
    30000000,
    run,
    false};
