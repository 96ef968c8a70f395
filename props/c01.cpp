// C01: circular buffer (owning and raw) delivers what was stored, in order, byte for byte.
#include "circ.hpp"
using namespace circ;
namespace {
template<class B>
void drive(B& b, Model& m)
{
    Stats st;
    const uint32_t mean = isBig(m.cap) ? 14 : ctx.chance(1, 6) ? 120 : 30;
    const uint32_t pushy = 3 + ctx.below(6);
    while (ctx.more(mean)) {
        switch (ctx.weighted({pushy, 5, 1, 1, 1, burstWeight(m.cap)})) {
            case 0:
                push(b, m, drawSize(b, m), false, st);
                break;
            case 1:
                popSome(b, m, st);
                break;
            case 2:
                badPush(b);
                break;
            case 3: {
                int k = ctx.range(1, 4);
                while (k-- > 0) {
                    popSome(b, m, st);
                }
                break;
            }
            case 5:
                if (ctx.below(3) == 2) {
                    popBurst(b, m, st);
                } else {
                    burst(b, m, false, st);
                }
                break;
            default:
                if (ctx.chance(1, 4)) {
                    ctx.log("clear");
                    b.clear();
                    m.blocks.clear();
                    m.fresh = true;
                }
                break;
        }
        VP_CHECK(b.empty() == m.blocks.empty(), "empty() is %d with %zu block(s) stored", b.empty(), m.blocks.size());
    }
    drain(b, m, st);
    if (st.total > m.cap && st.popped > 1) {
        ctx.nontrivial();
        ctx.label("went round");
    }
    if (st.total > 3L * m.cap) {
        ctx.label("went round 3 times");
    }
    if (st.refused != 0) {
        ctx.label("with refusals");
    }
}
void run()
{
    serial() = 0;
    Model m;
    m.cap = drawCapacity();
    if (ctx.below(2) == 0) {
        ctx.log("CircularBuffer(%d)", m.cap);
        gmlc::containers::CircularBuffer b(m.cap);
        drive(b, m);
    } else {
        ctx.log("CircularBufferRaw of %d bytes", m.cap);
        ctx.label("raw");
        Exact mem(m.cap);
        gmlc::containers::CircularBufferRaw b(mem.mem.get(), m.cap);
        drive(b, m);
    }
}
}  // namespace
const vp::Property vp::property{
    "C01",
    "A case is a random sequence of pushes (sizes small, capacity-related, or at the border of what fits; contents also imitating the buffer's own length words and markers), pops into "
    "exact/larger/too small exact-size heap destinations, refused pushes and clears on an owning or raw circular buffer of capacity 0..2500 (rarely up to 200000, or filled with hundreds of small blocks), compared with a FIFO of byte blocks, then drained; address sanitizer on. "
    "Non-trivial: more bytes went through than the capacity and at least two blocks came out.",
    3000000,
    30000000,
    run,
    false};
