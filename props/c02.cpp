// C02: space, size and emptiness answers of the circular buffer agree with what push and pop do.
#include "circ.hpp"
using namespace circ;
namespace {
using gmlc::containers::CircularBuffer;
using gmlc::containers::CircularBufferRaw;

/** what a push of n bytes would do, without doing it */
bool wouldAccept(const CircularBuffer& b, Exact*, const Bytes& data)
{
    CircularBuffer c(b);
    return c.push(data.data(), static_cast<int>(data.size()));
}
bool wouldAccept(const CircularBufferRaw& b, Exact* mem, const Bytes& data)
{
    Bytes save(mem->mem.get(), mem->mem.get() + mem->size);
    CircularBufferRaw c(b);
    const bool r = c.push(data.data(), static_cast<int>(data.size()));
    if (!save.empty()) {
        memcpy(mem->mem.get(), save.data(), save.size());
    }
    return r;
}
template<class B>
void scan(const B& b, const Model& m, Exact* mem)
{
    ctx.label("all sizes scanned");
    for (int n = 1; n <= m.cap + 1; n += isBig(m.cap) ? 1 + static_cast<int>(ctx.below(20000)) : (m.cap > 200 ? 1 + static_cast<int>(ctx.below(40)) : 1)) {
        const bool said = b.isSpaceAvailable(n);
        const bool does = wouldAccept(b, mem, Bytes(static_cast<size_t>(n), 1));
        VP_CHECK(said == does, "isSpaceAvailable(%d) is %d but a push of %d bytes would be %s", n, said, n, does ? "accepted" : "refused");
    }
}
template<class B>
void drive(B& b, Model& m, Exact* mem)
{
    Stats st;
    const uint32_t mean = isBig(m.cap) ? 14 : ctx.chance(1, 6) ? 100 : 25;
    const uint32_t pushy = 3 + ctx.below(6);
    checkQueries(b, m);
    while (ctx.more(mean)) {
        switch (ctx.weighted({pushy, 5, 1, 1, 1, 2, burstWeight(m.cap)})) {
            case 0:
                push(b, m, drawSize(b, m), true, st);
                break;
            case 1:
                popSome(b, m, st);
                break;
            case 2:
                badPush(b);
                break;
            case 3: {
                int k = ctx.range(1, 4);
                while (k-- > 0) {
                    popSome(b, m, st);
                }
                break;
            }
            case 4:
                if (ctx.chance(1, 3)) {
                    ctx.log("clear");
                    b.clear();
                    m.blocks.clear();
                    m.fresh = true;
                    if (m.cap > 4 && ctx.chance(1, 2)) {
                        push(b, m, m.cap - 4 - static_cast<int>(ctx.below(2) ? ctx.below(static_cast<uint32_t>(m.cap - 4)) : 0), true, st);
                    }
                }
                break;
            case 6:
                if (ctx.below(3) == 2) {
                    popBurst(b, m, st);
                } else {
                    burst(b, m, true, st);
                }
                break;
            default:
                if (ctx.chance(1, m.cap > 200 ? 6 : 2)) {
                    scan(b, m, mem);
                }
                break;
        }
        checkQueries(b, m);
    }
    drain(b, m, st);
    checkQueries(b, m);
    scan(b, m, mem);
    if (st.total > m.cap && st.popped > 1) {
        ctx.nontrivial();
        ctx.label("went round");
    }
    if (st.refused != 0) {
        ctx.label("with refusals");
    }
}
void run()
{
    serial() = 0;
    Model m;
    m.cap = drawCapacity();
    if (ctx.below(2) == 0) {
        ctx.log("CircularBuffer(%d)", m.cap);
        CircularBuffer b(m.cap);
        drive(b, m, nullptr);
    } else {
        ctx.log("CircularBufferRaw of %d bytes", m.cap);
        ctx.label("raw");
        Exact mem(m.cap);
        CircularBufferRaw b(mem.mem.get(), m.cap);
        drive(b, m, &mem);
    }
}
}  // namespace
const vp::Property vp::property{
    "C02",
    "A case is a random sequence of pushes, pops, refused pushes and clears on an owning or raw circular buffer of capacity 0..2500 (rarely up to 200000, or filled with hundreds of small blocks); after every step the emptiness and next-size answers, before every push the space answer, and at "
    "random points the space answer for every size (against a push on a copy) are compared with the model and with what push/pop do; refusals are compared with the promised room. Non-trivial: more bytes went through than the capacity and at least two blocks came out.",
    700000,
    8000000,
    run,
    false};
