// C03: resize, copy and move of circular buffers keep the stored blocks.
#include "circ.hpp"
using namespace circ;
namespace {
using gmlc::containers::CircularBuffer;
struct Entry {
    std::unique_ptr<CircularBuffer> b;
    Model m;
};
Model emptied(CircularBuffer& b)
{
    Model m;
    m.cap = b.capacity();
    m.fresh = false;  // no promise about the room of a moved-from buffer
    return m;
}
void run()
{
    serial() = 0;
    constexpr int count = 3;
    Entry e[count];
    Stats st;
    int withData = 0;
    int resizes = 0;
    const uint32_t mean = ctx.chance(1, 6) ? 120 : 40;
    while (ctx.more(mean)) {
        const int i = static_cast<int>(ctx.below(count));
        const int j = static_cast<int>(ctx.below(count));
        Entry& x = e[i];
        Entry& y = e[j];
        if (!x.b) {
            if (!y.b || ctx.below(2) == 0) {
                if (ctx.below(4) == 3) {
                    x.b.reset(new CircularBuffer());
                    x.m = Model();
                    ctx.log("b%d = CircularBuffer()", i);
                } else {
                    x.m = Model();
                    x.m.cap = drawCapacity();
                    if (x.m.cap > 300 && !isBig(x.m.cap)) {
                        x.m.cap /= 5;
                    }
                    x.b.reset(new CircularBuffer(x.m.cap));
                    ctx.log("b%d = CircularBuffer(%d)", i, x.m.cap);
                }
            } else if (ctx.below(2) == 0) {
                x.b.reset(new CircularBuffer(*y.b));
                x.m = y.m;
                ctx.log("b%d = copy of b%d", i, j);
                withData += x.m.blocks.empty() ? 0 : 1;
            } else {
                x.b.reset(new CircularBuffer(std::move(*y.b)));
                x.m = std::move(y.m);
                y.m = emptied(*y.b);
                ctx.log("b%d = moved from b%d", i, j);
                withData += x.m.blocks.empty() ? 0 : 1;
            }
            checkQueries(*x.b, x.m);
            if (y.b) {
                checkQueries(*y.b, y.m);
            }
            continue;
        }
        switch (ctx.weighted({14, 10, 6, 1, 2, 2, 1, 1, burstWeight(x.m.cap)})) {
            case 0:
                ctx.log("b%d:", i);
                push(*x.b, x.m, drawSize(*x.b, x.m), true, st);
                break;
            case 1:
                ctx.log("b%d:", i);
                popSome(*x.b, x.m, st);
                break;
            case 2: {
                const long used = x.m.used();
                int n = 0;
                switch (ctx.weighted({3, 3, 2, 2})) {
                    case 0:
                        n = x.m.cap + ctx.range(0, 12);
                        break;
                    case 1:
                        n = std::max(0L, used + ctx.range(-4, 12));
                        break;
                    case 2:
                        n = std::max(0, x.m.cap - ctx.range(0, 12));
                        break;
                    default:
                        n = ctx.range(0, 2 * x.m.cap + 10);
                        break;
                }
                bool threw = false;
                try {
                    x.b->resize(n);
                }
                catch (const std::exception&) {
                    threw = true;
                }
                ctx.log("b%d: resize from %d to %d with %ld bytes in use %s", i, x.m.cap, n, used, threw ? "throws" : "");
                VP_CHECK(!threw || n < x.m.cap, "growing from %d to %d threw", x.m.cap, n);
                VP_CHECK(!threw || !x.m.blocks.empty(), "resizing an empty buffer from %d to %d threw", x.m.cap, n);
                if (!threw) {
                    VP_CHECK(used <= n, "resize to %d succeeded with %ld bytes in use", n, used);
                    ++resizes;
                    withData += x.m.blocks.empty() ? 0 : 1;
                    ctx.label(n > x.m.cap ? "grown" : "shrunk");
                    x.m.cap = n;
                    x.m.fresh = x.m.fresh && x.m.blocks.empty();
                } else {
                    ctx.label("resize threw");
                }
                break;
            }
            case 3:
                ctx.log("b%d: clear", i);
                x.b->clear();
                x.m.blocks.clear();
                x.m.fresh = true;
                break;
            case 4:
                if (y.b) {
                    *x.b = *y.b;
                    if (i != j) {
                        x.m = y.m;
                    }
                    withData += x.m.blocks.empty() ? 0 : 1;
                    ctx.log("b%d = b%d (copy assignment)", i, j);
                }
                break;
            case 5:
                if (i != j && y.b) {
                    *x.b = std::move(*y.b);
                    x.m = std::move(y.m);
                    y.m = emptied(*y.b);
                    withData += x.m.blocks.empty() ? 0 : 1;
                    ctx.log("b%d = std::move(b%d)", i, j);
                }
                break;
            case 8:
                ctx.log("b%d:", i);
                if (ctx.below(3) == 2) {
                    popBurst(*x.b, x.m, st);
                } else {
                    burst(*x.b, x.m, true, st);
                }
                break;
            case 6:
                ctx.log("b%d destroyed", i);
                x.b.reset();
                x.m = Model();
                break;
            default:
                ctx.log("b%d:", i);
                badPush(*x.b);
                break;
        }
        for (auto& z : e) {
            if (z.b) {
                checkQueries(*z.b, z.m);
            }
        }
    }
    for (int i = 0; i < count; ++i) {
        if (e[i].b) {
            ctx.log("b%d:", i);
            drain(*e[i].b, e[i].m, st);
            checkQueries(*e[i].b, e[i].m);
        }
    }
    if (withData >= 2 && st.popped >= 2) {
        ctx.nontrivial();
    }
    if (withData != 0) {
        ctx.label("resized, copied or moved with blocks stored");
    }
}
}  // namespace
const vp::Property vp::property{
    "C03",
    "A case is a random history over three circular buffers: construction (default, sized, copy, move), pushes, pops, resizes (up, down, around the bytes in use), clears, copy and move assignment, destruction; after every step all buffers "
    "are compared with their models and finally drained; address sanitizer on and heap balanced. Non-trivial: at least two resizes/copies/moves of a buffer holding blocks and two blocks delivered.",
    1500000,
    20000000,
    run,
    true};
