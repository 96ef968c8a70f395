// C05: resize, copy, move and swap of stack buffers keep the stored blocks and give the implied room.
#include "stackbuf.hpp"
using namespace stk;
namespace {
using gmlc::containers::StackBuffer;
struct Entry {
    std::unique_ptr<StackBuffer> b;
    Model m;
};
Model movedFrom(StackBuffer& b)
{
    Model m;
    m.cap = b.capacity();
    return m;
}
void run()
{
    serial() = 0;
    constexpr int count = 3;
    Entry e[count];
    Stats st;
    int withData = 0;
    const uint32_t mean = ctx.chance(1, 6) ? 120 : 40;
    while (ctx.more(mean)) {
        const int i = static_cast<int>(ctx.below(count));
        const int j = static_cast<int>(ctx.below(count));
        Entry& x = e[i];
        Entry& y = e[j];
        if (!x.b) {
            if (!y.b || ctx.below(2) == 0) {
                x.m = Model();
                if (ctx.below(4) == 3) {
                    x.b.reset(new StackBuffer());
                    ctx.log("b%d = StackBuffer()", i);
                } else {
                    x.m.cap = drawCapacity();
                    if (x.m.cap > 300 && !isBig(x.m.cap)) {
                        x.m.cap /= 5;
                    }
                    x.b.reset(new StackBuffer(x.m.cap));
                    ctx.log("b%d = StackBuffer(%d)", i, x.m.cap);
                }
            } else if (ctx.below(2) == 0) {
                x.b.reset(new StackBuffer(*y.b));
                x.m = y.m;
                ctx.log("b%d = copy of b%d", i, j);
                withData += x.m.blocks.empty() ? 0 : 1;
            } else {
                x.b.reset(new StackBuffer(std::move(*y.b)));
                x.m = std::move(y.m);
                y.m = movedFrom(*y.b);
                ctx.log("b%d = moved from b%d", i, j);
                withData += x.m.blocks.empty() ? 0 : 1;
            }
        } else {
            switch (ctx.weighted({14, 7, 6, 1, 2, 2, 2, 1, 1, 2, burstWeight(x.m.cap)})) {
                case 0:
                    ctx.log("b%d:", i);
                    push(*x.b, x.m, drawSize(x.m), st);
                    break;
                case 1:
                    ctx.log("b%d:", i);
                    popSome(*x.b, x.m, st);
                    break;
                case 2: {
                    const long used = x.m.used();
                    int n = 0;
                    switch (ctx.weighted({3, 4, 2, 2, 1})) {
                        case 0:
                            n = x.m.cap + ctx.range(0, 16);
                            break;
                        case 1:
                            n = static_cast<int>(std::max(0L, used + ctx.range(-4, 12)));
                            break;
                        case 2:
                            n = std::max(0, x.m.cap - ctx.range(0, 12));
                            break;
                        case 3:
                            n = ctx.range(0, 2 * x.m.cap + 10);
                            break;
                        default:
                            n = -1 - static_cast<int>(ctx.below(20));
                            break;
                    }
                    const int raw = x.b->rawBlockCapacity();
                    bool threw = false;
                    bool ok = false;
                    try {
                        ok = x.b->resize(n);
                    }
                    catch (const std::exception&) {
                        threw = true;
                    }
                    ctx.log("b%d: resize from %d to %d with %ld bytes in use %s", i, x.m.cap, n, used, threw ? "throws" : (ok ? "succeeds" : "returns false"));
                    VP_CHECK(!ok || n >= 0, "resize to %d succeeded", n);
                    VP_CHECK(!ok || used <= n, "resize to %d succeeded with %ld bytes in use", n, used);
                    VP_CHECK(ok || n < x.m.cap, "growing from %d to %d failed", x.m.cap, n);
                    VP_CHECK(ok || n < used || n < 0 || x.m.reversed, "resize from %d to %d failed with %ld bytes in use", x.m.cap, n, used);
                    VP_CHECK(x.b->rawBlockCapacity() >= x.b->capacity(), "rawBlockCapacity() is %d with a capacity of %d", x.b->rawBlockCapacity(), x.b->capacity());
                    VP_CHECK(n > raw || n < 0 || x.b->rawBlockCapacity() == raw, "a resize to %d allocated although rawBlockCapacity() was %d", n, raw);
                    if (ok) {
                        withData += x.m.blocks.empty() ? 0 : 1;
                        ctx.label(n > x.m.cap ? "grown" : "shrunk");
                        x.m.cap = n;
                    } else {
                        ctx.label("resize refused");
                    }
                    break;
                }
                case 3:
                    ctx.log("b%d:", i);
                    clear(*x.b, x.m);
                    break;
                case 4:
                    if (y.b) {
                        *x.b = *y.b;
                        if (i != j) {
                            x.m = y.m;
                        }
                        withData += x.m.blocks.empty() ? 0 : 1;
                        ctx.log("b%d = b%d (copy assignment)", i, j);
                    }
                    break;
                case 5:
                    if (i != j && y.b) {
                        *x.b = std::move(*y.b);
                        x.m = std::move(y.m);
                        y.m = movedFrom(*y.b);
                        withData += x.m.blocks.empty() ? 0 : 1;
                        ctx.log("b%d = std::move(b%d)", i, j);
                    }
                    break;
                case 6:
                    if (y.b) {
                        x.b->swap(*y.b);
                        if (i != j) {
                            std::swap(x.m, y.m);
                        }
                        ctx.log("swap b%d and b%d", i, j);
                    }
                    break;
                case 10:
                    ctx.log("b%d:", i);
                    if (ctx.below(3) == 2) {
                        popBurst(*x.b, x.m, st);
                    } else {
                        burst(*x.b, x.m, st);
                    }
                    break;
                case 7:
                    ctx.log("b%d destroyed", i);
                    x.b.reset();
                    x.m = Model();
                    break;
                case 8:
                    ctx.log("b%d:", i);
                    badPush(*x.b);
                    break;
                default:
                    ctx.log("b%d:", i);
                    reverse(*x.b, x.m, st);
                    break;
            }
        }
        for (auto& z : e) {
            if (z.b) {
                checkQueries(*z.b, z.m);
                checkSpace(*z.b, z.m);
            }
        }
    }
    for (int i = 0; i < count; ++i) {
        if (e[i].b) {
            ctx.log("b%d:", i);
            drain(*e[i].b, e[i].m, st);
            checkQueries(*e[i].b, e[i].m);
            checkSpace(*e[i].b, e[i].m);
        }
    }
    if (withData != 0) {
        ctx.label("resized, copied or moved with blocks stored");
    }
    if (withData >= 2 && st.popped >= 2) {
        ctx.nontrivial();
    }
}
}  // namespace
const vp::Property vp::property{
    "C05",
    "A case is a random history over three stack buffers: construction (default, sized, copy, move), pushes, pops, reversals, resizes (up, down, around the bytes in use, negative), clears, copy/move assignment, swap (also with itself) and "
    "destruction; after every step all buffers are compared with their models and the exact room formula and finally drained; address sanitizer on and heap balanced. Non-trivial: at least two resizes/copies/moves of a buffer holding blocks and two blocks delivered.",
    2000000,
    20000000,
    run,
    true};
