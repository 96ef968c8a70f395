// Shared by C01, C02, C03: a circular buffer (owning or raw) next to a model.
#pragma once
#include "bufcommon.hpp"
#include <algorithm>
#include <deque>
#include <gmlc/containers/CircularBuffer.hpp>

namespace circ {
using namespace buf;

struct Model {
    std::deque<Bytes> blocks;
    int cap{0};
    int maxBlock{0};  // largest block that was ever stored
    bool fresh{true};  // new or cleared
    long used() const
    {
        long n = 0;
        for (auto& b : blocks) {
            n += static_cast<long>(b.size()) + 4;
        }
        return n;
    }
};
inline unsigned& serial()
{
    static unsigned s = 0;
    return s;
}
struct Stats {
    int wraps{0};
    int exact{0};
    int pushed{0};
    int popped{0};
    int refused{0};
    long total{0};
};

/** size of the next block to push: small, related to the capacity, or at the border of what is accepted */
template<class B>
int drawSize(const B& b, const Model& m)
{
    switch (ctx.weighted({5, 3, 5, 2, 1})) {
        case 0:
            return ctx.range(1, 8);
        case 1:
            return ctx.range(1, std::max(1, m.cap / 3));
        case 2: {
            // around the largest size that is said to fit
            int lo = 0;
            int top = m.cap;
            if (isBig(m.cap)) {  // first in larger steps
                while (top > 200 && !b.isSpaceAvailable(top)) {
                    top -= 100;
                }
                top += 100;
            }
            for (int n = top; n >= 1; --n) {
                if (b.isSpaceAvailable(n)) {
                    lo = n;
                    break;
                }
            }
            return std::max(1, lo + 2 - static_cast<int>(ctx.weighted({0, 1, 6, 3, 2, 2, 2, 2})));
        }
        case 3:
            return ctx.range(1, m.cap + 6);
        default:
            return std::max(1, m.cap - 4 - static_cast<int>(ctx.below(3)));
    }
}

template<class B>
void checkQueries(const B& b, const Model& m)
{
    VP_CHECK(b.empty() == m.blocks.empty(), "empty() is %d with %zu block(s) stored", b.empty(), m.blocks.size());
    const int next = b.nextDataSize();
    const int expect = m.blocks.empty() ? 0 : static_cast<int>(m.blocks.front().size());
    VP_CHECK(next == expect, "nextDataSize() is %d, the next block has %d bytes", next, expect);
    VP_CHECK(b.capacity() == m.cap, "capacity() is %d, expected %d", b.capacity(), m.cap);
}

/** pushes n bytes; queries: also check the space promises */
template<class B>
bool push(B& b, Model& m, int n, bool queries, Stats& st)
{
    auto data = makeBlock(n, ++serial(), ctx.weighted({6, 1, 1, 1}));
    Exact src(data);
    const bool said = b.isSpaceAvailable(n);
    const bool ok = b.push(src.mem.get(), n);
    ctx.log("push #%u of %d bytes -> %s", serial(), n, ok ? "stored" : "refused");
    if (queries) {
        VP_CHECK(said == ok, "isSpaceAvailable(%d) was %d but push of %d bytes returned %d", n, said, n, ok);
        const long unused = m.cap - m.used();
        const int big = std::max(n, m.maxBlock);
        VP_CHECK(ok || unused <= 2L * (big + 4) + 16, "push of %d bytes refused with %ld of %d bytes unused (largest block %d)", n, unused, m.cap, big);
        VP_CHECK(ok || !m.fresh || n > m.cap - 4, "new or cleared buffer of capacity %d refused a block of %d bytes", m.cap, n);
    }
    VP_CHECK(!ok || n + 4 + m.used() <= m.cap, "push of %d bytes accepted with only %ld of %d bytes unused", n, m.cap - m.used(), m.cap);
    if (ok) {
        m.fresh = false;
        m.blocks.push_back(std::move(data));
        m.maxBlock = std::max(m.maxBlock, n);
        ++st.pushed;
        st.total += n + 4;
    } else {
        ++st.refused;
    }
    return ok;
}
template<class B>
void popSome(B& b, Model& m, Stats& st);
/** many small blocks, as long as they fit */
template<class B>
void burst(B& b, Model& m, bool queries, Stats& st)
{
    int k = burstLength(m.cap);
    ctx.log("burst of up to %d blocks", k);
    if (k > 50) {
        ctx.label("burst of more than 50 blocks");
    }
    const uint32_t most = 1 + ctx.below(4);
    while (k-- > 0) {
        const int n = 1 + static_cast<int>(ctx.below(most));
        if (!push(b, m, n, queries, st)) {
            break;
        }
    }
    if (m.blocks.size() > 256) {
        ctx.label("more than 256 blocks stored");
    }
}
/** many pops */
template<class B>
void popBurst(B& b, Model& m, Stats& st)
{
    int k = burstLength(m.cap);
    ctx.log("%d pops", k);
    while (k-- > 0 && !m.blocks.empty()) {
        popSome(b, m, st);
    }
}
template<class B>
void badPush(B& b)
{
    unsigned char byte = 7;
    switch (ctx.below(5)) {
        case 4: {
            const int n = 2147483647 - static_cast<int>(ctx.below(8));
            ctx.log("push of %d bytes", n);
            VP_CHECK(!b.isSpaceAvailable(n), "isSpaceAvailable(%d) with a capacity of %d", n, b.capacity());
            VP_CHECK(!b.push(&byte, n), "push of %d bytes was accepted", n);
            break;
        }
        case 0:
            ctx.log("push of 0 bytes");
            VP_CHECK(!b.push(&byte, 0), "push of 0 bytes was accepted");
            break;
        case 1:
            ctx.log("push of null data");
            VP_CHECK(!b.push(nullptr, ctx.range(1, 9)), "push of null data was accepted");
            break;
        case 2:
            ctx.log("push of -3 bytes");
            VP_CHECK(!b.push(&byte, -1 - static_cast<int>(ctx.below(6))), "push with a negative size was accepted");
            break;
        default:
            ctx.log("push of null data with size 0");
            VP_CHECK(!b.push(nullptr, 0), "push of null data was accepted");
            break;
    }
}
/** pops into a destination of dst bytes */
template<class B>
void pop(B& b, Model& m, int dst, Stats& st)
{
    Exact d(dst);
    const int r = b.pop(d.mem.get(), dst);
    ctx.log("pop into %d bytes -> %d", dst, r);
    if (m.blocks.empty()) {
        VP_CHECK(r == 0, "pop on an empty buffer returned %d", r);
        VP_CHECK(d.untouchedFrom(0), "pop on an empty buffer wrote to the destination");
        return;
    }
    const auto& front = m.blocks.front();
    const int n = static_cast<int>(front.size());
    if (n > dst) {
        VP_CHECK(r == -n, "pop of a %d byte block into %d bytes returned %d", n, dst, r);
        VP_CHECK(d.untouchedFrom(0), "pop into a too small destination wrote to it");
        return;
    }
    VP_CHECK(r == n, "pop returned %d, the next block has %d bytes", r, n);
    VP_CHECK(memcmp(d.mem.get(), front.data(), front.size()) == 0, "pop delivered %s, expected %s", hex(d.mem.get(), front.size()).c_str(), hex(front.data(), front.size()).c_str());
    VP_CHECK(d.untouchedFrom(n), "pop wrote beyond the %d bytes of the block", n);
    m.blocks.pop_front();
    ++st.popped;
}
template<class B>
void popSome(B& b, Model& m, Stats& st)
{
    const int n = m.blocks.empty() ? 0 : static_cast<int>(m.blocks.front().size());
    switch (ctx.weighted({6, 3, 2, 1})) {
        case 0:
            return pop(b, m, n, st);
        case 1:
            return pop(b, m, n + ctx.range(1, 20), st);
        case 2:
            return pop(b, m, std::max(0, n - 1), st);
        default:
            return pop(b, m, n / 2, st);
    }
}
template<class B>
void drain(B& b, Model& m, Stats& st)
{
    while (!m.blocks.empty()) {
        pop(b, m, static_cast<int>(m.blocks.front().size()), st);
    }
    pop(b, m, 16, st);
}
}  // namespace circ
