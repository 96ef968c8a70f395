// Shared by C04 and C05: a stack buffer (owning or raw) next to a model.
#pragma once
#include "bufcommon.hpp"
#include <algorithm>
#include <gmlc/containers/StackBuffer.hpp>

namespace stk {
using namespace buf;

struct Model {
    std::vector<Bytes> blocks;  // back() is on top
    int cap{0};
    bool reversed{false};  // reversed since it was last empty
    long used() const
    {
        long n = 0;
        for (auto& b : blocks) {
            n += static_cast<long>(b.size()) + 8;
        }
        return n;
    }
    void emptied() { reversed = false; }
};
inline unsigned& serial()
{
    static unsigned s = 0;
    return s;
}
struct Stats {
    int pushed{0};
    int popped{0};
    int refused{0};
    int reversals{0};
};
inline int drawSize(const Model& m)
{
    const int room = static_cast<int>(m.cap - m.used() - 8);
    switch (ctx.weighted({5, 3, 4, 2, 1})) {
        case 0:
            return ctx.range(1, 8);
        case 1:
            return ctx.range(1, std::max(1, m.cap / 4));
        case 2:
            return std::max(1, room + 1 - static_cast<int>(ctx.weighted({2, 5, 2, 1})));
        case 3:
            return ctx.range(1, m.cap + 6);
        default:
            return std::max(1, room - 8 - static_cast<int>(ctx.below(4)));
    }
}
template<class B>
void checkQueries(const B& b, const Model& m)
{
    VP_CHECK(b.empty() == m.blocks.empty(), "empty() is %d with %zu block(s) stored", b.empty(), m.blocks.size());
    VP_CHECK(b.getCurrentCount() == static_cast<int>(m.blocks.size()), "getCurrentCount() is %d with %zu block(s) stored", b.getCurrentCount(), m.blocks.size());
    const int expect = m.blocks.empty() ? 0 : static_cast<int>(m.blocks.back().size());
    VP_CHECK(b.nextDataSize() == expect, "nextDataSize() is %d, the next block has %d bytes", b.nextDataSize(), expect);
    VP_CHECK(b.capacity() == m.cap, "capacity() is %d, expected %d", b.capacity(), m.cap);
}
template<class B>
void checkSpace(const B& b, const Model& m)
{
    if (m.reversed) {
        return;
    }
    const long room = m.cap - m.used() - 8;
    for (long n : {1L, room - 1, room, room + 1, room + 8, static_cast<long>(m.cap)}) {
        if (n > 0) {
            const bool said = b.isSpaceAvailable(static_cast<int>(n));
            VP_CHECK(said == (n <= room), "isSpaceAvailable(%ld) is %d with %ld of %d bytes used", n, said, m.used(), m.cap);
        }
    }
}
template<class B>
bool push(B& b, Model& m, int n, Stats& st)
{
    auto data = makeBlock(n, ++serial(), ctx.weighted({6, 1, 1, 1}));
    Exact src(data);
    const bool said = b.isSpaceAvailable(n);
    const bool ok = b.push(src.mem.get(), n);
    ctx.log("push #%u of %d bytes -> %s", serial(), n, ok ? "stored" : "refused");
    VP_CHECK(said == ok, "isSpaceAvailable(%d) was %d but push of %d bytes returned %d", n, said, n, ok);
    const bool fits = n + 8 + m.used() <= m.cap;
    VP_CHECK(!ok || fits, "push of %d bytes accepted with only %ld of %d bytes unused", n, m.cap - m.used(), m.cap);
    VP_CHECK(ok || !fits || m.reversed, "push of %d bytes refused with %ld of %d bytes used by %zu block(s)", n, m.used(), m.cap, m.blocks.size());
    if (ok) {
        m.blocks.push_back(std::move(data));
        ++st.pushed;
    } else {
        ++st.refused;
    }
    return ok;
}
template<class B>
void popSome(B& b, Model& m, Stats& st);
/** many small blocks, as long as they fit */
template<class B>
void burst(B& b, Model& m, Stats& st)
{
    int k = burstLength(m.cap);
    ctx.log("burst of up to %d blocks", k);
    if (k > 50) {
        ctx.label("burst of more than 50 blocks");
    }
    const uint32_t most = 1 + ctx.below(4);
    while (k-- > 0) {
        const int n = 1 + static_cast<int>(ctx.below(most));
        if (!push(b, m, n, st)) {
            break;
        }
    }
    if (m.blocks.size() > 256) {
        ctx.label("more than 256 blocks stored");
    }
}
/** many pops */
template<class B>
void popBurst(B& b, Model& m, Stats& st)
{
    int k = burstLength(m.cap);
    ctx.log("%d pops", k);
    while (k-- > 0 && !m.blocks.empty()) {
        popSome(b, m, st);
    }
}
template<class B>
void badPush(B& b)
{
    unsigned char byte = 7;
    switch (ctx.below(5)) {
        case 4: {
            const int n = 2147483647 - static_cast<int>(ctx.below(8));
            ctx.log("push of %d bytes", n);
            VP_CHECK(!b.isSpaceAvailable(n), "isSpaceAvailable(%d) with a capacity of %d", n, b.capacity());
            VP_CHECK(!b.push(&byte, n), "push of %d bytes was accepted", n);
            break;
        }
        case 0:
            ctx.log("push of 0 bytes");
            VP_CHECK(!b.push(&byte, 0), "push of 0 bytes was accepted");
            break;
        case 1:
            ctx.log("push of null data");
            VP_CHECK(!b.push(nullptr, ctx.range(1, 9)), "push of null data was accepted");
            break;
        case 2:
            ctx.log("push with a negative size");
            VP_CHECK(!b.push(&byte, -1 - static_cast<int>(ctx.below(6))), "push with a negative size was accepted");
            break;
        default:
            ctx.log("push of null data with size 0");
            VP_CHECK(!b.push(nullptr, 0), "push of null data was accepted");
            break;
    }
}
template<class B>
void pop(B& b, Model& m, int dst, Stats& st)
{
    Exact d(dst);
    const int r = b.pop(d.mem.get(), dst);
    ctx.log("pop into %d bytes -> %d", dst, r);
    if (m.blocks.empty()) {
        VP_CHECK(r == 0, "pop on an empty buffer returned %d", r);
        VP_CHECK(d.untouchedFrom(0), "pop on an empty buffer wrote to the destination");
        return;
    }
    const auto& top = m.blocks.back();
    const int n = static_cast<int>(top.size());
    if (n > dst) {
        VP_CHECK(r == -n, "pop of a %d byte block into %d bytes returned %d", n, dst, r);
        VP_CHECK(d.untouchedFrom(0), "pop into a too small destination wrote to it");
        return;
    }
    VP_CHECK(r == n, "pop returned %d, the next block has %d bytes", r, n);
    VP_CHECK(memcmp(d.mem.get(), top.data(), top.size()) == 0, "pop delivered %s, expected %s", hex(d.mem.get(), top.size()).c_str(), hex(top.data(), top.size()).c_str());
    VP_CHECK(d.untouchedFrom(n), "pop wrote beyond the %d bytes of the block", n);
    m.blocks.pop_back();
    if (m.blocks.empty()) {
        m.emptied();
    }
    ++st.popped;
}
template<class B>
void popSome(B& b, Model& m, Stats& st)
{
    const int n = m.blocks.empty() ? 0 : static_cast<int>(m.blocks.back().size());
    switch (ctx.weighted({6, 3, 2, 1})) {
        case 0:
            return pop(b, m, n, st);
        case 1:
            return pop(b, m, n + ctx.range(1, 20), st);
        case 2:
            return pop(b, m, std::max(0, n - 1), st);
        default:
            return pop(b, m, n / 2, st);
    }
}
template<class B>
void reverse(B& b, Model& m, Stats& st)
{
    ctx.log("reverse");
    b.reverse();
    std::reverse(m.blocks.begin(), m.blocks.end());
    if (!m.blocks.empty()) {
        m.reversed = true;
        if (m.blocks.size() > 1) {
            ++st.reversals;
        }
    }
}
template<class B>
void clear(B& b, Model& m)
{
    ctx.log("clear");
    b.clear();
    m.blocks.clear();
    m.emptied();
}
template<class B>
void drain(B& b, Model& m, Stats& st)
{
    while (!m.blocks.empty()) {
        pop(b, m, static_cast<int>(m.blocks.back().size()), st);
    }
    pop(b, m, 16, st);
}
}  // namespace stk
