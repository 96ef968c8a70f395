// C25: order of the work blocks taken from a WorkQueue.
#include "vp.hpp"
#include <deque>
#include <memory>
#include <vector>
// the worker threads exist but do not run while the queue is looked at: shadow.hpp and sched.cpp
#include "shadow.hpp"
#include <gmlc/containers/WorkQueue.hpp>
namespace {
using vp::ctx;
namespace sched = vp::sched;
using gmlc::containers::BasicWorkBlock;
using gmlc::containers::WorkQueue;
using Priority = WorkQueue::WorkPriority;
struct Block: BasicWorkBlock {
    int n;
    bool done;
    Block(int k, bool d): n(k), done(d) {}
    void execute() override { done = true; }
    bool isFinished() const override { return done; }
};
struct Model {
    std::deque<int> high, med, low;
    int ratio{4};
    // while both medium and low blocks wait and the ratio stays the same
    int mediums{0};
    bool lowSeen{false};
    int served{0};
    void newPeriod()
    {
        mediums = 0;
        lowSeen = false;
    }
    std::deque<int>& of(uint32_t p) { return p >= 2 ? high : (p == 1 ? low : med); }
};
const Priority priorities[] = {Priority::medium, Priority::low, Priority::high, Priority::required};
const char* const names[] = {"medium", "low", "high", "required"};

void body()
{
    const int workers = 1 + static_cast<int>(ctx.below(3));
    sched::hold(true);
    WorkQueue q(workers);
    Model m;
    int next = 0;
    int fullPeriods = 0;
    auto compare = [&] {
        const size_t n = m.high.size() + m.med.size() + m.low.size();
        VP_CHECK(q.numBlock() == n, "numBlock() is %zu, %zu block(s) are pending", q.numBlock(), n);
        VP_CHECK(q.isEmpty() == (n == 0), "isEmpty() is %d with %zu block(s) pending", q.isEmpty(), n);
    };
    auto take = [&] {
        auto wb = q.getWorkBlock();
        const int got = wb ? static_cast<Block*>(wb.get())->n : -1;
        ctx.log("getWorkBlock -> %d", got);
        if (!m.high.empty()) {
            VP_CHECK(got == m.high.front(), "getWorkBlock gave block %d, expected high priority block %d", got, m.high.front());
            m.high.pop_front();
            return;
        }
        if (m.med.empty() && m.low.empty()) {
            VP_CHECK(got == -1, "getWorkBlock gave block %d from an empty queue", got);
            return;
        }
        if (m.med.empty() || m.low.empty()) {
            auto& only = m.med.empty() ? m.low : m.med;
            VP_CHECK(got == only.front(), "getWorkBlock gave block %d, expected %d", got, only.front());
            only.pop_front();
            return;
        }
        VP_CHECK(got == m.med.front() || got == m.low.front(), "getWorkBlock gave block %d, expected medium block %d or low block %d", got, m.med.front(), m.low.front());
        if (got == m.med.front()) {
            ++m.mediums;
            VP_CHECK(m.mediums <= m.ratio, "%d medium blocks were served%s while low ones wait, the ratio is %d", m.mediums, m.lowSeen ? " after a low one" : "", m.ratio);
            m.med.pop_front();
        } else {
            if (m.lowSeen) {
                VP_CHECK(m.mediums == m.ratio, "%d medium blocks were served between two low ones, the ratio is %d", m.mediums, m.ratio);
                ++fullPeriods;
            }
            m.lowSeen = true;
            m.mediums = 0;
            m.low.pop_front();
        }
        if (m.med.empty() || m.low.empty()) {
            m.newPeriod();
        }
    };
    // how much is added compared with what is taken
    const uint32_t fill = 1 + ctx.below(6);
    const bool wide = ctx.below(60) == 59;
    if (wide) {
        ctx.label("large ratios");
    }
    while (ctx.more(60)) {
        switch (ctx.weighted({8, 2 + 3 * fill, 2, 1, 1, 2})) {
            case 0:
                take();
                break;
            case 1: {
                const uint32_t p = ctx.weighted({5, 4, 1, 1});
                const bool done = ctx.below(12) == 11;
                const int n = next++;
                ctx.log("add %s block %d%s", names[p], n, done ? " (finished)" : "");
                auto b = std::make_shared<Block>(n, done);
                if (p == 0 && n % 2 == 0) {
                    q.addWorkBlock(std::move(b));
                } else {
                    q.addWorkBlock(std::move(b), priorities[p]);
                }
                if (!done || p == 3) {
                    m.of(p).push_back(n);
                }
                break;
            }
            case 2: {
                const uint32_t p = ctx.weighted({5, 4, 1, 1});
                std::vector<std::shared_ptr<BasicWorkBlock>> v;
                uint32_t k = ctx.below(wide ? 600 : 8);
                ctx.log("add %u %s blocks from %d", k, names[p], next);
                while (k-- > 0) {
                    v.push_back(std::make_shared<Block>(next, false));
                    m.of(p).push_back(next);
                    ++next;
                }
                q.addWorkBlock(v, priorities[p]);
                break;
            }
            case 3: {
                static const int ratios[] = {1, 2, 3, 4, 5, 8, 0, -1, -7};
                static const int large[] = {16, 20, 33, 64, 100, 128, 255, 256, 257, 300, 1000, 65536, 65540, 2147483647};
                const int r = wide && ctx.below(4) != 0 ? large[ctx.below(14)] : ratios[ctx.below(9)];
                ctx.log("setPriorityRatio(%d)", r);
                q.setPriorityRatio(r);
                const int now = r > 0 ? r : 4;
                if (now != m.ratio) {
                    m.newPeriod();
                    // what was served under the old ratio may already exceed the new one
                }
                m.ratio = now;
                break;
            }
            case 4:
                q.addWorkBlock(std::shared_ptr<BasicWorkBlock>(), priorities[ctx.below(4)]);
                break;
            default: {
                uint32_t k = ctx.below(wide ? 900 : 30);
                while (k-- > 0) {
                    take();
                }
            }
        }
        compare();
    }
    while (!m.high.empty() || !m.med.empty() || !m.low.empty()) {
        take();
        compare();
    }
    VP_CHECK(!q.getWorkBlock(), "a block is left over after all were taken");
    compare();
    if (fullPeriods != 0) {
        ctx.nontrivial();
        ctx.label("ratio observed between two low blocks");
    }
    if (fullPeriods > 3) {
        ctx.label("ratio observed more than 3 times");
    }
    sched::hold(false);
    q.closeWorkerQueue();
}
void run()
{
    sched::Options opt;
    opt.sequential = true;
    sched::run(opt, [] { body(); });
}
}  // namespace
const vp::Property vp::property{
    "C25",
    "A case is a random sequence of single and vector additions (all priorities, also null and finished blocks), extractions and ratio changes on a WorkQueue whose workers are not scheduled, followed by a drain; every extraction is compared with FIFO channels, the order of the channels and the ratio "
    "between medium and low ones (counted over stretches in which both wait before and after every extraction and the ratio stays the same), and numBlock and isEmpty with the model after every operation. Non-trivial: at least one full stretch from a low block to the next was observed.",
    1500000,
    12000000,
    run,
    true};
