// C24: WorkQueue runs every accepted block exactly once, promptly, and shuts down.
#include "shadow.hpp"
// the queue uses the primitives of shadow.hpp from here on
#include <gmlc/containers/WorkQueue.hpp>
namespace {
using vp::ctx;
namespace sched = vp::sched;
using gmlc::containers::BasicWorkBlock;
using gmlc::containers::WorkQueue;
using Priority = WorkQueue::WorkPriority;
const Priority priorities[] = {Priority::medium, Priority::low, Priority::high, Priority::required};
const char* const priorityNames[] = {"medium", "low", "high", "required"};

class Program {
    enum class Style { Plain, Gated, Hostage, Done, Parent };
    struct Info {
        Style style;
        bool added{false};  // the add call has begun
        bool accepted{false};  // and has returned
        int64_t addedAt{0};
        int runs{0};
        bool ended{false};
        int depth{0};  // of a block added by a block
    };
    class Block: public BasicWorkBlock {
        Program& p;
        size_t n;

      public:
        Block(Program& prog, size_t k): p(prog), n(k) {}
        void arm(size_t k) { n = k; }
        void execute() override { p.executed(n); }
        bool isFinished() const override
        {
            sched::yield();
            return p.info[n].ended || p.info[n].style == Style::Done;
        }
    };
    std::deque<Info> info;
    std::unique_ptr<WorkQueue> q;
    int workers{0};
    int running{0};
    bool closing{false};
    bool closed{false};
    bool prompt{true};
    size_t gates{0};
    size_t arrived{0};
    int maxRunning{0};
    int deepest{0};
    int again{0};
    std::vector<std::shared_ptr<Block>> used;
    std::vector<std::shared_ptr<Block>> idle;

    void executed(size_t n)
    {
        Info& b = info[n];
        if (b.style == Style::Done) {
            VP_CHECK(workers == 0, "block %zu is executed although it had finished before it was added", n);
            return;
        }
        VP_CHECK(!closed, "block %zu starts after the queue was closed", n);
        VP_CHECK(b.added, "block %zu is executed without having been added", n);
        VP_CHECK(b.runs == 0, "block %zu is executed more than once", n);
        ++b.runs;
        if (prompt && !closing) {
            VP_CHECK(sched::now() == b.addedAt, "block %zu was not started when a worker was idle, but %g s later after a timeout", n, static_cast<double>(sched::now() - b.addedAt) / 1e9);
        }
        ++running;
        maxRunning = std::max(maxRunning, running);
        if (ctx.tracing()) {
            ctx.log("  t%d runs block %zu", sched::self(), n);
        }
        sched::yield();
        if (b.style == Style::Gated) {
            ++arrived;
            sched::waitFor("the other gated blocks to be started", [this] { return arrived == gates || closing; });
        } else if (b.style == Style::Hostage) {
            sched::waitFor("all other blocks to be executed", [this, n] { return closing || othersDone(n); });
        } else if (b.style == Style::Parent) {
            const int depth = b.depth + 1;
            std::vector<size_t> children;
            for (uint32_t k = ctx.weighted({6, 2, 1}) + 1; k > 0; --k) {
                children.push_back(make(depth < 4 && ctx.below(4) == 3 ? Style::Parent : Style::Plain));
                info.back().depth = depth;
            }
            deepest = std::max(deepest, depth);
            const uint32_t priority = ctx.below(4);
            if (children.size() > 1 && ctx.below(2) == 1) {
                addVector(children, priority);
            } else {
                for (auto c : children) {
                    add(c, priority);
                }
            }
        }
        b.ended = true;
        sched::yield();
        --running;
        VP_CHECK(!closed, "block %zu is still running when closing has ended", n);
    }
    bool othersDone(size_t n) const
    {
        for (size_t k = 0; k < info.size(); ++k) {
            if (k != n && info[k].added && info[k].style != Style::Done && !info[k].ended) {
                return false;
            }
        }
        return true;
    }
    size_t make(Style s)
    {
        info.push_back(Info{s});
        return info.size() - 1;
    }
    /** the object of block n: a new one, or one that has been executed and is armed again */
    std::shared_ptr<Block> object(size_t n)
    {
        if (!idle.empty() && info[n].style != Style::Done && ctx.below(2) == 1) {
            auto p = idle.back();
            idle.pop_back();
            p->arm(n);
            used.push_back(p);
            ++again;
            return p;
        }
        auto p = std::make_shared<Block>(*this, n);
        if (info[n].style != Style::Done) {
            used.push_back(p);
        }
        return p;
    }
    void add(size_t n, uint32_t priority)
    {
        Info& b = info[n];
        auto p = object(n);
        b.added = true;
        b.addedAt = sched::now();
        if (ctx.tracing()) {
            static const char* styles[] = {"", "gated ", "hostage ", "finished ", "parent "};
            ctx.log("  t%d adds %sblock %zu (%s)", sched::self(), styles[static_cast<int>(b.style)], n, priorityNames[priority]);
        }
        sched::note("addWorkBlock");
        if (priority == 0 && n % 2 == 0) {
            q->addWorkBlock(std::move(p));
        } else {
            q->addWorkBlock(std::move(p), priorities[priority]);
        }
        b.accepted = true;
        if (workers == 0 && b.style != Style::Done) {
            VP_CHECK(b.runs == 1 && b.ended, "block %zu was not executed when the add call returned (no workers)", n);
        }
    }
    void addVector(const std::vector<size_t>& blocks, uint32_t priority)
    {
        std::vector<std::shared_ptr<BasicWorkBlock>> v;
        for (auto n : blocks) {
            v.push_back(object(n));
            info[n].added = true;
            info[n].addedAt = sched::now();
        }
        if (ctx.tracing()) {
            ctx.log("  t%d adds a vector of %zu block(s) from %zu (%s)", sched::self(), blocks.size(), blocks.empty() ? size_t{0} : blocks[0], priorityNames[priority]);
        }
        sched::note("addWorkBlock(vector)");
        q->addWorkBlock(v, priorities[priority]);
        for (auto n : blocks) {
            info[n].accepted = true;
            if (workers == 0 && info[n].style != Style::Done) {
                VP_CHECK(info[n].runs == 1 && info[n].ended, "block %zu was not executed when the add call returned (no workers)", n);
            }
        }
    }
    Style drawStyle(bool alone, size_t& hostages)
    {
        switch (ctx.weighted({8, 2, 1, 1, 1})) {
            case 1:
                if (gates < static_cast<size_t>(workers) && hostages == 0) {
                    ++gates;
                    return Style::Gated;
                }
                return Style::Plain;
            case 2:
                if (workers > 1 && gates == 0 && hostages + 1 < static_cast<size_t>(workers)) {
                    // only one: two would wait for each other
                    if (hostages == 0) {
                        ++hostages;
                        return Style::Hostage;
                    }
                }
                return Style::Plain;
            case 3:
                return alone ? Style::Done : Style::Plain;
            case 4:
                return Style::Parent;
            default:
                return Style::Plain;
        }
    }
    struct Step {
        int what;  // 0 single, 1 vector, 2 query, 3 ratio
        std::vector<size_t> blocks;
        uint32_t priority;
        int ratio;
    };
    void work(const std::vector<Step>& steps)
    {
        for (auto& s : steps) {
            switch (s.what) {
                case 0:
                    add(s.blocks[0], s.priority);
                    break;
                case 1:
                    addVector(s.blocks, s.priority);
                    break;
                case 2:
                    (void)q->isEmpty();
                    (void)q->numBlock();
                    (void)q->getWorkerCount();
                    break;
                default:
                    q->setPriorityRatio(s.ratio);
                    break;
            }
        }
        sched::note("end");
    }
    void close(const char* how)
    {
        ctx.log("t0 closes the queue");
        closing = true;
        sched::note(how);
        q->closeWorkerQueue();
        closed = true;
        VP_CHECK(running == 0, "%d block(s) are running when closing has ended", running);
    }
    void body()
    {
        static const int counts[] = {1, 2, 3, 0, -1, 5, 12, -3};
        const int wanted = counts[ctx.weighted({24, 24, 12, 6, 5, 2, 1, 1})];
        workers = wanted < 0 ? static_cast<int>(std::thread::hardware_concurrency()) + 1 : wanted;
        ctx.log("%d worker(s)", workers);
        q.reset(new WorkQueue(wanted));
        VP_CHECK(q->getWorkerCount() == workers, "getWorkerCount() is %d, expected %d", q->getWorkerCount(), workers);
        const int rounds = 1 + static_cast<int>(ctx.weighted({4, 2, 1}));
        bool early = false;
        for (int r = 0; r < rounds && !early; ++r) {
            ctx.mark();
            if (ctx.below(4) == 3) {
                const int s = 1 + static_cast<int>(ctx.below(12));
                ctx.log("%d s pass", s);
                sched::note("main");
                sched::sleepFor(s * 1000000000LL);
            }
            gates = arrived = 0;
            size_t hostages = 0;
            std::vector<std::vector<Step>> program;
            const int threads = 1 + static_cast<int>(ctx.weighted({4, 4, 1}));
            for (int t = 0; t < threads; ++t) {
                program.emplace_back();
                const int n = 1 + static_cast<int>(ctx.below(4));
                for (int k = 0; k < n; ++k) {
                    ctx.mark();
                    Step s{};
                    s.what = static_cast<int>(ctx.weighted({8, 3, 1, 1}));
                    s.priority = ctx.below(4);
                    if (s.what == 0) {
                        s.blocks.push_back(make(drawStyle(true, hostages)));
                    } else if (s.what == 1) {
                        uint32_t m = ctx.below(4);
                        while (m-- > 0) {
                            s.blocks.push_back(make(drawStyle(workers > 0, hostages)));
                        }
                    } else {
                        s.ratio = static_cast<int>(ctx.below(5)) - 1;
                    }
                    program.back().push_back(s);
                }
            }
            std::vector<int> ids;
            // one of the adders can be this thread
            const bool self = ctx.below(3) == 2;
            for (size_t t = self ? 1 : 0; t < program.size(); ++t) {
                ids.push_back(sched::spawn([this, &program, t] { work(program[t]); }));
            }
            if (self) {
                work(program[0]);
            }
            early = workers > 0 && r + 1 == rounds && ctx.below(3) == 2;
            if (early) {
                for (uint32_t k = ctx.below(12); k > 0; --k) {
                    sched::yield();
                }
                close("closeWorkerQueue");
            }
            sched::note("main");
            for (int id : ids) {
                sched::join(id);
            }
            if (!early) {
                sched::waitFor("every block to be executed", [this] { return othersDone(info.size()); });
                sched::waitFor("every block to end", [this] { return running == 0; });
                VP_CHECK(arrived == gates, "gated blocks: %zu of %zu", arrived, gates);
                // those that no worker holds any more can be armed again
                const auto held = std::stable_partition(used.begin(), used.end(), [](auto& p) { return p.use_count() > 1; });
                idle.insert(idle.end(), held, used.end());
                used.erase(held, used.end());
            }
        }
        if (!early && ctx.below(2) == 1) {
            close("closeWorkerQueue");
        }
        if (closed && ctx.below(3) == 2) {
            q->closeWorkerQueue();
        }
        if (closed && workers > 0 && ctx.below(3) == 2) {
            // accepted by nobody
            add(make(Style::Plain), ctx.below(4));
        }
        ctx.log("t0 destroys the queue");
        closing = true;
        sched::note("destructor");
        q.reset();
        closed = true;
        VP_CHECK(running == 0, "%d block(s) are running when the queue has been destroyed", running);
        for (size_t k = 0; k < info.size(); ++k) {
            if (info[k].style == Style::Done) {
                continue;
            }
            VP_CHECK(info[k].runs <= 1, "block %zu was executed %d times", k, info[k].runs);
            if (!early && info[k].added && !closedBefore(k)) {
                VP_CHECK(info[k].runs == 1, "block %zu was never executed", k);
            }
        }
    }
    bool closedBefore(size_t k) const { return k + 1 == info.size() && info[k].runs == 0; }

  public:
    void run()
    {
        sched::Options opt;
        opt.spurious = ctx.below(4) == 3 ? 2 : 0;
        opt.timeChoices = ctx.below(6) == 5;
        prompt = !opt.timeChoices;
        sched::run(opt, [this] { body(); });
        size_t ran = 0;
        for (auto& b : info) {
            ran += static_cast<size_t>(b.runs);
        }
        if (ran >= 2 && sched::preemptions() > 0 && workers > 0) {
            ctx.nontrivial();
        }
        if (maxRunning > 1) {
            ctx.label("blocks ran at the same time");
        }
        if (workers == 0) {
            ctx.label("no workers");
        }
        if (deepest > 1) {
            ctx.label("blocks added by blocks added by blocks");
        }
        if (again > 0) {
            ctx.label("blocks armed and added again");
        }
        if (sched::now() != 0) {
            ctx.label("virtual time passed");
        }
        if (ran < info.size()) {
            ctx.label("some blocks not run (finished or discarded)");
        }
    }
};
void run()
{
    Program().run();
}
}  // namespace
const vp::Property vp::property{
    "C24",
    "A case is a random program on a WorkQueue with 0-3 workers: one to three rounds in which 1-3 threads add single blocks and vectors of blocks at all priorities (plain blocks, blocks that wait until as many of them run as there are workers, blocks that wait for all others, blocks that add another one, "
    "finished ones), queries and ratio changes, optionally hours apart on the virtual clock, then closing (also while blocks are pending or being added) or destruction, under a harness-owned random schedule with spurious wakeups in a quarter. Every block may be executed at most once, all of them have to be executed "
    "before a round ends and without any (virtual) time passing, with no workers inside the add call; closing must end and nothing may run or start afterwards. Non-trivial: workers executed at least two blocks and a running thread was preempted.",
    1000000,
    10000000,
    run,
    true};
