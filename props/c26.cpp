// C26: work blocks run their task once per arming and deliver its outcome.
#include "vp.hpp"
#include <atomic>
#include <chrono>
#include <functional>
#include <future>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include <gmlc/containers/WorkQueue.hpp>
namespace {
using vp::ctx;
using gmlc::containers::BasicWorkBlock;
using gmlc::containers::WorkBlock;

struct Failure: std::runtime_error {
    int n;
    explicit Failure(int k): std::runtime_error("task failure"), n(k) {}
};
struct Runs {
    std::vector<int> count;  // per task
    int total{0};
    void (*inside)(void*){nullptr};  // called by every task
    void* world{nullptr};
};
template<class R>
struct Result {
    static R make(int n) { return static_cast<R>(n); }
    static int key(const R& r) { return static_cast<int>(r); }
};
template<>
struct Result<std::string> {
    static std::string make(int n) { return std::to_string(n) + " a result that is long enough to live on the heap"; }
    static int key(const std::string& r) { return atoi(r.c_str()); }
};
/** references to objects that live elsewhere: the very object has to be delivered */
template<>
struct Result<int&> {
    static int all[1 << 14];
    static size_t used;
    static int& make(int n)
    {
        int& o = all[used++ % (1 << 14)];
        o = n;
        return o;
    }
    static int key(int& r) { return &r >= all && &r < all + (1 << 14) ? r : -3000001; }
};
int Result<int&>::all[1 << 14];
size_t Result<int&>::used = 0;
/** a result that cannot be assigned or default constructed */
struct Fixed {
    const int n;
    std::unique_ptr<int> copy;
    explicit Fixed(int k): n(k), copy(new int(k)) {}
    Fixed(const Fixed& o): n(o.n), copy(new int(o.copy ? *o.copy : -3000001)) {}
    Fixed(Fixed&& o) noexcept: n(o.n), copy(std::move(o.copy)) {}
    Fixed& operator=(const Fixed&) = delete;
};
template<>
struct Result<Fixed> {
    static Fixed make(int n) { return Fixed(n); }
    static int key(const Fixed& r) { return r.copy && *r.copy == r.n ? r.n : -3000001; }
};
template<>
struct Result<void> {
    static void make(int) {}
};
/** a callable with state of its own: number of runs of this task */
template<class R>
struct Task {
    Runs* runs;
    int id;
    bool throws;
    R operator()() const
    {
        const int k = ++runs->count[static_cast<size_t>(id)];
        ++runs->total;
        if (runs->inside != nullptr) {
            runs->inside(runs->world);
        }
        if (throws) {
            throw Failure(id * 100 + k);
        }
        return Result<R>::make(id * 100 + k);
    }
};

/** a callable that cannot be copied */
template<class R>
struct MoveOnlyTask {
    std::unique_ptr<Task<R>> task;
    explicit MoveOnlyTask(const Task<R>& t): task(new Task<R>(t)) {}
    R operator()() { return (*task)(); }
};

template<class R>
class World {
    static constexpr int count = 3;
    struct Held {  // a future obtained at some time
        std::shared_future<R> f;
        int epoch;
    };
    struct Outcome {
        bool ready{false};
        bool threw{false};
        int value{0};
        bool abandoned{false};  // re-armed before it ran
    };
    struct Model {
        int task{-1};
        bool throws{false};
        bool finished{false};
        int epoch{-1};  // arming, index into outcomes; -1: no future
        bool moved{false};
    };
    Runs runs;
    std::vector<Outcome> outcomes;
    std::unique_ptr<WorkBlock<R>> block[count];
    std::shared_ptr<WorkBlock<R>> sharedBlock[count];
    Model model[count];
    std::vector<Held> held;
    int rearmed{0};
    int threw{0};
    int reruns{0};
    int running{-1};  // the block whose task runs

    /** what a task sees of the blocks while it runs */
    void whileRunning()
    {
        const int i = running;
        if (i < 0) {
            return;
        }
        VP_CHECK(!at(i).isFinished(), "b%d: isFinished() is true while its task is running", i);
        auto f = at(i).get_future();
        VP_CHECK(f.valid() && f.wait_for(std::chrono::seconds(0)) == std::future_status::timeout, "b%d: the future is ready while the task is running", i);
        for (int j = 0; j < count; ++j) {
            if (j != i && exists(j) && !model[j].moved) {
                VP_CHECK(at(j).isFinished() == model[j].finished, "b%d: isFinished() is %d while the task of b%d is running, expected %d", j, at(j).isFinished(), i, model[j].finished);
            }
        }
        if (ctx.below(6) == 5) {
            // a task that executes another block
            const int j = (i + 1 + static_cast<int>(ctx.below(count - 1))) % count;
            if (exists(j) && !model[j].moved && !(model[j].task >= 0 && model[j].throws)) {
                ctx.log("  the task of b%d executes b%d", i, j);
                running = -1;
                execute(j);
                running = i;
            }
        }
    }
    void execute(int i)
    {
        Model& m = model[i];
        const bool runsNow = !m.finished && m.task >= 0;
        ctx.log("b%d: execute (%s)", i, runsNow ? "runs" : "does nothing");
        const int before = m.task >= 0 ? runs.count[static_cast<size_t>(m.task)] : 0;
        const int total = runs.total;
        BasicWorkBlock& b = at(i);
        running = runsNow && running < 0 && nestedDepth == 0 ? i : -1;
        ++nestedDepth;
        const int totalNested = ranNested;
        b.execute();
        --nestedDepth;
        const int nestedRuns = ranNested - totalNested;
        running = -1;
        VP_CHECK(runs.total == total + (runsNow ? 1 : 0) + nestedRuns, "b%d: execute ran %d task(s), expected %d", i, runs.total - total, (runsNow ? 1 : 0) + nestedRuns);
        if (runsNow) {
            VP_CHECK(runs.count[static_cast<size_t>(m.task)] == before + 1, "b%d: execute ran another task than its own", i);
            Outcome& o = outcomes[static_cast<size_t>(m.epoch)];
            o.ready = true;
            o.threw = m.throws;
            o.value = m.task * 100 + before + 1;
            threw += m.throws ? 1 : 0;
            reruns += before > 0 ? 1 : 0;
            if (nestedDepth > 0) {
                ++ranNested;
            }
        }
        m.finished = true;
    }
    int nestedDepth{0};
    int ranNested{0};

    /** another thread asks for the result before the block is executed */
    void executeWithWaiter(int i)
    {
        Model& m = model[i];
        if (m.finished || m.task < 0) {
            return execute(i);
        }
        ctx.log("b%d: another thread waits for the result", i);
        std::atomic<bool> asking{false};
        int value = -1;
        bool failed = false;
        WorkBlock<R>& b = at(i);
        const bool future = ctx.below(2) == 0;
        auto f = b.get_future();
        std::thread waiter([&] {
            try {
                asking = true;
                if constexpr (std::is_void<R>::value) {
                    if (future) {
                        f.get();
                    } else {
                        b.getReturnVal();
                    }
                    value = 0;
                } else {
                    value = Result<R>::key(future ? f.get() : b.getReturnVal());
                }
            }
            catch (const Failure& e) {
                failed = true;
                value = e.n;
            }
            catch (...) {
                value = -2;
            }
        });
        while (!asking) {
            std::this_thread::yield();
        }
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        execute(i);
        waiter.join();
        const Outcome& o = outcomes[static_cast<size_t>(m.epoch)];
        ctx.label("result awaited by another thread");
        if (std::is_void<R>::value) {
            VP_CHECK(value == 0 || (failed && o.threw && value == o.value), "b%d: a thread waiting for the end got %s %d, the run ended with %s %d", i, failed ? "exception" : "value", value, o.threw ? "exception" : "value", o.value);
        } else {
            VP_CHECK(failed == o.threw && value == o.value, "b%d: a thread waiting for the result got %s %d, the run ended with %s %d", i, failed ? "exception" : "value", value, o.threw ? "exception" : "value", o.value);
        }
    }

    WorkBlock<R>& at(int i) { return sharedBlock[i] ? *sharedBlock[i] : *block[i]; }
    bool exists(int i) const { return block[i] || sharedBlock[i]; }

    void arm(int i)
    {
        Model& m = model[i];
        if (m.epoch >= 0 && !outcomes[static_cast<size_t>(m.epoch)].ready) {
            outcomes[static_cast<size_t>(m.epoch)].abandoned = true;
        }
        m.finished = false;
        if (m.task >= 0) {
            outcomes.emplace_back();
            m.epoch = static_cast<int>(outcomes.size()) - 1;
        } else {
            m.epoch = -1;
        }
    }
    Task<R> draw(Model& m)
    {
        m.task = static_cast<int>(runs.count.size());
        m.throws = ctx.below(4) == 3;
        runs.count.push_back(0);
        return Task<R>{&runs, m.task, m.throws};
    }
    void checkOutcome(const std::shared_future<R>& f, const Outcome& o, const char* how)
    {
        const bool ready = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
        VP_CHECK(ready == o.ready, "%s: the future is %sready, the run has %shappened", how, ready ? "" : "not ", o.ready ? "" : "not ");
        if (!ready) {
            return;
        }
        int value = -1;
        bool failed = false;
        try {
            if constexpr (std::is_void<R>::value) {
                f.get();
                value = o.value;
            } else {
                value = Result<R>::key(f.get());
            }
        }
        catch (const Failure& e) {
            failed = true;
            value = e.n;
        }
        VP_CHECK(failed == o.threw && value == o.value, "%s: delivers %s %d, the run ended with %s %d", how, failed ? "exception" : "value", value, o.threw ? "exception" : "value", o.value);
    }
    void observe()
    {
        for (int i = 0; i < count; ++i) {
            if (!exists(i) || model[i].moved) {
                continue;
            }
            const Model& m = model[i];
            const BasicWorkBlock& b = at(i);
            VP_CHECK(b.isFinished() == m.finished, "b%d: isFinished() is %d, expected %d", i, b.isFinished(), m.finished);
            if (m.epoch >= 0) {
                auto f = at(i).get_future();
                VP_CHECK(f.valid(), "b%d: get_future() gives no valid future for an armed block", i);
                const Outcome& o = outcomes[static_cast<size_t>(m.epoch)];
                checkOutcome(f, o, "get_future");
                if (o.ready) {
                    at(i).wait();
                    if constexpr (std::is_void<R>::value) {
                        at(i).getReturnVal();
                    } else {
                        int value = -1;
                        bool failed = false;
                        try {
                            value = Result<R>::key(at(i).getReturnVal());
                        }
                        catch (const Failure& e) {
                            failed = true;
                            value = e.n;
                        }
                        VP_CHECK(failed == o.threw && value == o.value, "b%d: getReturnVal delivers %s %d, the run ended with %s %d", i, failed ? "exception" : "value", value, o.threw ? "exception" : "value", o.value);
                    }
                }
            }
        }
        for (auto& h : held) {
            const Outcome& o = outcomes[static_cast<size_t>(h.epoch)];
            if (!o.abandoned) {
                checkOutcome(h.f, o, "a future obtained beforehand");
            }
        }
    }
    void create(int i)
    {
        Model& m = model[i];
        m = Model();
        const uint32_t form = ctx.below(11);
        switch (form) {
            case 0:
                block[i].reset(new WorkBlock<R>());
                break;
            case 1:
                block[i].reset(new WorkBlock<R>(draw(m)));
                break;
            case 2: {
                std::function<R()> f(draw(m));
                block[i].reset(new WorkBlock<R>(f));
                break;
            }
            case 3:
                block[i].reset(new WorkBlock<R>(std::packaged_task<R()>(draw(m))));
                break;
            case 4:
                block[i] = gmlc::containers::make_workBlock(draw(m));
                break;
            case 5:
                block[i] = gmlc::containers::make_workBlock(std::packaged_task<R()>(draw(m)));
                break;
            case 6:
                sharedBlock[i] = gmlc::containers::make_shared_workBlock(draw(m));
                break;
            case 7:
                sharedBlock[i] = gmlc::containers::make_shared_workBlock(std::packaged_task<R()>(draw(m)));
                break;
            case 8:
                block[i].reset(new WorkBlock<R>(MoveOnlyTask<R>(draw(m))));
                break;
            case 9:
                block[i] = gmlc::containers::make_workBlock(MoveOnlyTask<R>(draw(m)));
                break;
            default:
                sharedBlock[i] = gmlc::containers::make_shared_workBlock(MoveOnlyTask<R>(draw(m)));
                break;
        }
        arm(i);
        ctx.log("b%d created (form %u): task %d%s", i, form, m.task, m.throws ? " (throws)" : "");
    }

  public:
    void run()
    {
        runs.world = this;
        runs.inside = [](void* w) { static_cast<World*>(w)->whileRunning(); };
        const bool withWaiters = ctx.below(1500) == 1499;
        while (ctx.more(25)) {
            const int i = static_cast<int>(ctx.below(count));
            const int j = static_cast<int>(ctx.below(count));
            if (!exists(i)) {
                create(i);
                observe();
                continue;
            }
            Model& m = model[i];
            uint32_t op = ctx.weighted({9, 4, 3, 3, 3, 2, 1, 1});
            if (m.moved && (op < 2 || op == 4)) {
                continue;
            }
            const int total = runs.total;
            switch (op) {
                case 0:
                    if (withWaiters && ctx.below(2) == 1) {
                        executeWithWaiter(i);
                    } else {
                        execute(i);
                    }
                    break;
                case 1:
                    ctx.log("b%d: reset", i);
                    at(i).reset();
                    arm(i);
                    ++rearmed;
                    break;
                case 2: {
                    auto t = draw(m);
                    ctx.log("b%d: updateWorkFunction to task %d%s", i, m.task, m.throws ? " (throws)" : "");
                    const uint32_t form = ctx.below(3);
                    if (form == 0) {
                        at(i).updateWorkFunction(t);
                    } else if (form == 2) {
                        at(i).updateWorkFunction(MoveOnlyTask<R>(t));
                    } else {
                        at(i).updateWorkFunction(std::function<R()>(t));
                    }
                    arm(i);
                    m.moved = false;
                    ++rearmed;
                    break;
                }
                case 3: {
                    auto t = draw(m);
                    ctx.log("b%d: updateTask to task %d%s", i, m.task, m.throws ? " (throws)" : "");
                    at(i).updateTask(std::packaged_task<R()>(t));
                    arm(i);
                    m.moved = false;
                    ++rearmed;
                    break;
                }
                case 4:
                    if (m.epoch >= 0) {
                        ctx.log("b%d: get_future", i);
                        held.push_back(Held{at(i).get_future(), m.epoch});
                    }
                    break;
                case 5:
                    if (i != j && exists(j) && !model[j].moved) {
                        ctx.log("b%d = std::move(b%d)", i, j);
                        if (m.epoch >= 0 && !outcomes[static_cast<size_t>(m.epoch)].ready) {
                            outcomes[static_cast<size_t>(m.epoch)].abandoned = true;
                        }
                        at(i) = std::move(at(j));
                        m = model[j];
                        model[j] = Model();
                        model[j].moved = true;
                    }
                    break;
                case 6:
                    if (i != j && exists(j) && !model[j].moved) {
                        ctx.log("b%d constructed from std::move(b%d)", i, j);
                        if (m.epoch >= 0 && !outcomes[static_cast<size_t>(m.epoch)].ready) {
                            outcomes[static_cast<size_t>(m.epoch)].abandoned = true;
                        }
                        sharedBlock[i].reset();
                        block[i].reset(new WorkBlock<R>(std::move(at(j))));
                        m = model[j];
                        model[j] = Model();
                        model[j].moved = true;
                    }
                    break;
                default:
                    ctx.log("b%d destroyed", i);
                    if (m.epoch >= 0 && !outcomes[static_cast<size_t>(m.epoch)].ready) {
                        outcomes[static_cast<size_t>(m.epoch)].abandoned = true;
                    }
                    block[i].reset();
                    sharedBlock[i].reset();
                    m = Model();
                    break;
            }
            VP_CHECK(op == 0 || runs.total == total, "a task was run without execute");
            observe();
        }
        if (rearmed > 0 && runs.total > 1) {
            ctx.nontrivial();
        }
        if (threw > 0) {
            ctx.label("task threw");
        }
        if (ranNested > 0) {
            ctx.label("a task executed another block");
        }
        if (reruns > 0) {
            ctx.label("same task run again after reset");
        }
    }
};
template<class R>
void one(const char* name)
{
    ctx.log("WorkBlock<%s>", name);
    ctx.label(name);
    World<R> w;
    w.run();
}
void run()
{
    Result<int&>::used = 0;
    switch (ctx.below(5)) {
        case 0:
            return one<int>("int");
        case 3:
            return one<int&>("int&");
        case 4:
            return one<Fixed>("type without assignment");
        case 1:
            return one<void>("void");
        default:
            return one<std::string>("std::string");
    }
}
}  // namespace
const vp::Property vp::property{
    "C26",
    "A case is a random sequence of operations on up to three work blocks (int, void, string and reference results, results without assignment): creation by all constructors and make functions (default, function object, move-only function object, std::function, packaged task), execute, reset, updateWorkFunction, updateTask, get_future, move construction and assignment, destruction, with a "
    "quarter of the tasks throwing, all of them looking at the blocks while they run, some executing another one, and (rarely) another thread waiting for the result; after every operation run counts, isFinished, getReturnVal, get_future and all futures obtained earlier are compared with a model of armings and outcomes. Non-trivial: a block was armed again and tasks ran at least twice.",
    900000,
    4000000,
    run,
    true};
