// C27: happens-before race detection under owned schedules for every thread-safe container.
// Threads share nothing but the container (and what is handed over through it); everything they need is made beforehand.
#include "shadow.hpp"
// the containers use the primitives of shadow.hpp from here on
#include "timeout.hpp"
#include <gmlc/containers/AirLock.hpp>
#include <gmlc/containers/BlockingPriorityQueue.hpp>
#include <gmlc/containers/BlockingQueue.hpp>
#include <gmlc/containers/SimpleQueue.hpp>
#include <gmlc/containers/WorkQueue.hpp>
namespace {
using vp::ctx;
namespace sched = vp::sched;

/** the answer is used, so the reads it takes are not optimized away */
template<class T>
void use(const T& x)
{
    asm volatile("" : : "r"(x));
}
constexpr int maxItems = 120;
/** written by the producer of an item before it is handed over and by its receiver afterwards: plain memory */
int message[maxItems];

int mix(int k, int i)
{
    return k * 7919 + i * 31;
}
/** element with content on the heap */
template<bool COPY>
struct Item {
    int id{0};
    std::vector<int> data;
    Item() = default;
    explicit Item(int k): id(k)
    {
        for (int i = 0; i < 1 + k % 5; ++i) {
            data.push_back(mix(k, i));
        }
    }
    Item(Item&&) noexcept = default;
    Item& operator=(Item&&) noexcept = default;
    Item(const Item& o): id(o.id), data(o.data) { static_assert(COPY, "a copy of an element that can only be moved"); }
    Item& operator=(const Item& o)
    {
        static_assert(COPY, "a copy of an element that can only be moved");
        id = o.id;
        data = o.data;
        return *this;
    }
    void look() const
    {
        VP_CHECK(id > 0 && data.size() == static_cast<size_t>(1 + id % 5), "an element arrived with id %d and %zu numbers", id, data.size());
        for (size_t i = 0; i < data.size(); ++i) {
            VP_CHECK(data[i] == mix(id, static_cast<int>(i)), "the content of element %d is damaged", id);
        }
    }
};
template<>
struct Item<false>: Item<true> {
    Item() = default;
    explicit Item(int k): Item<true>(k) {}
    Item(Item&&) noexcept = default;
    Item& operator=(Item&&) noexcept = default;
    Item(const Item&) = delete;
    Item& operator=(const Item&) = delete;
};
void prepare(int id)
{
    message[id] = mix(id, 99);
}
/** the element is the caller's own from now on */
template<class T>
int received(T& x)
{
    x.look();
    VP_CHECK(message[x.id] == mix(x.id, 99), "what the producer wrote before it handed over element %d is not there", x.id);
    message[x.id] = -1;
    for (auto& v : x.data) {
        v = -1;
    }
    return x.id;
}

enum class Call { Push, PushMove, Emplace, PushVector, TryPop, Pop, TimedPop, PopOrCall, Peek, Size, Empty, Clear, Reserve, Sleep };
const char* const callNames[] = {"push", "push(move)", "emplace", "pushVector", "try_pop", "pop", "timed pop", "popOrCall", "peek", "size", "empty", "clear", "reserve", "sleep"};
struct Step {
    Call call;
    bool priority;
    int value;
    int count;
    int ms;
    int unit{0};
};
struct Thread {
    std::vector<Step> steps;
    std::vector<int> got;
};
enum Kind { Simple, Blocking, Priority };

int handed(const std::vector<Thread>& threads, const char* what)
{
    std::vector<int> seen(maxItems, 0);
    int n = 0;
    for (auto& t : threads) {
        for (int k : t.got) {
            VP_CHECK(++seen[static_cast<size_t>(k)] == 1, "element %d was delivered twice by the %s", k, what);
            ++n;
        }
    }
    return n;
}

template<Kind K, class Q, class T>
class Queue {
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    std::unique_ptr<Q> q;
    int values{0};
    std::vector<Thread> threads;

    void push(const Step& s)
    {
        prepare(s.value);
        switch (s.call) {
            case Call::Push:
                if constexpr (copyable) {
                    const T x(s.value);
                    if constexpr (K == Priority) {
                        if (s.priority) {
                            q->pushPriority(x);
                            break;
                        }
                    }
                    q->push(x);
                    break;
                }
                [[fallthrough]];
            case Call::PushMove:
                if constexpr (K == Priority) {
                    if (s.priority) {
                        q->pushPriority(T(s.value));
                        break;
                    }
                }
                q->push(T(s.value));
                break;
            default:
                if constexpr (K == Priority) {
                    if (s.priority) {
                        q->emplacePriority(s.value);
                        break;
                    }
                }
                q->emplace(s.value);
                break;
        }
    }
    static void keep(Thread& t, std::optional<T> x)
    {
        if (x) {
            t.got.push_back(received(*x));
        }
    }
    void step(Thread& t, const Step& s)
    {
        sched::note(callNames[static_cast<int>(s.call)]);
        switch (s.call) {
            case Call::Push:
            case Call::PushMove:
            case Call::Emplace:
                push(s);
                break;
            case Call::PushVector:
                if constexpr (K == Simple && copyable) {
                    std::vector<T> v;
                    for (int k = 0; k < s.count; ++k) {
                        prepare(s.value + k);
                        v.emplace_back(s.value + k);
                    }
                    q->pushVector(v);
                }
                break;
            case Call::TryPop:
                if constexpr (K == Simple) {
                    keep(t, q->pop());
                } else {
                    keep(t, q->try_pop());
                }
                break;
            case Call::Pop:
                if constexpr (K != Simple) {
                    keep(t, q->pop());
                }
                break;
            case Call::TimedPop:
                if constexpr (K != Simple) {
                    int64_t least = 0;
                    timeouts::with(s.ms, s.unit, least, [&](auto d) { keep(t, q->pop(d)); });
                }
                break;
            case Call::PopOrCall:
                if constexpr (K != Simple) {
                    bool fed = s.value == 0;
                    T x = q->popOrCall([&] {
                        if (!fed) {
                            fed = true;
                            push(Step{Call::PushMove, s.priority, s.value, 1, 0});
                        }
                    });
                    t.got.push_back(received(x));
                }
                break;
            case Call::Peek:
                if constexpr (copyable) {
                    std::optional<T> x;
                    if constexpr (K == Simple) {
                        x = q->peek();
                    } else {
                        x = q->try_peek();
                    }
                    if (x) {
                        x->look();
                    }
                }
                break;
            case Call::Size:
                if constexpr (K != Priority) {
                    use(q->size());
                }
                break;
            case Call::Empty:
                use(q->empty());
                break;
            case Call::Clear:
                q->clear();
                break;
            case Call::Reserve:
                q->reserve(static_cast<size_t>(s.count));
                break;
            case Call::Sleep:
                sched::sleepFor(s.ms * 1000000LL);
                break;
        }
    }
    int fresh(int n)
    {
        if (values + n >= maxItems - 1) {
            ctx.discard();
        }
        values += n;
        return values - n + 1;
    }
    Step makePush()
    {
        Step s{};
        s.call = static_cast<Call>(ctx.below(3));
        s.priority = K == Priority && ctx.below(5) >= 3;
        s.value = fresh(1);
        return s;
    }
    Step makeStep()
    {
        Step s{};
        s.count = static_cast<int>(ctx.below(9));
        s.ms = static_cast<int>(ctx.below(4));
        if (K == Simple) {
            static const Call calls[] = {Call::TryPop, Call::PushVector, Call::Peek, Call::Size, Call::Empty, Call::Clear, Call::Reserve};
            const uint32_t k = ctx.weighted({8, 7, 3, 2, 2, 2, 1, 1});
            if (k == 0) {
                return makePush();
            }
            s.call = calls[k - 1];
            if (s.call == Call::PushVector) {
                s.value = fresh(s.count);
            }
            return s;
        }
        static const Call calls[] = {Call::TryPop, Call::Pop, Call::TimedPop, Call::PopOrCall, Call::Peek, Call::Empty, Call::Clear, Call::Size, Call::Reserve, Call::Sleep};
        const uint32_t k = ctx.weighted({9, 4, 2, 2, 2, 2, 2, 1, 2, 2, 1});
        if (k == 0) {
            return makePush();
        }
        s.call = calls[k - 1];
        if (s.call == Call::TimedPop) {
            s.unit = timeouts::draw();
        }
        if (s.call == Call::PopOrCall && ctx.below(3) == 2) {
            s.priority = K == Priority && ctx.below(2) == 1;
            s.value = fresh(1);
        }
        return s;
    }
    void body()
    {
        q.reset(ctx.below(3) == 2 ? new Q(ctx.below(6)) : new Q());
        threads.resize(2 + ctx.weighted({4, 4, 1}));
        Thread own;
        for (uint32_t k = ctx.weighted({4, 2, 2, 1}); k > 0; --k) {
            step(own, makePush());
        }
        for (auto& t : threads) {
            const int n = 1 + static_cast<int>(ctx.below(6));
            std::string line;
            for (int k = 0; k < n; ++k) {
                ctx.mark();
                t.steps.push_back(makeStep());
                line += std::string(" ") + callNames[static_cast<int>(t.steps.back().call)];
            }
            ctx.log("thread:%s", line.c_str());
        }
        std::vector<int> ids;
        for (auto& t : threads) {
            ids.push_back(sched::spawn([this, &t] {
                for (auto& s : t.steps) {
                    step(t, s);
                }
            }));
        }
        while (true) {
            sched::note("main");
            sched::waitFor("the threads to end or wait", [] { return sched::othersBlocked(0); });
            bool some = false;
            for (int id : ids) {
                some = some || sched::waiting(id);
            }
            if (!some) {
                break;
            }
            step(own, makePush());
        }
        for (int id : ids) {
            sched::join(id);
        }
        if (ctx.below(2) == 0) {
            for (int k = 0; k < maxItems; ++k) {
                step(own, Step{Call::TryPop, false, 0, 0, 0});
            }
        }
        q.reset();
        int crossed = handed(threads, "queue");
        threads.push_back(own);
        handed(threads, "queue");
        if (crossed >= 2 && sched::preemptions() > 0) {
            ctx.nontrivial();
        }
    }

  public:
    void run()
    {
        sched::Options opt;
        opt.spurious = (K != Simple && ctx.below(4) == 3) ? 2 : 0;
        opt.timeChoices = K != Simple && ctx.below(3) == 2;
        sched::run(opt, [this] { body(); });
    }
};

template<class T>
class Lock {
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    enum class Act { TryLoad, Load, Unload, IsLoaded, TryUntil, UnloadUntil };
    struct Op {
        Act act;
        int value;
        bool copy;
    };
    struct Worker {
        std::vector<Op> ops;
        std::vector<int> got;
    };
    std::unique_ptr<gmlc::containers::AirLock<T>> a;
    std::vector<Worker> threads;
    int values{0};

    bool unload(Worker& t)
    {
        auto x = a->try_unload();
        if (x) {
            t.got.push_back(received(*x));
        }
        return x.has_value();
    }
    void op(Worker& t, const Op& o)
    {
        static const char* names[] = {"try_load", "load", "try_unload", "isLoaded"};
        sched::note(names[static_cast<int>(o.act)]);
        switch (o.act) {
            case Act::TryLoad:
            case Act::Load: {
                prepare(o.value);
                T x(o.value);
                bool done = true;
                if (o.act == Act::Load) {
                    if constexpr (copyable) {
                        if (o.copy) {
                            a->load(x);
                            break;
                        }
                    }
                    a->load(std::move(x));
                } else if (o.copy && copyable) {
                    if constexpr (copyable) {
                        done = a->try_load(x);
                    }
                } else {
                    done = a->try_load(std::move(x));
                }
                if (!done) {
                    received(x);
                }
                break;
            }
            case Act::Unload:
                unload(t);
                break;
            default:
                use(a->isLoaded());
                break;
        }
    }
    void body()
    {
        a.reset(new gmlc::containers::AirLock<T>());
        threads.resize(2 + ctx.weighted({4, 4, 1}));
        for (auto& t : threads) {
            const int n = 1 + static_cast<int>(ctx.below(6));
            std::string line;
            const uint32_t flavour = ctx.below(3);  // any, loader, unloader
            for (int k = 0; k < n; ++k) {
                ctx.mark();
                Op o{};
                o.act = static_cast<Act>(flavour == 0 ? ctx.weighted({3, 2, 4, 1}) : (flavour == 1 ? ctx.weighted({2, 4}) : 2 + ctx.weighted({5, 1})));
                o.copy = ctx.below(3) == 2;
                o.value = ++values;
                t.ops.push_back(o);
                static const char* names[] = {" try_load", " load", " try_unload", " isLoaded"};
                line += names[static_cast<int>(o.act)];
            }
            ctx.log("thread:%s", line.c_str());
        }
        std::vector<int> ids;
        for (auto& t : threads) {
            ids.push_back(sched::spawn([this, &t] {
                for (auto& o : t.ops) {
                    op(t, o);
                }
            }));
        }
        Worker own;
        while (true) {
            sched::note("main");
            sched::waitFor("the threads to end or wait", [] { return sched::othersBlocked(0); });
            bool some = false;
            for (int id : ids) {
                some = some || sched::waiting(id);
            }
            if (!some) {
                break;
            }
            VP_CHECK(unload(own), "load waits although nothing is loaded");
        }
        for (int id : ids) {
            sched::join(id);
        }
        unload(own);
        a.reset();
        std::vector<Thread> all;
        for (auto& t : threads) {
            all.push_back(Thread{{}, t.got});
        }
        const int crossed = handed(all, "air lock");
        all.push_back(Thread{{}, own.got});
        handed(all, "air lock");
        if (crossed >= 2 && sched::preemptions() > 0) {
            ctx.nontrivial();
        }
    }

  public:
    void run()
    {
        sched::Options opt;
        opt.spurious = ctx.below(4) == 3 ? 2 : 0;
        sched::run(opt, [this] { body(); });
    }
};

class Work {
    using WorkQueue = gmlc::containers::WorkQueue;
    using BasicWorkBlock = gmlc::containers::BasicWorkBlock;
    using Prio = WorkQueue::WorkPriority;
    static Prio priority(uint32_t k)
    {
        static const Prio p[] = {Prio::medium, Prio::low, Prio::high, Prio::required};
        return p[k];
    }
    enum class Act { Add, AddVector, AddFuture, Query, Ratio, Take };
    struct Op {
        Act act;
        int value;
        int count;
        uint32_t prio;
        int ratio;
    };
    std::unique_ptr<WorkQueue> q;
    int result[maxItems];
    std::vector<std::vector<Op>> program;
    int values{0};
    int workers{0};

    struct Block: BasicWorkBlock {
        Work& w;
        int n;
        bool done{false};
        Block(Work& x, int k): w(x), n(k) {}
        void execute() override
        {
            done = true;
            w.work(n);
        }
        // only ever looked at by whoever has the block
        bool isFinished() const override { return done; }
    };
    void work(int n)
    {
        sched::yield();
        VP_CHECK(message[n] == mix(n, 99), "what was written before block %d was added is not seen when it runs", n);
        VP_CHECK(result[n] == 0, "block %d ran twice", n);
        message[n] = -1;
        result[n] = mix(n, 5);
    }
    std::shared_ptr<BasicWorkBlock> block(int n)
    {
        prepare(n);
        return std::make_shared<Block>(*this, n);
    }
    void op(const Op& o)
    {
        static const char* names[] = {"addWorkBlock", "addWorkBlock(vector)", "addWorkBlock and its future", "queries", "setPriorityRatio", "getWorkBlock"};
        sched::note(names[static_cast<int>(o.act)]);
        switch (o.act) {
            case Act::Add:
                q->addWorkBlock(block(o.value), priority(o.prio));
                break;
            case Act::AddVector: {
                std::vector<std::shared_ptr<BasicWorkBlock>> v;
                for (int k = 0; k < o.count; ++k) {
                    v.push_back(block(o.value + k));
                }
                q->addWorkBlock(v, priority(o.prio));
                break;
            }
            case Act::AddFuture: {
                prepare(o.value);
                const int n = o.value;
                auto b = gmlc::containers::make_shared_workBlock([this, n] {
                    work(n);
                    return std::vector<int>(3, n);
                });
                auto f = b->get_future();
                q->addWorkBlock(b, priority(o.prio));
                unsigned since = sched::progress();
                while (f.wait_for(std::chrono::nanoseconds(0)) != std::future_status::ready) {
                    sched::pause("the result of a block", since);
                    since = sched::progress();
                }
                VP_CHECK(b->getReturnVal() == std::vector<int>(3, n) && result[n] == mix(n, 5), "the result of block %d is damaged", n);
                break;
            }
            case Act::Query:
                use(q->isEmpty());
                use(q->numBlock());
                use(q->getWorkerCount());
                break;
            case Act::Ratio:
                q->setPriorityRatio(o.ratio);
                break;
            case Act::Take: {
                auto b = q->getWorkBlock();
                if (b && !b->isFinished()) {
                    b->execute();
                }
                break;
            }
        }
    }
    void body()
    {
        workers = static_cast<int>(ctx.weighted({0, 4, 4, 1}));
        ctx.log("%d worker(s)", workers);
        q.reset(new WorkQueue(workers));
        program.resize(1 + ctx.weighted({2, 4, 1}));
        for (auto& t : program) {
            const int n = 1 + static_cast<int>(ctx.below(5));
            std::string line;
            for (int k = 0; k < n; ++k) {
                ctx.mark();
                Op o{};
                o.act = static_cast<Act>(ctx.weighted({6, 3, 2, 1, 1, 2}));
                o.prio = ctx.below(4);
                o.ratio = static_cast<int>(ctx.below(5)) - 1;
                o.count = static_cast<int>(ctx.below(4));
                const int need = o.act == Act::AddVector ? o.count : 1;
                if (values + need >= maxItems - 1) {
                    break;
                }
                o.value = values + 1;
                values += need;
                t.push_back(o);
                static const char* names[] = {" add", " add(vector)", " add and wait", " queries", " ratio", " take"};
                line += names[static_cast<int>(o.act)];
            }
            ctx.log("thread:%s", line.c_str());
        }
        std::vector<int> ids;
        for (auto& t : program) {
            ids.push_back(sched::spawn([this, &t] {
                for (auto& o : t) {
                    op(o);
                }
            }));
        }
        sched::note("main");
        for (int id : ids) {
            sched::join(id);
        }
        sched::note("closing");
        if (ctx.below(2) == 1) {
            q->closeWorkerQueue();
        }
        q.reset();
        int ran = 0;
        for (int k = 1; k <= values; ++k) {
            VP_CHECK(result[k] == 0 || result[k] == mix(k, 5), "the result of block %d is damaged", k);
            ran += result[k] != 0 ? 1 : 0;
        }
        if (ran >= 2 && sched::preemptions() > 0) {
            ctx.nontrivial();
        }
    }

  public:
    Work() { std::fill(result, result + maxItems, 0); }
    void run()
    {
        sched::Options opt;
        opt.spurious = ctx.below(4) == 3 ? 2 : 0;
        sched::run(opt, [this] { body(); });
    }
};

template<class T>
void container(uint32_t k)
{
    switch (k) {
        case 0:
            return Queue<Simple, gmlc::containers::SimpleQueue<T>, T>().run();
        case 1:
            return Queue<Blocking, gmlc::containers::BlockingQueue<T>, T>().run();
        case 2:
            return Queue<Priority, gmlc::containers::BlockingPriorityQueue<T>, T>().run();
        default:
            return Lock<T>().run();
    }
}
void run()
{
    static const char* names[] = {"SimpleQueue", "BlockingQueue", "BlockingPriorityQueue", "AirLock", "WorkQueue"};
    std::fill(message, message + maxItems, 0);
    const uint32_t k = ctx.weighted({3, 3, 4, 2, 3});
    ctx.label(names[k]);
    ctx.log("%s", names[k]);
    if (k == 4) {
        Work().run();
    } else if (ctx.below(4) == 3) {
        container<Item<false>>(k);
    } else {
        container<Item<true>>(k);
    }
}
}  // namespace
const vp::Property vp::property{
    "C27",
    "A case is a random program of 2-4 threads with 1-6 operations each (every documented thread-safe operation; also destruction after joining) on one SimpleQueue, BlockingQueue, BlockingPriorityQueue, AirLock or WorkQueue (1-3 workers, blocks with and without futures, getWorkBlock by the users), run under a harness-owned random schedule with spurious wakeups "
    "and instrumented by ThreadSanitizer, where only the container's own mutexes and atomics (with the memory orders it asks for) order accesses: every access of the container to its state and to the elements, every receiver's access to an element's content and to a plain variable its producer wrote before handing it over must be ordered. Contents are compared too. "
    "Non-trivial: at least two elements (blocks) were received by another thread (run) and a running thread was preempted.",
    600000,
    6000000,
    run,
    false};
