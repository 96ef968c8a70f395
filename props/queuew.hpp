// Shared by C18..C22: small concurrent programs over one queue under vp::sched, histories checked for linearizability.
#pragma once
#include "shadow.hpp"
// the queues use the primitives of shadow.hpp from here on
#include "lin.hpp"
#include "timeout.hpp"
#include <gmlc/containers/BlockingPriorityQueue.hpp>
#include <gmlc/containers/BlockingQueue.hpp>
#include <gmlc/containers/SimpleQueue.hpp>

namespace queuew {
using vp::ctx;
namespace sched = vp::sched;

inline int& alive()
{
    static int n = 0;
    return n;
}
/** element with scheduling points in its copies and moves */
template<bool COPY>
struct Cell {
    int v{0};
    int w{~0};
    Cell() { ++alive(); }
    explicit Cell(int k): v(k), w(~k) { ++alive(); }
    Cell(Cell&& o) noexcept
    {
        ++alive();
        take(o);
    }
    Cell& operator=(Cell&& o) noexcept
    {
        if (this != &o) {
            take(o);
        }
        return *this;
    }
    Cell(const Cell& o)
    {
        static_assert(COPY, "a copy of an element that can only be moved");
        ++alive();
        copy(o);
    }
    Cell& operator=(const Cell& o)
    {
        static_assert(COPY, "a copy of an element that can only be moved");
        copy(o);
        return *this;
    }
    ~Cell()
    {
        --alive();
        v = w = -99;
    }
    int get() const
    {
        VP_CHECK(w == ~v, "element content damaged: %d/%d", v, ~w);
        return v;
    }

  private:
    void take(Cell& o)
    {
        const int a = o.v;
        const int b = o.w;
        o.v = -1;
        o.w = 0;
        sched::touch();
        v = a;
        w = b;
    }
    void copy(const Cell& o)
    {
        v = o.v;
        sched::touch();
        w = o.w;
    }
};
template<>
struct Cell<false>: Cell<true> {
    Cell() = default;
    explicit Cell(int k): Cell<true>(k) {}
    Cell(Cell&&) noexcept = default;
    Cell& operator=(Cell&&) noexcept = default;
    Cell(const Cell&) = delete;
    Cell& operator=(const Cell&) = delete;
};

/** what is thrown by a construction, copy or allocation that was told to fail */
struct Boom: std::bad_alloc {};
/** per thread: the number of element constructions and copies, and of allocations, until one fails (0: none) */
struct Fuse {
    int element{0};
    int memory{0};
};
inline Fuse* fuses()
{
    static Fuse f[64];
    return f;
}
inline void mayFail(int Fuse::*which)
{
    int& n = fuses()[sched::self()].*which;
    if (n > 0 && --n == 0) {
        throw Boom();
    }
}
/** element whose constructions and copies can be told to throw; MOVES: it has moves (that never throw) */
template<bool MOVES>
struct Brittle: Cell<true> {
    Brittle() = default;
    explicit Brittle(int k): Cell<true>((mayFail(&Fuse::element), k)) {}
    Brittle(const Brittle& o): Cell<true>((mayFail(&Fuse::element), static_cast<const Cell<true>&>(o))) {}
    Brittle& operator=(const Brittle& o)
    {
        mayFail(&Fuse::element);
        Cell<true>::operator=(o);
        return *this;
    }
    Brittle(Brittle&&) noexcept = default;
    Brittle& operator=(Brittle&&) noexcept = default;
};
template<>
struct Brittle<false>: Cell<true> {
    Brittle() = default;
    explicit Brittle(int k): Cell<true>((mayFail(&Fuse::element), k)) {}
    Brittle(const Brittle& o): Cell<true>((mayFail(&Fuse::element), static_cast<const Cell<true>&>(o))) {}
    Brittle& operator=(const Brittle& o)
    {
        mayFail(&Fuse::element);
        Cell<true>::operator=(o);
        return *this;
    }
};
template<class T>
struct FailingAllocator {
    using value_type = T;
    FailingAllocator() = default;
    template<class U>
    FailingAllocator(const FailingAllocator<U>&) noexcept
    {
    }
    T* allocate(size_t n)
    {
        mayFail(&Fuse::memory);
        return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* p, size_t) noexcept { ::operator delete(p); }
    template<class U>
    struct rebind {
        using other = FailingAllocator<U>;
    };
    friend bool operator==(const FailingAllocator&, const FailingAllocator&) { return true; }
    friend bool operator!=(const FailingAllocator&, const FailingAllocator&) { return false; }
};
}  // namespace queuew
// the containers use std::allocator: the one of these elements can fail
template<bool MOVES>
class std::allocator<queuew::Brittle<MOVES>>: public queuew::FailingAllocator<queuew::Brittle<MOVES>> {
    using T = queuew::Brittle<MOVES>;

  public:
    using value_type = T;
    using is_always_equal = std::true_type;
    using propagate_on_container_move_assignment = std::true_type;
    template<class U>
    struct rebind {
        using other = std::allocator<U>;
    };
    allocator() noexcept = default;
    allocator(const allocator&) noexcept = default;
    template<class U>
    allocator(const std::allocator<U>&) noexcept
    {
    }
    allocator& operator=(const allocator&) = default;
    // libstdc++ calls these on every std::allocator
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    using pointer = T*;
    using const_pointer = const T*;
    using reference = T&;
    using const_reference = const T&;
    size_type max_size() const noexcept { return size_type(PTRDIFF_MAX) / sizeof(T); }
    T* allocate(size_t n, const void* = nullptr) { return queuew::FailingAllocator<T>::allocate(n); }
    template<class U, class... A>
    void construct(U* p, A&&... a)
    {
        ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
    }
    template<class U>
    void destroy(U* p)
    {
        p->~U();
    }
};
namespace queuew {
template<class T>
struct Element {
    static T make(int k) { return T(k); }
    static int get(const T& x) { return x.get(); }
    static int seen(int k) { return k; }  // the value to expect back
};
template<>
struct Element<bool> {  // std::vector<bool> hands out proxies
    static bool make(int k) { return (k & 1) != 0; }
    static int get(bool x) { return x ? 1 : 0; }
    static int seen(int k) { return k & 1; }
};

enum Kind { Simple, Blocking, Priority };
template<Kind K, class T, bool OTHER>
struct Type;
template<class T>
struct Type<Simple, T, false> {
    using Q = gmlc::containers::SimpleQueue<T>;
};
template<class T>
struct Type<Blocking, T, false> {
    using Q = gmlc::containers::BlockingQueue<T>;
};
template<class T>
struct Type<Priority, T, false> {
    using Q = gmlc::containers::BlockingPriorityQueue<T>;
};
// other lock types
template<class T>
struct Type<Simple, T, true> {
    using Q = gmlc::containers::SimpleQueue<T, std::timed_mutex>;
};
template<class T>
struct Type<Blocking, T, true> {
    using Q = gmlc::containers::BlockingQueue<T, std::timed_mutex, std::condition_variable_any>;
};
template<class T>
struct Type<Priority, T, true> {
    using Q = gmlc::containers::BlockingPriorityQueue<T, std::recursive_mutex, std::condition_variable_any>;
};

enum class Do { Push, Pop, Peek, Size, Empty, Clear, SawEmpty, Take };
struct Op {
    Do what;
    bool priority;
    std::vector<int> in;  // pushed (or all that were taken one after the other)
    int out;  // popped or peeked value, size, emptiness; -1: nothing
    uint64_t start;
    uint64_t end;
    int by;
};
struct State {
    std::vector<char16_t> normal;
    std::vector<char16_t> urgent;
    bool empty() const { return normal.empty() && urgent.empty(); }
};
inline bool applyOp(State& s, const Op& o)
{
    auto& head = s.urgent.empty() ? s.normal : s.urgent;
    switch (o.what) {
        case Do::Push:
            for (int v : o.in) {
                (o.priority ? s.urgent : s.normal).push_back(static_cast<char16_t>(v));
            }
            return true;
        case Do::Pop:
            if (o.out < 0) {
                return head.empty();
            }
            if (head.empty() || head.front() != o.out) {
                return false;
            }
            head.erase(head.begin());
            return true;
        case Do::Peek:
            return o.out < 0 ? head.empty() : (!head.empty() && head.front() == o.out);
        case Do::Size:
            return static_cast<size_t>(o.out) == s.normal.size() + s.urgent.size();
        case Do::Empty:
            return (o.out != 0) == s.empty();
        case Do::Clear:
            s.normal.clear();
            s.urgent.clear();
            return true;
        case Do::SawEmpty:
            return s.empty();
        case Do::Take:
            for (int v : o.in) {
                auto& next = s.urgent.empty() ? s.normal : s.urgent;
                if (next.empty() || next.front() != v) {
                    return false;
                }
                next.erase(next.begin());
            }
            return o.out == 0 || s.empty();
    }
    return false;
}
inline std::string keyOf(const State& s)
{
    std::string k(reinterpret_cast<const char*>(s.normal.data()), s.normal.size() * sizeof(char16_t));
    k += "\xff\xff";
    k.append(reinterpret_cast<const char*>(s.urgent.data()), s.urgent.size() * sizeof(char16_t));
    return k;
}
inline std::string text(const Op& o)
{
    static const char* names[] = {"push", "pop", "peek", "size", "empty", "clear", "callback finds it empty", "took all of"};
    std::string s = "t" + std::to_string(o.by) + " [" + std::to_string(o.start) + "," + std::to_string(o.end) + "] " + names[static_cast<int>(o.what)];
    if (o.priority) {
        s += "(priority)";
    }
    for (size_t k = 0; k < o.in.size(); ++k) {
        if (k > 0 && k + 1 < o.in.size() && o.in[k] == o.in[k - 1] + 1 && o.in[k + 1] == o.in[k] + 1) {
            s += s.back() == '.' ? "" : " ..";
        } else {
            s += " " + std::to_string(o.in[k]);
        }
    }
    if (o.what != Do::Push && o.what != Do::Clear && o.what != Do::SawEmpty && o.what != Do::Take) {
        s += " -> " + std::to_string(o.out);
    }
    return s;
}

/** LIVE: only what the liveness properties need (pushes match pops), checked for waiting with elements present */
/** FAULT: some insertions throw (T is a Brittle), and so do some callbacks */
template<Kind K, class T, bool LIVE, bool OTHER = false, bool FAULT = false>
class Program {
    using Q = typename Type<K, T, OTHER>::Q;
    using E = Element<T>;
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    enum class Call { Push, PushMove, Emplace, PushVector, TryPop, Pop, TimedPop, PopOrCall, Peek, Size, Empty, Clear, Reserve, Sleep };
    struct Step {
        Call call;
        bool priority;
        int value;  // first value to push
        int count;  // number of values for vectors
        int ms;
        bool pushes;  // the callback pushes
        int fail{0};  // the call fails: at the element operation (> 0) or the allocation (< 0) with this number
        int unit{0};  // of the timeout
    };
    int failures{0};
    std::unique_ptr<Q> q;
    std::vector<Op> history;
    int values{0};
    int pushed{0};  // elements whose push has completed
    int popped{0};
    bool sleeps{false};
    bool timeChoices{false};

    int fresh(int n)
    {
        const int v = values + 1;
        values += n;
        return v;
    }
    Op begin(Do what, bool priority = false)
    {
        Op o{what, priority, {}, -1, 0, 0, sched::self()};
        o.start = sched::stamp();
        return o;
    }
    void finish(Op& o)
    {
        o.end = sched::stamp();
        if (o.what == Do::Push) {
            pushed += static_cast<int>(o.in.size());
        }
        if (o.what == Do::Pop && o.out >= 0) {
            ++popped;
        }
        if (ctx.tracing()) {
            ctx.log("  %s", text(o).c_str());
        }
        if (o.what == Do::Push && o.in.empty()) {
            return;  // an empty vector: no effect
        }
        history.push_back(o);
    }
    template<class V>
    static int valueOf(const std::optional<V>& v)
    {
        return v ? E::get(*v) : -1;
    }
    /** false if the call threw */
    template<class F>
    bool guarded(const Step& s, F call)
    {
        if constexpr (FAULT) {
            Fuse& f = fuses()[sched::self()];
            f.element = std::max(0, s.fail);
            f.memory = std::max(0, -s.fail);
            bool ok = true;
            try {
                call();
            }
            catch (const Boom&) {
                ok = false;
            }
            f = Fuse();
            if (!ok) {
                ++failures;
                if (ctx.tracing()) {
                    ctx.log("  t%d: a call throws", sched::self());
                }
            }
            return ok;
        } else {
            call();
            return true;
        }
    }
    void push(const Step& s)
    {
        Op o = begin(Do::Push, s.priority);
        o.in.push_back(E::seen(s.value));
        if constexpr (FAULT) {
            const T x(E::make(s.value));
            T y(E::make(s.value));
            if (!guarded(s, [&] { pushCall(s, x, y); })) {
                return;  // as if it had not been called
            }
        } else {
            pushCall(s);
        }
        finish(o);
    }
    void pushCall(const Step& s, const T& x, T& y)
    {
        if constexpr (K == Priority) {
            if (s.priority) {
                switch (s.call) {
                    case Call::Push:
                        return q->pushPriority(x);
                    case Call::PushMove:
                        return q->pushPriority(std::move(y));
                    default:
                        return q->emplacePriority(s.value);
                }
            }
        }
        switch (s.call) {
            case Call::Push:
                return q->push(x);
            case Call::PushMove:
                return q->push(std::move(y));
            default:
                q->emplace(s.value);
        }
    }
    void pushCall(const Step& s)
    {
        switch (s.call) {
            case Call::Push:
                if constexpr (copyable) {
                    const T x(E::make(s.value));
                    if constexpr (K == Priority) {
                        if (s.priority) {
                            q->pushPriority(x);
                            break;
                        }
                    }
                    q->push(x);
                    break;
                }
                [[fallthrough]];
            case Call::PushMove:
                if constexpr (K == Priority) {
                    if (s.priority) {
                        q->pushPriority(E::make(s.value));
                        break;
                    }
                }
                q->push(E::make(s.value));
                break;
            default:
                if constexpr (K == Priority) {
                    if (s.priority) {
                        if constexpr (std::is_same<T, bool>::value) {
                            q->emplacePriority(E::make(s.value));
                        } else {
                            q->emplacePriority(s.value);
                        }
                        break;
                    }
                }
                if constexpr (std::is_same<T, bool>::value) {
                    q->emplace(E::make(s.value));
                } else {
                    q->emplace(s.value);
                }
                break;
        }
    }
    void timedPop(const Step& s)
    {
        if constexpr (K != Simple) {
            Op o = begin(Do::Pop);
            const int64_t t0 = sched::now();
            sched::note("timed pop");
            int64_t least = 0;
            o.out = timeouts::with(s.ms, s.unit, least, [&](auto d) { return valueOf(q->pop(d)); });
            if (o.out < 0) {
                VP_CHECK(sched::now() - t0 >= least, "a pop with a timeout of %d%s returned nothing after %g ms", s.ms, timeouts::name(s.unit), static_cast<double>(sched::now() - t0) / 1e6);
            }
            // the clock stands still while a thread can run
            VP_CHECK(!LIVE || FAULT || timeChoices || sched::now() - t0 <= least + least / 2 + 1000000, "a pop with a timeout of %d%s returned after %g ms", s.ms, timeouts::name(s.unit), static_cast<double>(sched::now() - t0) / 1e6);
            finish(o);
        }
    }
    void popOrCall(const Step& s)
    {
        if constexpr (K != Simple) {
            Op o = begin(Do::Pop);
            uint64_t from = o.start;
            bool mayPush = s.pushes;
            sched::note("popOrCall");
            if constexpr (FAULT) {
                if (s.fail != 0) {
                    // the callback throws: nothing was popped, the caller gets the exception
                    std::optional<T> r;
                    Op seen{Do::SawEmpty, false, {}, -1, from, 0, sched::self()};
                    try {
                        r.emplace(q->popOrCall([&] {
                            finish(seen);
                            throw Boom();
                        }));
                    }
                    catch (const Boom&) {
                        ++failures;
                        return;
                    }
                    o.out = E::get(*r);
                    finish(o);
                    return;
                }
            }
            T r = q->popOrCall([&] {
                Op seen{Do::SawEmpty, false, {}, -1, from, 0, sched::self()};
                finish(seen);
                if (mayPush) {
                    mayPush = false;
                    push(Step{Call::PushMove, s.priority, s.value, 1, 0, false, 0});
                }
                from = sched::stamp();
            });
            o.out = E::get(r);
            finish(o);
        }
    }
    void step(const Step& s, bool quiet)
    {
        switch (s.call) {
            case Call::Push:
            case Call::PushMove:
            case Call::Emplace:
                sched::note("push");
                push(s);
                break;
            case Call::PushVector:
                if constexpr (K == Simple && copyable) {
                    sched::note("pushVector");
                    std::vector<T> v;
                    Op o = begin(Do::Push);
                    for (int k = 0; k < s.count; ++k) {
                        v.push_back(E::make(s.value + k));
                        o.in.push_back(E::seen(s.value + k));
                    }
                    o.start = sched::stamp();
                    if (guarded(s, [&] { q->pushVector(v); })) {
                        finish(o);
                    }
                }
                break;
            case Call::TryPop: {
                sched::note("try_pop");
                Op o = begin(Do::Pop);
                if constexpr (K == Simple) {
                    o.out = valueOf(q->pop());
                } else {
                    o.out = valueOf(q->try_pop());
                }
                finish(o);
                break;
            }
            case Call::Pop: {
                if constexpr (K != Simple) {
                    sched::note("pop");
                    Op o = begin(Do::Pop);
                    T r = q->pop();
                    o.out = E::get(r);
                    finish(o);
                }
                break;
            }
            case Call::TimedPop:
                timedPop(s);
                break;
            case Call::PopOrCall:
                popOrCall(s);
                break;
            case Call::Peek:
                if constexpr (copyable) {
                    sched::note("peek");
                    Op o = begin(Do::Peek);
                    if constexpr (K == Simple) {
                        o.out = valueOf(q->peek());
                    } else {
                        o.out = valueOf(q->try_peek());
                    }
                    if (!LIVE || quiet) {
                        finish(o);
                    }
                }
                break;
            case Call::Size:
                if constexpr (K != Priority) {
                    sched::note("size");
                    Op o = begin(Do::Size);
                    o.out = static_cast<int>(q->size());
                    if (!LIVE || quiet) {
                        finish(o);
                    }
                }
                break;
            case Call::Empty: {
                sched::note("empty");
                Op o = begin(Do::Empty);
                o.out = q->empty() ? 1 : 0;
                if (!LIVE || quiet) {
                    finish(o);
                }
                break;
            }
            case Call::Clear: {
                sched::note("clear");
                Op o = begin(Do::Clear);
                q->clear();
                finish(o);
                break;
            }
            case Call::Reserve:
                sched::note("reserve");
                q->reserve(static_cast<size_t>(s.count));
                break;
            case Call::Sleep:
                sched::note("sleep");
                sched::sleepFor(s.ms * 1000000LL);
                break;
        }
    }
    Step makePush(bool mayThrow = true)
    {
        Step s{};
        s.call = static_cast<Call>(ctx.below(3));
        s.value = fresh(1);
        s.priority = K == Priority && ctx.below(5) >= 3;
        if (FAULT && mayThrow && ctx.below(3) == 2) {
            s.fail = ctx.below(2) == 1 ? -1 : 1 + static_cast<int>(ctx.weighted({6, 1, 1}));
        }
        return s;
    }
    Step makePop(int& own)
    {
        Step s{};
        s.call = static_cast<Call>(static_cast<int>(Call::Pop) + static_cast<int>(ctx.weighted({4, 3, 3})));
        s.ms = static_cast<int>(ctx.below(4));
        if (s.call == Call::TimedPop) {
            s.unit = timeouts::draw();
        }
        if (s.call == Call::PopOrCall) {
            s.pushes = ctx.below(3) == 2;
            s.priority = K == Priority && ctx.below(2) == 1;
            if (FAULT && ctx.below(4) == 3) {
                s.pushes = false;
                s.fail = 1;
            }
            if (s.pushes) {
                s.value = fresh(1);
                ++own;
            }
        }
        return s;
    }
    Step makeStep()
    {
        Step s{};
        s.count = static_cast<int>(ctx.below(4));
        if (K == Simple && s.count == 3 && ctx.below(4) == 3) {
            s.count = 3 + static_cast<int>(ctx.below(60));
        }
        if constexpr (K == Simple) {
            static const Call calls[] = {Call::TryPop, Call::PushVector, Call::Peek, Call::Size, Call::Empty, Call::Clear, Call::Reserve};
            const uint32_t k = ctx.weighted({8, 7, 3, 2, 2, 2, 1, 1});
            if (k == 0) {
                return makePush();
            }
            s.call = calls[k - 1];
            if (s.call == Call::PushVector) {
                s.value = fresh(s.count);
                if (FAULT && ctx.below(2) == 1) {
                    s.fail = ctx.below(3) == 2 ? -1 : 1 + static_cast<int>(ctx.below(4));
                }
            }
            return s;
        } else {
            static const Call calls[] = {Call::TryPop, Call::Peek, Call::Empty, Call::Clear, Call::Size, Call::Reserve, Call::Sleep};
            const uint32_t k = ctx.weighted({9, 5, 4, 1, 2, 1, 1, 1, 1});
            if (k == 0) {
                return makePush();
            }
            if (k == 1) {
                int own = 0;
                return makePop(own);
            }
            s.call = calls[k - 2];
            s.ms = 1 + static_cast<int>(ctx.below(3));
            return s;
        }
    }

    /** many elements while nothing else happens: one step of the history */
    void bulk()
    {
        ctx.label("many elements");
        const int rounds = 1 + static_cast<int>(ctx.below(2));
        for (int r = 0; r < rounds; ++r) {
            int n = 8 + static_cast<int>(ctx.below(60));
            if (ctx.below(6) == 5) {
                n = 60 + static_cast<int>(ctx.below(500));
            }
            const bool urgent = K == Priority && ctx.below(4) == 3;
            const int v = fresh(n);
            Op o = begin(Do::Push, urgent);
            for (int k = 0; k < n; ++k) {
                o.in.push_back(E::seen(v + k));
                if constexpr (K == Priority) {
                    if (urgent) {
                        q->pushPriority(E::make(v + k));
                        continue;
                    }
                }
                q->push(E::make(v + k));
            }
            finish(o);
            sched::restart();
            if (ctx.below(2) == 1) {
                takeAll(1 + static_cast<int>(ctx.below(static_cast<uint32_t>(n))));
            }
        }
    }
    void takeAll(int limit)
    {
        Op o = begin(Do::Take);
        o.out = 0;
        while (limit-- > 0) {
            int v = -1;
            if constexpr (K == Simple) {
                v = valueOf(q->pop());
            } else {
                v = valueOf(q->try_pop());
            }
            if (v < 0) {
                o.out = 1;
                break;
            }
            VP_CHECK(o.in.size() < 20000, "draining the queue does not end");
            o.in.push_back(v);
        }
        finish(o);
        sched::restart();
    }

    void body()
    {
        q.reset(ctx.below(4) == 3 ? new Q(ctx.below(6)) : new Q());
        const bool many = !LIVE && ctx.below(12) == 11;
        if (many) {
            bulk();
        }
        // content in various splits over the internal vectors
        const int before = static_cast<int>(ctx.weighted({4, 2, 2, 1, 1}));
        for (int k = 0; k < before; ++k) {
            step(makePush(), true);
        }
        if (before > 1 && ctx.below(3) == 2) {
            step(Step{Call::TryPop, false, 0, 0, 0, false, 0}, true);
        }
        std::vector<std::vector<Step>> program;
        if (LIVE) {
            makeLive(program);
        } else {
            const int threads = 2 + static_cast<int>(ctx.weighted({4, 4, 1}));
            for (int t = 0; t < threads; ++t) {
                program.emplace_back();
                const int n = 1 + static_cast<int>(ctx.below(threads == 2 ? 5 : (threads == 3 ? 4 : 3)));
                for (int k = 0; k < n; ++k) {
                    ctx.mark();
                    program.back().push_back(makeStep());
                }
            }
        }
        if (ctx.tracing()) {
            for (auto& p : program) {
                std::string line;
                static const char* names[] = {"push", "push(move)", "emplace", "pushVector", "try_pop", "pop", "timed pop", "popOrCall", "peek", "size", "empty", "clear", "reserve", "sleep"};
                for (auto& s : p) {
                    line += std::string(" ") + names[static_cast<int>(s.call)];
                }
                ctx.log("thread:%s", line.c_str());
            }
        }
        std::vector<int> ids;
        for (auto& p : program) {
            ids.push_back(sched::spawn([this, &p] {
                for (auto& s : p) {
                    step(s, false);
                }
                sched::note("end");
            }));
        }
        if (!LIVE && K != Simple) {
            int fed = 0;
            // pops that are still waiting when everything else is over get an element each
            while (true) {
                sched::note("main");
                sched::waitFor("the threads to end or wait", [] { return sched::othersBlocked(0); });
                bool some = false;
                for (int id : ids) {
                    some = some || sched::waiting(id);
                }
                if (!some) {
                    break;
                }
                VP_CHECK(++fed < 200, "pops go on waiting although elements are pushed again and again");
                step(makePush(false), true);
            }
        }
        sched::note("main");
        for (int id : ids) {
            sched::join(id);
        }
        if (LIVE) {
            VP_CHECK(pushed >= popped, "more elements taken than pushed");
        }
        // quiescent: everything is exact
        if (copyable && !LIVE) {
            step(Step{Call::Peek, false, 0, 0, 0, false, 0}, true);
        }
        if (!LIVE) {
            step(Step{Call::Size, false, 0, 0, 0, false, 0}, true);
            step(Step{Call::Empty, false, 0, 0, 0, false, 0}, true);
        }
        const int end = (ctx.below(8) == 7) ? 1 : 1000;
        for (int k = 0; k < std::min(end, 12); ++k) {
            step(Step{Call::TryPop, false, 0, 0, 0, false, 0}, true);
            if (history.back().out < 0) {
                break;
            }
            if (k == 0 && copyable && !LIVE) {
                step(Step{Call::Peek, false, 0, 0, 0, false, 0}, true);
                step(Step{Call::Empty, false, 0, 0, 0, false, 0}, true);
            }
        }
        if (end > 1) {
            sched::restart();
            takeAll(30000);
        }
        if (!LIVE) {
            step(Step{Call::Empty, false, 0, 0, 0, false, 0}, true);
            step(Step{Call::Size, false, 0, 0, 0, false, 0}, true);
        }
        q.reset();
        VP_CHECK(alive() == 0, "%d element object(s) left over after the queue was destroyed", alive());
    }
    /** blocking pops and at least as many pushes */
    void makeLive(std::vector<std::vector<Step>>& program)
    {
        const int consumers = 1 + static_cast<int>(ctx.weighted({3, 4, 2}));
        const int producers = 1 + static_cast<int>(ctx.weighted({4, 3}));
        int own = 0;  // pushed by callbacks (they may not be called)
        int pops = 0;
        // pops that give up: there may be fewer elements than pops
        const bool patience = ctx.below(7) != 6;
        for (int t = 0; t < consumers; ++t) {
            program.emplace_back();
            const int n = 1 + static_cast<int>(ctx.weighted({4, 3, 2, 1}));
            for (int k = 0; k < n; ++k) {
                ctx.mark();
                if (ctx.below(7) == 6) {
                    program.back().push_back(Step{Call::TryPop, false, 0, 0, 0, false, 0});
                } else {
                    if (patience) {
                        program.back().push_back(makePop(own));
                    } else {
                        Step s{};
                        s.call = Call::TimedPop;
                        s.ms = static_cast<int>(ctx.below(4));
                        s.unit = timeouts::draw();
                        program.back().push_back(s);
                    }
                }
                ++pops;
            }
        }
        // without producers: a callback feeds its own pop
        int pushes = std::max(pops - pushed + popped, 1) + static_cast<int>(ctx.weighted({6, 1, 1}));
        if (pops == 1 && own == 1 && ctx.below(2) == 1) {
            return;
        }
        if (!patience) {
            pushes = static_cast<int>(ctx.below(static_cast<uint32_t>(pops + 1)));
            ctx.label("only pops that give up");
        }
        for (int t = 0; t < producers; ++t) {
            program.emplace_back();
        }
        int t = 0;
        while (pushes-- > 0) {
            ctx.mark();
            t = static_cast<int>(ctx.below(static_cast<uint32_t>(producers)));
            auto& p = program[static_cast<size_t>(consumers + t)];
            if (sleeps && ctx.below(3) == 2) {
                Step s{};
                s.call = Call::Sleep;
                s.ms = 1 + static_cast<int>(ctx.below(4));
                p.push_back(s);
            }
            if (FAULT && ctx.below(2) == 1) {
                p.push_back(makePush());  // perhaps one that fails
            }
            p.push_back(makePush(false));
        }
        // harmless company
        if (ctx.below(4) == 3) {
            auto& p = program[static_cast<size_t>(consumers)];
            static const Call calls[] = {Call::Empty, Call::Size, Call::Peek, Call::Reserve};
            Step s{};
            s.call = calls[ctx.below(4)];
            s.count = 8;
            p.insert(p.begin() + static_cast<long>(ctx.below(static_cast<uint32_t>(p.size()) + 1)), s);
        }
    }

  public:
    void run()
    {
        alive() = 0;
        std::fill_n(fuses(), 64, Fuse());
        sched::Options opt;
        opt.elementPoints = ctx.below(4) == 3;
        if (K != Simple) {
            opt.spurious = ctx.below(4) == 3 ? 2 : 0;
            if (LIVE) {
                sleeps = ctx.below(3) == 2;
                timeChoices = ctx.below(5) == 4;
            } else {
                timeChoices = ctx.below(2) == 1;
            }
            opt.timeChoices = timeChoices;
        }
        if (LIVE) {
            // nobody can run: whoever waits does so because there is nothing to take
            opt.onIdle = [this] {
                int waiters = 0;
                for (int id = 1; id < 20; ++id) {
                    waiters += sched::waiting(id) ? 1 : 0;
                }
                VP_CHECK(waiters == 0 || pushed == popped, "%d thread(s) wait in a pop while %d element(s) are in the queue", waiters, pushed - popped);
            };
        }
        sched::run(opt, [this] { body(); });
        check();
    }

  private:
    void check()
    {
        int overlaps = 0;
        int delivered = 0;
        for (auto& a : history) {
            delivered += (a.what == Do::Pop && a.out >= 0 && a.by != 0) ? 1 : 0;
            for (auto& b : history) {
                overlaps += (a.by < b.by && a.start < b.end && b.start < a.end) ? 1 : 0;
            }
        }
        if (failures > 0) {
            ctx.label("a call failed");
        }
        if ((!FAULT || failures > 0) && overlaps >= 2 && (delivered > 0 || K == Simple) && sched::preemptions() > 0) {
            ctx.nontrivial();
        }
        if (history.size() > 62) {
            ctx.discard();
        }
        if (!vp::linearizable(history, State(), applyOp, keyOf)) {
            std::string all;
            for (auto& o : history) {
                all += "; " + text(o);
            }
            ctx.fail("no sequential order explains the results (thread [start,end] operation)%s", all.c_str());
        }
        label();
    }
    void label()
    {
        static const struct {
            Do what;
            const char* name;
        } kinds[] = {{Do::Clear, "with clear"}, {Do::SawEmpty, "callback called"}, {Do::Peek, "with peek"}};
        for (auto& k : kinds) {
            for (auto& o : history) {
                if (o.what == k.what && o.by != 0) {
                    ctx.label(k.name);
                    break;
                }
            }
        }
        for (auto& o : history) {
            if (o.what == Do::Pop && o.by != 0) {
                ctx.label(o.out < 0 ? "pop found nothing" : "pop delivered");
            }
        }
        if (sched::now() != 0) {
            ctx.label("virtual time passed");
        }
        if (sched::preemptions() > 5) {
            ctx.label("more than 5 preemptions");
        }
    }
};
}  // namespace queuew
