// C28: sequential histories over the queues and the air lock against exact models.
#include "shadow.hpp"
// the containers use the primitives of shadow.hpp from here on: an operation that blocks itself is a reported deadlock
#include "tracked.hpp"
#include "timeout.hpp"
#include <gmlc/containers/AirLock.hpp>
#include <gmlc/containers/BlockingPriorityQueue.hpp>
#include <gmlc/containers/BlockingQueue.hpp>
#include <gmlc/containers/SimpleQueue.hpp>
namespace {
using vp::ctx;
namespace sched = vp::sched;
using trk::Val;

enum Kind { Simple, Blocking, Priority };
template<Kind K, class T>
struct Type {
    using Q = gmlc::containers::SimpleQueue<T>;
};
template<class T>
struct Type<Blocking, T> {
    using Q = gmlc::containers::BlockingQueue<T>;
};
template<class T>
struct Type<Priority, T> {
    using Q = gmlc::containers::BlockingPriorityQueue<T>;
};

struct Model {
    std::deque<int> normal;
    std::deque<int> urgent;
    bool empty() const { return normal.empty() && urgent.empty(); }
    size_t size() const { return normal.size() + urgent.size(); }
    int front() const { return urgent.empty() ? normal.front() : urgent.front(); }
    int take()
    {
        auto& d = urgent.empty() ? normal : urgent;
        const int v = d.front();
        d.pop_front();
        return v;
    }
    void clear()
    {
        normal.clear();
        urgent.clear();
    }
};

template<Kind K, class T>
class Sequential {
    using Q = typename Type<K, T>::Q;
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    struct Slot {
        std::unique_ptr<Q> q;
        Model m;
        bool moved{false};
    };
    Slot slot[3];
    int values{0};
    int moves{0};
    int split{0};
    int taken{0};

    /** calls f with what an element of value v is made from */
    template<class F>
    static void in(int v, F&& f)
    {
        if constexpr (std::is_same<T, trk::Multi>::value) {
            trk::Make<T>::with(v, f);
        } else {
            f(Val<T>::make(v));
        }
    }
    /** one push in one of the ways there are */
    void push(Slot& s)
    {
        const int v = ++values % 30000;
        const int how = static_cast<int>(ctx.below(4));
        const bool urgent = K == Priority && ctx.below(3) == 2;
        if (ctx.tracing()) {
            static const char* names[] = {"push(const&)", "push(&)", "push(&&)", "emplace"};
            ctx.log("  [%d] %s%s %d", static_cast<int>(&s - slot), names[how], urgent ? " priority" : "", v);
        }
        if (how == 3) {
            in(v, [&](auto&&... a) {
                if constexpr (K == Priority) {
                    if (urgent) {
                        s.q->emplacePriority(std::forward<decltype(a)>(a)...);
                    } else {
                        s.q->emplace(std::forward<decltype(a)>(a)...);
                    }
                } else {
                    s.q->emplace(std::forward<decltype(a)>(a)...);
                }
            });
        } else {
            T x = Val<T>::make(v);
            if constexpr (copyable) {
                const T& c = x;
                if (how == 0) {
                    if constexpr (K == Priority) {
                        if (urgent) {
                            s.q->pushPriority(c);
                        } else {
                            s.q->push(c);
                        }
                    } else {
                        s.q->push(c);
                    }
                }
                if (how == 1) {
                    if constexpr (K == Priority) {
                        if (urgent) {
                            s.q->pushPriority(x);
                        } else {
                            s.q->push(x);
                        }
                    } else {
                        s.q->push(x);
                    }
                }
                if (how < 2) {
                    VP_CHECK(Val<T>::key(x) == v, "the object that was pushed by copy changed from %d to %d", v, Val<T>::key(x));
                }
            }
            if (how == 2 || !copyable) {
                if constexpr (K == Priority) {
                    if (urgent) {
                        s.q->pushPriority(std::move(x));
                    } else {
                        s.q->push(std::move(x));
                    }
                } else {
                    s.q->push(std::move(x));
                }
            }
        }
        (urgent ? s.m.urgent : s.m.normal).push_back(v);
    }
    void delivered(Slot& s, const char* how, const T& x)
    {
        VP_CHECK(!s.m.empty(), "%s delivered %d from an empty queue", how, Val<T>::key(x));
        const int want = s.m.take();
        const int got = Val<T>::key(x);
        VP_CHECK(got == want, "%s delivered %d instead of %d", how, got, want);
        ++taken;
    }
    void optional(Slot& s, const char* how, const std::optional<T>& x)
    {
        if (x) {
            delivered(s, how, *x);
        } else {
            VP_CHECK(s.m.empty(), "%s delivered nothing although %zu elements are in the queue", how, s.m.size());
        }
    }
    void pop(Slot& s)
    {
        if constexpr (K == Simple) {
            ctx.log("  [%d] pop", static_cast<int>(&s - slot));
            auto x = s.q->pop();
            optional(s, "pop", x);
        } else {
            uint32_t how = ctx.below(4);
            if (how == 1 && s.m.empty()) {
                how = 0;
            }
            static const char* names[] = {"try_pop", "pop", "timed pop", "popOrCall"};
            ctx.log("  [%d] %s", static_cast<int>(&s - slot), names[how]);
            if (how == 0) {
                auto x = s.q->try_pop();
                optional(s, "try_pop", x);
            } else if (how == 1) {
                T x = s.q->pop();
                delivered(s, "pop", x);
            } else if (how == 2) {
                const int64_t t0 = sched::now();
                const int ms = static_cast<int>(ctx.below(5)) - (ctx.below(8) == 7 ? 5 : 0);  // negative ones have passed
                const bool was = s.m.empty();
                int64_t least = 0;
                auto x = timeouts::with(ms, timeouts::draw(), least, [&](auto d) { return s.q->pop(d); });
                least = std::max<int64_t>(least, 0);
                optional(s, "timed pop", x);
                VP_CHECK(!was || sched::now() - t0 >= least, "a timed pop on an empty queue returned before its timeout");
                VP_CHECK(sched::now() - t0 <= least + std::max<int64_t>(1000000, least / 2), "a timed pop with nobody else around returned %g ms after its timeout of %g ms", static_cast<double>(sched::now() - t0 - least) / 1e6, static_cast<double>(least) / 1e6);
                VP_CHECK(was || sched::now() == t0, "a timed pop waited although an element was in the queue");
            } else {
                const bool was = s.m.empty();
                int called = 0;
                T x = s.q->popOrCall([&] {
                    VP_CHECK(s.m.empty(), "popOrCall called the function although elements are in the queue");
                    ++called;
                    VP_CHECK(called < 3, "popOrCall calls the function again although it provided an element");
                    const int n = 1 + static_cast<int>(ctx.below(3));
                    for (int k = 0; k < n; ++k) {
                        push(s);
                    }
                });
                VP_CHECK(called == (was ? 1 : 0), "popOrCall called the function %d times on %s queue", called, was ? "an empty" : "a non-empty");
                delivered(s, "popOrCall", x);
            }
        }
    }
    void pushVector(Slot& s)
    {
        if constexpr (K == Simple && copyable) {
            static const int lengths[] = {0, 1, 2, 3, 7, 20};
            const int n = lengths[ctx.below(6)];
            ctx.log("  [%d] pushVector of %d", static_cast<int>(&s - slot), n);
            std::vector<T> v;
            const int first = values;
            for (int k = 0; k < n; ++k) {
                v.push_back(Val<T>::make(++values % 30000));
                s.m.normal.push_back(values % 30000);
            }
            s.q->pushVector(v);
            VP_CHECK(v.size() == static_cast<size_t>(n), "pushVector changed its argument");
            for (int k = 0; k < n; ++k) {
                VP_CHECK(Val<T>::key(v[static_cast<size_t>(k)]) == (first + k + 1) % 30000, "pushVector changed its argument");
            }
        }
    }
    void checkAll(bool twice)
    {
        for (auto& s : slot) {
            if (!s.q) {
                continue;
            }
            const int i = static_cast<int>(&s - slot);
            const char* state = s.moved ? " (moved from)" : "";
            VP_CHECK(s.q->empty() == s.m.empty(), "queue %d%s with %zu elements: empty() is %d", i, state, s.m.size(), s.q->empty() ? 1 : 0);
            if constexpr (K != Priority) {
                VP_CHECK(s.q->size() == s.m.size(), "queue %d%s with %zu elements: size() is %zu", i, state, s.m.size(), s.q->size());
            }
            if constexpr (copyable) {
                for (int k = 0; k < (twice ? 2 : 1); ++k) {
                    std::optional<T> x;
                    if constexpr (K == Simple) {
                        x = s.q->peek();
                    } else {
                        x = s.q->try_peek();
                    }
                    VP_CHECK(x.has_value() == !s.m.empty(), "queue %d%s with %zu elements: peek %s", i, state, s.m.size(), x ? "found one" : "found nothing");
                    if (x) {
                        VP_CHECK(Val<T>::key(*x) == s.m.front(), "queue %d%s: peek sees %d instead of %d", i, state, Val<T>::key(*x), s.m.front());
                    }
                }
            }
        }
    }
    Slot& some(bool wanted, Slot* not_ = nullptr)
    {
        const uint32_t from = ctx.below(3);
        for (uint32_t k = 0; k < 3; ++k) {
            Slot& s = slot[(from + k) % 3];
            if (&s != not_ && (s.q != nullptr) == wanted) {
                return s;
            }
        }
        return slot[0];
    }
    void create(Slot& s)
    {
        s.moved = false;
        s.m.clear();
        if (ctx.below(3) == 2) {
            const size_t c = ctx.below(20);
            ctx.log("  [%d] new with capacity %zu", static_cast<int>(&s - slot), c);
            s.q.reset(new Q(c));
        } else {
            ctx.log("  [%d] new", static_cast<int>(&s - slot));
            s.q.reset(new Q());
        }
    }
    void step()
    {
        Slot& s = some(true);
        if (!s.q) {
            create(s);
            return;
        }
        switch (ctx.weighted({10, 9, 3, 2, 1, 1, 3, 3, 1, 1, 2})) {
            case 0:
                push(s);
                s.moved = false;
                return;
            case 1:
                pop(s);
                return;
            case 2:
                pushVector(s);
                return;
            case 3: {  // a run
                const int n = 2 + static_cast<int>(ctx.below(40));
                for (int k = 0; k < n; ++k) {
                    push(s);
                }
                return;
            }
            case 4:
                ctx.log("  [%d] clear", static_cast<int>(&s - slot));
                s.q->clear();
                s.m.clear();
                return;
            case 5: {
                const size_t n = ctx.below(70);
                ctx.log("  [%d] reserve %zu", static_cast<int>(&s - slot), n);
                s.q->reserve(n);
                return;
            }
            case 6: {  // move construction, maybe over another one
                Slot& d = some(ctx.below(3) == 2, &s);
                if (&d == &s) {
                    return;
                }
                ctx.log("  [%d] move constructed from [%d]", static_cast<int>(&d - slot), static_cast<int>(&s - slot));
                note(s);
                d.q.reset(new Q(std::move(*s.q)));
                transfer(d, s);
                return;
            }
            case 7: {
                Slot& d = some(true, &s);
                if (&d == &s || !d.q) {
                    return;
                }
                ctx.log("  [%d] = move [%d]", static_cast<int>(&d - slot), static_cast<int>(&s - slot));
                note(s);
                *d.q = std::move(*s.q);
                transfer(d, s);
                return;
            }
            case 8: {
                Slot& d = some(true, &s);
                if (&d == &s || !d.q) {
                    return;
                }
                ctx.log("  swap [%d] [%d]", static_cast<int>(&d - slot), static_cast<int>(&s - slot));
                std::swap(*d.q, *s.q);
                std::swap(d.m, s.m);
                return;
            }
            case 9:
                ctx.log("  [%d] destroyed", static_cast<int>(&s - slot));
                s.q.reset();
                s.m.clear();
                return;
            default: {  // take several
                const size_t n = std::min<size_t>(1 + ctx.below(12), s.m.size() + 1);
                for (size_t k = 0; k < n; ++k) {
                    pop(s);
                }
                return;
            }
        }
    }
    void note(Slot& s)
    {
        ++moves;
        if (s.m.size() > 1) {
            ++split;
        }
    }
    static void transfer(Slot& d, Slot& s)
    {
        d.m = std::move(s.m);
        s.m.clear();
        s.moved = true;
        d.moved = false;
    }

  public:
    void run()
    {
        create(slot[0]);
        checkAll(false);
        int steps = 0;
        while (ctx.more(14)) {
            ++steps;
            step();
            checkAll(steps % 4 == 0);
        }
        for (auto& s : slot) {
            if (s.q && ctx.below(2) == 0) {
                size_t left = s.m.size();
                while (left-- > 0) {
                    if constexpr (K == Simple) {
                        optional(s, "pop", s.q->pop());
                    } else {
                        optional(s, "try_pop", s.q->try_pop());
                    }
                    checkAll(false);
                }
                if constexpr (K == Simple) {
                    optional(s, "pop", s.q->pop());
                } else {
                    optional(s, "try_pop", s.q->try_pop());
                }
            }
            s.q.reset();
            s.m.clear();
        }
        VP_CHECK(trk::live().count == 0, "%zu element object(s) left over after all queues were destroyed", trk::live().count);
        if (taken >= 3 && split > 0) {
            ctx.nontrivial();
        }
        ctx.label(moves > 0 ? "with queue moves" : "without queue moves");
    }
};

template<class T>
void airlock()
{
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    std::unique_ptr<gmlc::containers::AirLock<T>> a(new gmlc::containers::AirLock<T>());
    int held = 0;
    int values = 0;
    int handed = 0;
    int refused = 0;
    VP_CHECK(!a->isLoaded(), "a new air lock is loaded");
    while (ctx.more(10)) {
        const uint32_t what = ctx.weighted({3, 2, 4, 1});
        if (what < 2) {
            const bool block = what == 1 && held == 0;
            const int v = ++values % 30000;
            const uint32_t how = copyable ? ctx.below(3) : 2;
            T x = Val<T>::make(v);
            bool ok = true;
            ctx.log("  %s %d", block ? "load" : "try_load", v);
            if constexpr (copyable) {
                const T& c = x;
                if (how == 0) {
                    block ? a->load(c) : static_cast<void>(ok = a->try_load(c));
                }
                if (how == 1) {
                    block ? a->load(x) : static_cast<void>(ok = a->try_load(x));
                }
            }
            if (how == 2) {
                block ? a->load(std::move(x)) : static_cast<void>(ok = a->try_load(std::move(x)));
            }
            VP_CHECK(ok == (held == 0), "try_load on %s air lock %s", held == 0 ? "an empty" : "a loaded", ok ? "succeeded" : "failed");
            if (!ok || how != 2) {
                VP_CHECK(Val<T>::key(x) == v, "the object that was %s changed from %d to %d", ok ? "loaded by copy" : "refused", v, Val<T>::key(x));
            }
            if (ok) {
                held = v;
            } else {
                ++refused;
            }
        } else if (what == 2) {
            ctx.log("  try_unload");
            auto x = a->try_unload();
            VP_CHECK(x.has_value() == (held != 0), "try_unload on %s air lock delivered %s", held == 0 ? "an empty" : "a loaded", x ? "an object" : "nothing");
            if (x) {
                VP_CHECK(Val<T>::key(*x) == held, "try_unload delivered %d instead of %d", Val<T>::key(*x), held);
                ++handed;
            }
            held = 0;
        } else if (ctx.below(4) == 3) {
            ctx.log("  destroyed and made again");
            a.reset();
            VP_CHECK(trk::live().count == 0, "%zu element object(s) left over after the air lock was destroyed", trk::live().count);
            a.reset(new gmlc::containers::AirLock<T>());
            held = 0;
        }
        VP_CHECK(a->isLoaded() == (held != 0), "%s air lock says %s", held == 0 ? "an empty" : "a loaded", a->isLoaded() ? "it is loaded" : "it is not loaded");
    }
    a.reset();
    VP_CHECK(trk::live().count == 0, "%zu element object(s) left over after the air lock was destroyed", trk::live().count);
    if (handed >= 2 && refused > 0) {
        ctx.nontrivial();
    }
}
using Ptr = std::unique_ptr<int>;
template<Kind K>
void queue(uint32_t t)
{
    switch (t) {
        case 0:
            Sequential<K, trk::Plain>().run();
            break;
        case 1:
            Sequential<K, trk::MoveOnly>().run();
            break;
        case 2:
            Sequential<K, std::string>().run();
            break;
        case 3:
            Sequential<K, int>().run();
            break;
        case 4:
            Sequential<K, Ptr>().run();
            break;
        default:
            Sequential<K, trk::Multi>().run();
            break;
    }
}
void run()
{
    trk::resetAll();
    sched::Options opt;
    opt.sequential = true;
    sched::run(opt, [] {
        const uint32_t t = ctx.weighted({4, 2, 2, 1, 1, 2});
        static const char* types[] = {"accounted", "move-only accounted", "std::string", "int", "std::unique_ptr<int>", "accounted (several constructors)"};
        static const char* kinds[] = {"SimpleQueue", "BlockingQueue", "BlockingPriorityQueue", "AirLock"};
        const uint32_t k = ctx.weighted({4, 3, 4, 2});
        ctx.log("%s of %s elements", kinds[k], types[t]);
        ctx.label(kinds[k]);
        switch (k) {
            case 0:
                return queue<Simple>(t);
            case 1:
                return queue<Blocking>(t);
            case 2:
                return queue<Priority>(t);
            default:
                switch (t) {
                    case 0:
                        return airlock<trk::Plain>();
                    case 1:
                        return airlock<trk::MoveOnly>();
                    case 2:
                        return airlock<std::string>();
                    case 3:
                        return airlock<int>();
                    case 4:
                        return airlock<Ptr>();
                    default:
                        return airlock<trk::Multi>();
                }
        }
    });
}
}  // namespace
const vp::Property vp::property{
    "C28",
    "A case is a random single-threaded history over up to three queues of one kind (SimpleQueue, BlockingQueue, BlockingPriorityQueue) or one AirLock, with accounted, move-only, string, int or unique_ptr elements and ones with several constructors: pushes by const and non-const reference, by move and in place from nothing, one or two arguments, runs of up to 41 pushes, "
    "vector pushes of 0-20, all pops (popOrCall with a callback that feeds the queue, timed pops on a virtual clock that end at their timeout, also with none left), clear, reserve, move construction and assignment, swap, destruction. After every step empty(), size() and peek of every queue, moved-from ones included, are compared with the model; an operation that would wait for itself is reported as a deadlock; every element object is accounted for. "
    "Non-trivial: at least three deliveries and a move of a queue with more than one element pending (air lock: two hand-outs and a refused load).",
    4000000,
    60000000,
    run,
    true};
