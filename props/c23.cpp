// C23: AirLock is a linearizable single slot and wakes waiting loaders.
#include "queuew.hpp"
#include <gmlc/containers/AirLock.hpp>
namespace {
using vp::ctx;
namespace sched = vp::sched;
enum class Do { TryLoad, Load, Unload, IsLoaded };
struct Op {
    Do what;
    int in;
    int out;  // success, value or -1, loaded
    uint64_t start;
    uint64_t end;
    int by;
};
struct Slot {
    int v{0};  // 0: empty
};
bool applyOp(Slot& s, const Op& o)
{
    switch (o.what) {
        case Do::TryLoad:
            if (o.out == 0) {
                return s.v != 0;
            }
            [[fallthrough]];
        case Do::Load:
            if (s.v != 0) {
                return false;
            }
            s.v = o.in;
            return true;
        case Do::Unload:
            if (o.out < 0) {
                return s.v == 0;
            }
            if (s.v != o.out) {
                return false;
            }
            s.v = 0;
            return true;
        default:
            return (o.out != 0) == (s.v != 0);
    }
}
std::string keyOf(const Slot& s)
{
    return std::string(1, static_cast<char>(s.v));
}
std::string text(const Op& o)
{
    static const char* names[] = {"try_load", "load", "try_unload", "isLoaded"};
    return "t" + std::to_string(o.by) + " [" + std::to_string(o.start) + "," + std::to_string(o.end) + "] " + names[static_cast<int>(o.what)] + (o.in != 0 ? " " + std::to_string(o.in) : "") + (o.what != Do::Load ? " -> " + std::to_string(o.out) : "");
}

/** FAULT: some loads throw (T is a Brittle) */
template<class T, bool FAULT = false>
class Program {
    static constexpr bool copyable = std::is_copy_constructible<T>::value;
    std::unique_ptr<gmlc::containers::AirLock<T>> a;
    std::vector<Op> history;
    int values{0};
    int failures{0};

    Op begin(Do what, int in = 0)
    {
        static const char* names[] = {"try_load", "load", "try_unload", "isLoaded"};
        sched::note(names[static_cast<int>(what)]);
        return Op{what, in, -1, sched::stamp(), 0, sched::self()};
    }
    int finish(Op& o)
    {
        o.end = sched::stamp();
        if (ctx.tracing()) {
            ctx.log("  %s", text(o).c_str());
        }
        history.push_back(o);
        return o.out;
    }
    int step(Do what, int v, bool byCopy, bool fails = false)
    {
        if (what == Do::TryLoad || what == Do::Load) {
            T x(v);
            Op o = begin(what, v);
            if constexpr (FAULT) {
                if (fails) {
                    const T& c = x;
                    queuew::fuses()[sched::self()].element = 1;
                    bool loaded = true;
                    try {
                        if (what == Do::TryLoad) {
                            o.out = a->try_load(c) ? 1 : 0;
                        } else {
                            a->load(c);
                        }
                    }
                    catch (const queuew::Boom&) {
                        loaded = false;
                    }
                    queuew::fuses()[sched::self()].element = 0;
                    if (!loaded) {
                        ++failures;
                        if (ctx.tracing()) {
                            ctx.log("  t%d: a load throws", sched::self());
                        }
                        return 0;  // as if it had not been called
                    }
                    return finish(o);
                }
            }
            if (what == Do::TryLoad) {
                bool ok = false;
                if constexpr (copyable) {
                    if (byCopy) {
                        const T& c = x;
                        ok = a->try_load(c);
                        VP_CHECK(x.get() == v, "try_load of a const object changed it");
                    }
                }
                if (!copyable || !byCopy) {
                    ok = a->try_load(std::move(x));
                    if (!ok) {
                        VP_CHECK(x.v == v && x.w == ~v, "a failed try_load changed the caller's object");
                    }
                }
                o.out = ok ? 1 : 0;
            } else {
                bool done = false;
                if constexpr (copyable) {
                    if (byCopy) {
                        const T& c = x;
                        a->load(c);
                        done = true;
                    }
                }
                if (!done) {
                    a->load(std::move(x));
                }
            }
            return finish(o);
        }
        Op o = begin(what);
        if (what == Do::Unload) {
            auto r = a->try_unload();
            o.out = r ? r->get() : -1;
        } else {
            o.out = a->isLoaded() ? 1 : 0;
        }
        return finish(o);
    }
    struct Step {
        Do what;
        int v;
        bool byCopy;
        bool fails;
    };
    void body()
    {
        a.reset(new gmlc::containers::AirLock<T>());
        if (ctx.below(3) == 2) {
            step(Do::TryLoad, ++values, false);
        }
        std::vector<std::vector<Step>> program;
        const int threads = 2 + static_cast<int>(ctx.weighted({3, 4, 2}));
        for (int t = 0; t < threads; ++t) {
            program.emplace_back();
            const int n = 1 + static_cast<int>(ctx.below(threads == 2 ? 6 : (threads == 3 ? 4 : 3)));
            // roles make programs in which several threads wait more likely
            const uint32_t role = ctx.below(4);
            for (int k = 0; k < n; ++k) {
                ctx.mark();
                static const Do kinds[] = {Do::Load, Do::Unload, Do::TryLoad, Do::IsLoaded};
                Step s{};
                switch (role) {
                    case 0:
                        s.what = kinds[ctx.weighted({4, 5, 3, 2})];
                        break;
                    case 1:
                        s.what = Do::Load;
                        break;
                    case 2:
                        s.what = Do::Unload;
                        break;
                    default:
                        s.what = kinds[ctx.weighted({1, 1, 4, 1})];
                        break;
                }
                s.v = (s.what == Do::Load || s.what == Do::TryLoad) ? ++values : 0;
                s.byCopy = ctx.below(2) == 1;
                s.fails = FAULT && s.v != 0 && ctx.below(3) == 2;
                program.back().push_back(s);
            }
        }
        std::vector<int> ids;
        int running = threads;
        for (auto& p : program) {
            ids.push_back(sched::spawn([this, &p, &running] {
                for (auto& s : p) {
                    step(s.what, s.v, s.byCopy, s.fails);
                }
                sched::note("end");
                --running;
            }));
        }
        // unload until everyone is through, from now or from the time when only waiting loaders are left
        if (ctx.below(2) == 1) {
            sched::note("main");
            sched::waitFor("the loaders to end or wait", [] { return sched::othersBlocked(0); });
        }
        while (running > 0) {
            VP_CHECK(history.size() < 5000, "loaders do not get through although the airlock is unloaded again and again");
            const unsigned since = sched::progress();
            if (step(Do::Unload, 0, false) < 0) {
                if (running > 0) {
                    history.pop_back();  // polls that find nothing are not part of the history
                    sched::note("main");
                    sched::pause("for the airlock to be loaded", since);
                }
            }
        }
        for (int id : ids) {
            sched::join(id);
        }
        step(Do::IsLoaded, 0, false);
        for (int k = 0; k < 3; ++k) {
            step(Do::Unload, 0, false);
        }
        step(Do::IsLoaded, 0, false);
        step(Do::TryLoad, ++values, false);
        step(Do::TryLoad, ++values, true);
        step(Do::IsLoaded, 0, false);
        if (ctx.below(2) == 1) {
            step(Do::Unload, 0, false);
        }
        a.reset();
        VP_CHECK(queuew::alive() == 0, "%d element object(s) left over after the airlock was destroyed", queuew::alive());
    }

  public:
    void run()
    {
        queuew::alive() = 0;
        std::fill_n(queuew::fuses(), 64, queuew::Fuse());
        sched::Options opt;
        opt.elementPoints = ctx.below(4) == 3;
        opt.spurious = ctx.below(4) == 3 ? 2 : 0;
        sched::run(opt, [this] { body(); });
        int overlaps = 0;
        int waits = 0;
        for (auto& x : history) {
            waits += x.what == Do::Load && x.by != 0 ? 1 : 0;
            for (auto& y : history) {
                overlaps += (x.by < y.by && x.start < y.end && y.start < x.end) ? 1 : 0;
            }
        }
        if (failures > 0) {
            ctx.label("a call failed");
        }
        if ((!FAULT || failures > 0) && overlaps >= 2 && sched::preemptions() > 0) {
            ctx.nontrivial();
        }
        if (waits > 1) {
            ctx.label("several blocking loads");
        }
        if (sched::preemptions() > 5) {
            ctx.label("more than 5 preemptions");
        }
        if (history.size() > 62) {
            ctx.discard();
        }
        if (!vp::linearizable(history, Slot(), applyOp, keyOf)) {
            std::string all;
            for (auto& o : history) {
                all += "; " + text(o);
            }
            ctx.fail("no sequential order explains the results (thread [start,end] operation)%s", all.c_str());
        }
    }
};
#ifndef C23_AS_PART
void run()
{
    if (ctx.below(4) == 3) {
        Program<queuew::Cell<false>>().run();
    } else {
        Program<queuew::Cell<true>>().run();
    }
}
#endif
}  // namespace
#ifndef C23_AS_PART
const vp::Property vp::property{
    "C23",
    "A case is a random program of 2-4 threads with 1-6 operations each (blocking loads, try_load, try_unload, isLoaded; also threads that only load or only unload) on an AirLock, run under a harness-owned random schedule (sticky, uniform or priority-based) that can switch at every lock, unlock, "
    "wait, notification and atomic access and, in a quarter of the cases, inside element copies and moves, with up to two spurious wakeups in a quarter; a further thread unloads until all loaders are through, and a state in which no thread can go on is a violation. The history is searched for a "
    "sequential order of single-slot operations that explains every result and respects real time. Non-trivial: at least two pairs of operations overlapped and a running thread was preempted.",
    2000000,
    20000000,
    run,
    true};
#endif
