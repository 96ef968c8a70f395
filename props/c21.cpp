// C21
#include "queuew.hpp"
namespace {
template<class T, bool OTHER>
using Program = queuew::Program<queuew::Priority, T, false, OTHER>;
void run()
{
    switch (vp::ctx.weighted({11, 5, 2, 1, 1})) {
        case 0:
            return Program<queuew::Cell<true>, false>().run();
        case 1:
            return Program<queuew::Cell<false>, false>().run();
        case 2:
            return Program<queuew::Cell<true>, true>().run();
        case 3:
            return Program<queuew::Cell<false>, true>().run();
        default:
            return Program<bool, false>().run();
    }
}
}  // namespace
const vp::Property vp::property{
    "C21",
    "A case is a random program of 2-4 threads with 1-5 operations each (pushes and emplaces (normal and priority), blocking, timed, callback and non-blocking pops, clear, empty, peek, size, reserve, sleeps) on a BlockingPriorityQueue with random initial content, run under a harness-owned random schedule (sticky, uniform or priority-based) that can switch at every lock, unlock, wait, notification and atomic access and, in a quarter of the cases, inside element copies and moves, with a virtual clock and, in a quarter, up to two spurious wakeups; pops still waiting at the end are fed one element each. The history, followed by quiescent queries and a drain, is searched for a sequential order that explains every result and respects real time. Non-trivial: at least two pairs of operations overlapped, an element was delivered to a thread, and a running thread was preempted.",
    2000000,
    20000000,
    run,
    true};
