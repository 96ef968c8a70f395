// C22
#include "queuew.hpp"
namespace {
template<class T, bool OTHER>
using Program = queuew::Program<queuew::Priority, T, true, OTHER>;
void run()
{
    switch (vp::ctx.weighted({11, 5, 2, 1, 1})) {
        case 0:
            return Program<queuew::Cell<true>, false>().run();
        case 1:
            return Program<queuew::Cell<false>, false>().run();
        case 2:
            return Program<queuew::Cell<true>, true>().run();
        case 3:
            return Program<queuew::Cell<false>, true>().run();
        default:
            return Program<bool, false>().run();
    }
}
}  // namespace
const vp::Property vp::property{
    "C22",
    "A case is a random program of 1-3 consumers with 1-4 pops each (blocking, timed, callback with or without a push of its own, some non-blocking) and 1-2 producers with together at least as many pushes (normal and priority), possibly sleeping in between (in a seventh of the cases only timed pops, and perhaps fewer pushes), on a BlockingPriorityQueue, run under a harness-owned random schedule (sticky, uniform or priority-based) that can switch at every lock, unlock, wait, notification and atomic access and, in a quarter of the cases, inside element copies and moves, with a virtual clock and, in a quarter, up to two spurious wakeups. Whenever no thread can run, no thread may be waiting in a pop while an element is in the queue (checked before any timeout is let pass), and all pops have to return; timed pops that return nothing must have taken their full timeout and, where the virtual clock stands still while a thread can run, none takes more than one and a half of it and 1 ms, callbacks may run only when the queue was empty (checked in the linearized history). Non-trivial: at least two pairs of operations overlapped, an element was delivered to a thread, and a running thread was preempted.",
    2000000,
    20000000,
    run,
    true};
