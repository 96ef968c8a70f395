// C18: SimpleQueue is linearizable.
#include "queuew.hpp"
namespace {
template<class T, bool OTHER>
using Program = queuew::Program<queuew::Simple, T, false, OTHER>;
void run()
{
    switch (vp::ctx.weighted({11, 5, 2, 1, 1})) {
        case 0:
            return Program<queuew::Cell<true>, false>().run();
        case 1:
            return Program<queuew::Cell<false>, false>().run();
        case 2:
            return Program<queuew::Cell<true>, true>().run();
        case 3:
            return Program<queuew::Cell<false>, true>().run();
        default:
            return Program<bool, false>().run();
    }
}
}  // namespace
const vp::Property vp::property{
    "C18",
    "A case is a random program of 2-4 threads with 1-5 operations each (push by copy/move, emplace, vector push, pop, peek, size, empty, clear, reserve) on a SimpleQueue with random initial content, run under a harness-owned random schedule (sticky, uniform or priority-based) that can switch at every "
    "lock, unlock, atomic access and, in a quarter of the cases, inside element copies and moves; the history, followed by a drain, is searched for a sequential FIFO order that explains every result and respects real time. Deadlock and livelock are detected. "
    "Non-trivial: at least two pairs of operations overlapped and a running thread was preempted.",
    2000000,
    20000000,
    run,
    true};
