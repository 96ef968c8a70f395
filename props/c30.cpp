// C30: a failed insertion leaves the queues and the airlock as they were.
#define C23_AS_PART
#include "c23.cpp"
#undef C23_AS_PART
namespace {
using queuew::Brittle;
template<queuew::Kind K, bool LIVE>
void oneQueue()
{
    if (vp::ctx.below(3) == 2) {
        queuew::Program<K, Brittle<false>, LIVE, false, true>().run();
    } else {
        queuew::Program<K, Brittle<true>, LIVE, false, true>().run();
    }
}
void runFaults()
{
    switch (vp::ctx.weighted({3, 3, 3, 3, 3, 2})) {
        case 0:
            return oneQueue<queuew::Blocking, true>();
        case 1:
            return oneQueue<queuew::Priority, true>();
        case 2:
            return oneQueue<queuew::Blocking, false>();
        case 3:
            return oneQueue<queuew::Priority, false>();
        case 4:
            return oneQueue<queuew::Simple, false>();
        default:
            return Program<Brittle<true>, true>().run();
    }
}
}  // namespace
const vp::Property vp::property{
    "C30",
    "A case is a random program of 2-5 threads on a SimpleQueue, BlockingQueue, BlockingPriorityQueue or AirLock as for C18-C23, with elements whose constructions and copies, and an allocator whose allocations, can be told to throw: about a third of the pushes, emplaces, vector pushes and loads have their first, second or third element "
    "operation, or an allocation, fail, and some callbacks of popOrCall throw. The exception has to reach the caller, the call is then left out of the history, and what remains has to be linearizable (with exact size and emptiness once everything is quiet); in programs with at least as many successful pushes as pops no thread may wait "
    "while an element is there, and all pops and loads have to return; no lock may be left held, no element left over. Non-trivial: a call failed, at least two pairs of operations overlapped, and a running thread was preempted.",
    2000000,
    20000000,
    runFaults,
    true};
