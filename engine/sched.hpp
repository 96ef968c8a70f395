// Cooperative threads on one OS thread with a harness-owned schedule and clock.
// Every scheduling decision is a choice of vp::ctx, so a schedule is replayed and shrunk with the case.
#pragma once
#include "vp.hpp"
#include <cstdint>
#include <functional>

namespace vp {
namespace sched {
    struct Options {
        /** let the clock pass the nearest timeout while threads could still run (else only when none can) */
        bool timeChoices{false};
        /** number of spurious wakeups that may be injected */
        int spurious{0};
        /** scheduling points at every copy and move of an element (vp::sched::touch) */
        bool elementPoints{false};
        /** called when no thread can run before the clock goes on to the next timeout */
        std::function<void()> onIdle;
        /** one thread only: no choices at all */
        bool sequential{false};
    };
    /** runs body as thread 0; all threads have to be finished when it returns */
    void run(const Options& opt, const std::function<void()>& body);
    bool active();
    /** starts a thread */
    int spawn(std::function<void()> body);
    /** waits for the end of a thread */
    void join(int id);
    int self();
    /** scheduling point */
    void yield();
    /** scheduling point inside an element operation */
    void touch();
    /** waits until the condition (evaluated by the scheduler) holds */
    void waitFor(const char* what, const std::function<bool()>& cond);
    /** number of steps of other threads; taken before a poll and given to pause when the poll was unsuccessful */
    unsigned progress();
    /** waits until another thread has done something since then */
    void pause(const char* what, unsigned since);
    void sleepFor(int64_t ns);
    /** no thread but `me` can run again without being notified (those waiting with a timeout can) */
    bool othersBlocked(int me);
    /** thread id waits on a condition variable */
    bool waiting(int id);
    /** virtual time in ns */
    int64_t now();
    /** a new point in the global order of events */
    uint64_t stamp();
    /** what this thread is doing, for reports (a string literal) */
    void note(const char* what);
    /** number of switches between threads that could both have gone on */
    unsigned preemptions();
    /** threads that are started while this is set do not run until it is cleared */
    void hold(bool on);
    /** a new part of the program begins: the limits on the number of steps start over */
    void restart();

    struct Mutex {
        int owner{-1};
        int depth{0};
    };
    void lock(Mutex& m, bool recursive);
    bool tryLock(Mutex& m, bool recursive);
    /** false after the timeout */
    bool lockUntil(Mutex& m, bool recursive, int64_t deadline);
    void unlock(Mutex& m);
    void destroy(Mutex& m);

    struct Shared {
        int writer{-1};
        int readers{0};
    };
    void lock(Shared& m);
    bool tryLock(Shared& m);
    void unlock(Shared& m);
    void lockShared(Shared& m);
    bool tryLockShared(Shared& m);
    void unlockShared(Shared& m);

    struct Cond {
        int waiters{0};
    };
    /** registers the calling thread; followed by the release of the lock and waitCond */
    void prepareWait(Cond& c);
    /** waits for a notification or the deadline (<0: none) */
    void waitCond(Cond& c, int64_t deadline);
    void notify(Cond& c, bool all);
    void destroy(Cond& c);
    constexpr int64_t forever = -1;
}  // namespace sched
}  // namespace vp
