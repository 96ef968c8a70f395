#include "sched.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <sys/mman.h>
#include <utility>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VP_ASAN 1
#    endif
#elif defined(__SANITIZE_ADDRESS__)
#    define VP_ASAN 1
#endif
#ifdef VP_ASAN
#    include <sanitizer/asan_interface.h>
#    include <sanitizer/common_interface_defs.h>
#endif
#ifdef VP_TSAN
extern "C" {
void* __tsan_get_current_fiber();
void* __tsan_create_fiber(unsigned flags);
void __tsan_destroy_fiber(void* fiber);
void __tsan_switch_to_fiber(void* fiber, unsigned flags);
void __tsan_acquire(void* addr);
void __tsan_release(void* addr);
void AnnotateIgnoreReadsBegin(const char* file, int line);
void AnnotateIgnoreReadsEnd(const char* file, int line);
void AnnotateIgnoreWritesBegin(const char* file, int line);
void AnnotateIgnoreWritesEnd(const char* file, int line);
}
#endif
extern "C" void* __cxa_get_globals();

extern "C" void vp_switch_stack(void** from, void* to);
asm(R"(
.text
.globl vp_switch_stack
.type vp_switch_stack,@function
vp_switch_stack:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vp_switch_stack,.-vp_switch_stack
)");

namespace vp {
namespace sched {
    namespace {
        constexpr int maxFibers = 24;
        constexpr size_t stackSize = 256 * 1024;
        constexpr unsigned unfairSteps = 6000;
        constexpr unsigned maxSteps = 24000;
        constexpr int64_t maxTime = 3600LL * 1000000000LL;

        enum class State { Free, Runnable, OnMutex, OnCond, OnPred, Sleeping, Paused, Done };
        struct Fiber {
            State state{State::Free};
            bool held{false};
            void* sp{nullptr};
            char* stack{nullptr};
            std::function<void()>* body{nullptr};
            const void* object{nullptr};  // what it is blocked on
            const std::function<bool()>* pred{nullptr};
            const char* what{""};
            const char* blockedAt{""};
            bool notified{false};
            int64_t deadline{forever};
            unsigned pausedAt{0};
            unsigned ran{0};
            int priority{0};
            void* eh[2]{nullptr, nullptr};
            void* fake{nullptr};
            void* tsan{nullptr};
            char endSync{0};
        };
        Fiber fiber[maxFibers];
        int fibers = 0;
        int current = -1;
        bool running = false;
        bool inPred = false;
        void* mainSp = nullptr;
        void* mainFake = nullptr;
        void* mainTsan = nullptr;
        const void* mainBottom = nullptr;
        size_t mainSize = 0;
        void* mainEh[2];
        Options options;
        int strategy = 0;  // 0 sticky, 1 random, 2 priorities
        uint32_t stick = 8;
        int lowest = 0;
        unsigned steps = 0;
        unsigned allRan = 0;
        unsigned preempted = 0;
        int64_t clock = 0;
        uint64_t order = 0;
        int spuriousLeft = 0;
        bool holding = false;

        /** the scheduler's own accesses are not those of the program (it can share instrumented templates with it) */
        struct Quiet {
#ifdef VP_TSAN
            Quiet()
            {
                AnnotateIgnoreReadsBegin("", 0);
                AnnotateIgnoreWritesBegin("", 0);
            }
            ~Quiet()
            {
                AnnotateIgnoreWritesEnd("", 0);
                AnnotateIgnoreReadsEnd("", 0);
            }
#else
            Quiet() {}
#endif
        };

        void saveEh(void** to) { memcpy(to, __cxa_get_globals(), 2 * sizeof(void*)); }
        void loadEh(void** from) { memcpy(__cxa_get_globals(), from, 2 * sizeof(void*)); }

        const char* stateName(State s)
        {
            switch (s) {
                case State::Runnable:
                    return "can run";
                case State::OnMutex:
                    return "waits for a mutex";
                case State::OnCond:
                    return "waits on a condition variable";
                case State::OnPred:
                    return "waits for";
                case State::Sleeping:
                    return "sleeps";
                case State::Paused:
                    return "polls";
                case State::Done:
                    return "has ended";
                default:
                    return "is free";
            }
        }
        [[noreturn]] void stuck(const char* how)
        {
            static char text[4000];
            size_t n = 0;
            for (int i = 0; i < fibers; ++i) {
                if (fiber[i].state != State::Done && fiber[i].state != State::Free) {
                    n += static_cast<size_t>(snprintf(text + n, sizeof(text) - n, "; thread %d (in %s) %s%s%s", i, fiber[i].what, fiber[i].held ? "[held] " : "", stateName(fiber[i].state), fiber[i].state == State::OnPred || fiber[i].state == State::Paused ? (std::string(" ") + fiber[i].blockedAt).c_str() : ""));
                    if (n > sizeof(text) - 300) {
                        break;
                    }
                }
            }
            ctx.fail("%s%s", how, text);
        }

        void switchTo(int next)
        {
            const int prev = current;
            if (next == prev) {
                return;
            }
            void** save = &mainSp;
            [[maybe_unused]] void** fake = &mainFake;
            if (prev >= 0) {
                save = &fiber[prev].sp;
                fake = &fiber[prev].fake;
                saveEh(fiber[prev].eh);
            } else {
                saveEh(mainEh);
            }
            void* to = mainSp;
            [[maybe_unused]] const void* bottom = mainBottom;
            [[maybe_unused]] size_t size = mainSize;
            [[maybe_unused]] void* tsan = mainTsan;
            if (next >= 0) {
                to = fiber[next].sp;
                bottom = fiber[next].stack;
                size = stackSize;
                tsan = fiber[next].tsan;
                loadEh(fiber[next].eh);
            } else {
                loadEh(mainEh);
            }
            current = next;
#ifdef VP_ASAN
            __sanitizer_start_switch_fiber((prev >= 0 && fiber[prev].state == State::Done) ? nullptr : fake, bottom, size);
#endif
#ifdef VP_TSAN
            __tsan_switch_to_fiber(tsan, 1);
#endif
            vp_switch_stack(save, to);
#ifdef VP_ASAN
            const void* oldBottom = nullptr;
            size_t oldSize = 0;
            __sanitizer_finish_switch_fiber(prev >= 0 ? fiber[prev].fake : mainFake, &oldBottom, &oldSize);
            if (mainBottom == nullptr) {
                mainBottom = oldBottom;
                mainSize = oldSize;
            }
#endif
        }

        bool timed(const Fiber& f) { return f.deadline >= 0 && (f.state == State::OnCond || f.state == State::Sleeping || f.state == State::OnMutex); }
        bool runnable(Fiber& f)
        {
            const Quiet quiet;
            if (f.held) {
                return false;
            }
            switch (f.state) {
                case State::Runnable:
                    return true;
                case State::OnPred: {
                    inPred = true;
                    const bool r = (*f.pred)();
                    inPred = false;
                    return r;
                }
                case State::Paused:
                    return allRan - f.ran != f.pausedAt;
                case State::OnCond:
                    return f.notified || (f.deadline >= 0 && clock >= f.deadline);
                case State::OnMutex:
                case State::Sleeping:
                    return f.deadline >= 0 && clock >= f.deadline;
                default:
                    return false;
            }
        }
        bool advance()
        {
            int64_t nearest = -1;
            for (int i = 0; i < fibers; ++i) {
                if (timed(fiber[i]) && !fiber[i].held && fiber[i].deadline > clock && (nearest < 0 || fiber[i].deadline < nearest)) {
                    nearest = fiber[i].deadline;
                }
            }
            if (nearest < 0) {
                return false;
            }
            clock = nearest;
            if (clock > maxTime) {
                stuck("nothing happens any more except timeouts");
            }
            return true;
        }
        /** picks the next thread; mayGoOn: the current one could continue */
        void reschedule()
        {
            ++steps;
            if (steps > maxSteps) {
                stuck("no end after 24000 steps (livelock)");
            }
            if (options.timeChoices && steps < unfairSteps && ctx.chance(1, 48)) {
                advance();
            }
            if (spuriousLeft > 0 && ctx.chance(1, 24)) {
                int waiting[maxFibers];
                uint32_t n = 0;
                for (int i = 0; i < fibers; ++i) {
                    if (fiber[i].state == State::OnCond && !fiber[i].notified) {
                        waiting[n++] = i;
                    }
                }
                if (n > 0) {
                    --spuriousLeft;
                    fiber[waiting[ctx.below(n)]].notified = true;
                }
            }
            int ready[maxFibers];
            uint32_t n = 0;
            while (true) {
                n = 0;
                if (current >= 0 && runnable(fiber[current])) {
                    ready[n++] = current;
                }
                for (int i = 0; i < fibers; ++i) {
                    if (i != current && runnable(fiber[i])) {
                        ready[n++] = i;
                    }
                }
                if (n != 0) {
                    break;
                }
                if (options.onIdle) {
                    const Quiet quiet;
                    inPred = true;
                    options.onIdle();
                    inPred = false;
                }
                if (!advance()) {
                    stuck("deadlock: no thread can go on");
                }
            }
            const bool mine = current >= 0 && ready[0] == current;
            int next = ready[0];
            if (n > 1) {
                if (steps >= unfairSteps || strategy == 1) {
                    next = ready[ctx.below(n)];
                } else if (strategy == 0) {
                    if (mine) {
                        if (ctx.chance(1, stick)) {
                            next = ready[1 + ctx.below(n - 1)];
                        }
                    } else {
                        next = ready[ctx.below(n)];
                    }
                } else {
                    if (mine && ctx.chance(1, stick)) {
                        fiber[current].priority = --lowest;
                    }
                    for (uint32_t k = 1; k < n; ++k) {
                        if (fiber[ready[k]].priority > fiber[next].priority) {
                            next = ready[k];
                        }
                    }
                }
            }
            if (mine && next != current) {
                ++preempted;
            }
            ++allRan;
            ++fiber[next].ran;
            fiber[next].state = State::Runnable;
            switchTo(next);
        }

        extern "C" void vp_fiber_entry()
        {
#ifdef VP_ASAN
            {
                const void* oldBottom = nullptr;
                size_t oldSize = 0;
                __sanitizer_finish_switch_fiber(nullptr, &oldBottom, &oldSize);
                if (mainBottom == nullptr) {
                    mainBottom = oldBottom;
                    mainSize = oldSize;
                }
            }
#endif
            const int me = current;
#ifdef VP_TSAN
            __tsan_acquire(fiber[me].body);
#endif
            try {
                (*fiber[me].body)();
            }
            catch (const std::exception& e) {
                ctx.fail("exception leaves thread %d: %s", me, e.what());
            }
            catch (...) {
                ctx.fail("exception leaves thread %d", me);
            }
            // the closure is destroyed by the thread itself
            delete fiber[me].body;
            fiber[me].body = nullptr;
#ifdef VP_TSAN
            __tsan_release(&fiber[me].endSync);
#endif
            fiber[me].state = State::Done;
            if (me == 0) {
                switchTo(-1);
            } else {
                reschedule();
            }
            abort();
        }

        int create(std::function<void()>* body)
        {
            const Quiet quiet;
            if (fibers == maxFibers) {
                ctx.fail("more than %d threads were started", maxFibers);
            }
            const int id = fibers++;
            Fiber& f = fiber[id];
            if (f.stack == nullptr) {
                void* p = mmap(nullptr, stackSize + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if (p == MAP_FAILED) {
                    abort();
                }
                mprotect(p, 4096, PROT_NONE);
                f.stack = static_cast<char*>(p) + 4096;
            }
#ifdef VP_ASAN
            __asan_unpoison_memory_region(f.stack, stackSize);
#endif
            char* stack = f.stack;
            void* tsan = f.tsan;
            f = Fiber();
            f.stack = stack;
            f.tsan = tsan;
            f.body = body;
            f.what = "start";
            f.state = State::Runnable;
            f.held = holding;
            f.priority = (strategy == 2) ? static_cast<int>(ctx.below(64)) : 0;
            auto* top = reinterpret_cast<void**>(stack + stackSize - 64);
            *--top = nullptr;  // the entry function never returns
            *--top = reinterpret_cast<void*>(&vp_fiber_entry);
            for (int k = 0; k < 6; ++k) {
                *--top = nullptr;
            }
            f.sp = top;
#ifdef VP_TSAN
            f.tsan = __tsan_create_fiber(0);
            __tsan_release(body);
#endif
            return id;
        }
        /** blocks the current thread until reschedule() chooses it again */
        void block(State s, const void* object)
        {
            fiber[current].state = s;
            fiber[current].object = object;
            reschedule();
        }
        void wakeMutex(const void* m)
        {
            for (int i = 0; i < fibers; ++i) {
                if (fiber[i].state == State::OnMutex && fiber[i].object == m) {
                    fiber[i].state = State::Runnable;
                }
            }
        }
        inline void acquired([[maybe_unused]] const void* p)
        {
#ifdef VP_TSAN
            __tsan_acquire(const_cast<void*>(p));
#endif
        }
        inline void releasing([[maybe_unused]] const void* p)
        {
#ifdef VP_TSAN
            __tsan_release(const_cast<void*>(p));
#endif
        }
    }  // namespace

    void run(const Options& opt, const std::function<void()>& body)
    {
        options = opt;
        steps = 0;
        allRan = 0;
        preempted = 0;
        clock = 0;
        order = 0;
        fibers = 0;
        lowest = 0;
        holding = false;
        spuriousLeft = opt.spurious;
        strategy = 0;
        stick = 8;
        if (!opt.sequential) {
            static const uint32_t sticks[] = {6, 20, 3, 60};
            strategy = static_cast<int>(ctx.weighted({2, 2, 1}));
            stick = sticks[ctx.below(4)];
        }
#ifdef VP_TSAN
        mainTsan = __tsan_get_current_fiber();
#endif
        create(new std::function<void()>(body));
        running = true;
        current = -1;
        switchTo(0);
        running = false;
        for (int i = 0; i < fibers; ++i) {
            if (fiber[i].state != State::Done) {
                stuck("threads are left over");
            }
#ifdef VP_TSAN
            __tsan_acquire(&fiber[i].endSync);
            __tsan_destroy_fiber(fiber[i].tsan);
#endif
        }
        current = -1;
    }
    bool active() { return running && !inPred; }
    int spawn(std::function<void()> body)
    {
        const int id = create(new std::function<void()>(std::move(body)));
        yield();
        return id;
    }
    void join(int id)
    {
        yield();
        if (fiber[id].state != State::Done) {
            const std::function<bool()> done = [id] { return fiber[id].state == State::Done; };
            waitFor("the end of a thread", done);
        }
        acquired(&fiber[id].endSync);
    }
    int self() { return current; }
    void yield()
    {
        if (active() && !options.sequential) {
            reschedule();
        }
    }
    void touch()
    {
        if (options.elementPoints) {
            yield();
        }
    }
    void waitFor(const char* what, const std::function<bool()>& cond)
    {
        Fiber& f = fiber[current];
        f.pred = &cond;
        f.blockedAt = what;
        block(State::OnPred, nullptr);
        f.pred = nullptr;
    }
    unsigned progress() { return allRan - fiber[current].ran; }
    void pause(const char* what, unsigned since)
    {
        Fiber& f = fiber[current];
        f.blockedAt = what;
        f.pausedAt = since;
        block(State::Paused, nullptr);
    }
    void sleepFor(int64_t ns)
    {
        if (ns <= 0) {
            yield();
            return;
        }
        fiber[current].deadline = clock + ns;
        block(State::Sleeping, nullptr);
        fiber[current].deadline = forever;
    }
    bool othersBlocked(int me)
    {
        for (int i = 0; i < fibers; ++i) {
            if (i != me && fiber[i].state != State::Done && !(fiber[i].state == State::OnCond && !fiber[i].notified && fiber[i].deadline < 0)) {
                return false;
            }
        }
        return true;
    }
    bool waiting(int id) { return fiber[id].state == State::OnCond && !fiber[id].notified; }
    int64_t now() { return clock; }
    uint64_t stamp() { return ++order; }
    void note(const char* what)
    {
        if (current >= 0) {
            fiber[current].what = what;
        }
    }
    unsigned preemptions() { return preempted; }
    void restart() { steps = 0; }
    void hold(bool on)
    {
        holding = on;
        if (!on) {
            for (int i = 0; i < fibers; ++i) {
                fiber[i].held = false;
            }
        }
    }

    bool lockUntil(Mutex& m, bool recursive, int64_t deadline)
    {
        if (!active()) {
            if (m.owner != -1 && !recursive) {
                ctx.fail("deadlock: a mutex is locked twice outside any thread");
            }
            m.owner = current;
            ++m.depth;
            return true;
        }
        yield();
        if (m.owner == current && m.depth > 0) {
            if (recursive) {
                ++m.depth;
                return true;
            }
            if (deadline < 0) {
                stuck("deadlock: a thread locks a mutex it already holds");
            }
        }
        while (m.depth > 0) {
            if (deadline >= 0 && clock >= deadline) {
                return false;
            }
            fiber[current].deadline = deadline;
            block(State::OnMutex, &m);
            fiber[current].deadline = forever;
        }
        m.owner = current;
        m.depth = 1;
        acquired(&m);
        return true;
    }
    void lock(Mutex& m, bool recursive) { lockUntil(m, recursive, forever); }
    bool tryLock(Mutex& m, bool recursive)
    {
        yield();
        if (m.depth > 0) {
            if (recursive && m.owner == current) {
                ++m.depth;
                return true;
            }
            return false;
        }
        m.owner = current;
        m.depth = 1;
        acquired(&m);
        return true;
    }
    void unlock(Mutex& m)
    {
        if (m.depth == 0 || m.owner != current) {
            ctx.fail("a thread unlocks a mutex that it has not locked");
        }
        if (--m.depth > 0) {
            return;
        }
        releasing(&m);
        m.owner = -1;
        if (active()) {
            wakeMutex(&m);
            yield();
        }
    }
    void destroy(Mutex& m)
    {
        if (m.depth > 0) {
            ctx.fail("a mutex is destroyed while it is locked");
        }
    }

    void lock(Shared& m)
    {
        yield();
        while (m.writer != -1 || m.readers != 0) {
            if (m.writer == current) {
                stuck("deadlock: a thread locks a mutex it already holds");
            }
            block(State::OnMutex, &m);
        }
        m.writer = current;
        acquired(&m);
        acquired(&m.readers);
    }
    bool tryLock(Shared& m)
    {
        yield();
        if (m.writer != -1 || m.readers != 0) {
            return false;
        }
        m.writer = current;
        acquired(&m);
        acquired(&m.readers);
        return true;
    }
    void unlock(Shared& m)
    {
        if (m.writer != current) {
            ctx.fail("a thread unlocks a mutex that it has not locked");
        }
        releasing(&m);
        m.writer = -1;
        wakeMutex(&m);
        yield();
    }
    void lockShared(Shared& m)
    {
        yield();
        while (m.writer != -1) {
            if (m.writer == current) {
                stuck("deadlock: a thread locks a mutex it already holds");
            }
            block(State::OnMutex, &m);
        }
        ++m.readers;
        acquired(&m);
    }
    bool tryLockShared(Shared& m)
    {
        yield();
        if (m.writer != -1) {
            return false;
        }
        ++m.readers;
        acquired(&m);
        return true;
    }
    void unlockShared(Shared& m)
    {
        if (m.readers == 0) {
            ctx.fail("a thread unlocks a mutex that it has not locked");
        }
        releasing(&m.readers);
        --m.readers;
        wakeMutex(&m);
        yield();
    }

    void prepareWait(Cond& c)
    {
        if (!active()) {
            ctx.fail("deadlock: wait on a condition variable outside any thread");
        }
        yield();
        Fiber& f = fiber[current];
        f.object = &c;
        f.notified = false;
        ++c.waiters;
        f.pred = nullptr;
        // from here on a notification counts
        f.blockedAt = "cond";
    }
    void waitCond(Cond& c, int64_t deadline)
    {
        Fiber& f = fiber[current];
        if (!f.notified) {
            f.deadline = deadline;
            f.state = State::OnCond;
            f.object = &c;
            reschedule();
            f.deadline = forever;
        }
        --c.waiters;
        f.object = nullptr;
        f.blockedAt = "";
        f.notified = false;
    }
    void notify(Cond& c, bool all)
    {
        if (!active()) {
            return;
        }
        yield();
        int waiting[maxFibers];
        uint32_t n = 0;
        for (int i = 0; i < fibers; ++i) {
            if (i != current && fiber[i].state != State::Done && fiber[i].object == &c && !fiber[i].notified) {
                waiting[n++] = i;
            }
        }
        if (n == 0) {
            return;
        }
        if (all) {
            for (uint32_t k = 0; k < n; ++k) {
                fiber[waiting[k]].notified = true;
            }
        } else {
            fiber[waiting[ctx.below(n)]].notified = true;
        }
        yield();
    }
    void destroy(Cond& c)
    {
        if (c.waiters != 0) {
            ctx.fail("a condition variable is destroyed while threads wait on it");
        }
    }
}  // namespace sched
}  // namespace vp
