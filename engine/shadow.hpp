// Replaces the standard synchronisation primitives by ones that run under vp::sched.
// Include this before the headers under test and nothing standard after it.
#pragma once
#include <bits/stdc++.h>

#include "sched.hpp"

namespace vp {
namespace shadow {
    template<class Rep, class Period>
    int64_t ns(const std::chrono::duration<Rep, Period>& d)
    {
        const double v = std::chrono::duration<double, std::nano>(d).count();
        if (v > 9e17) {
            return 900000000000000000;
        }
        const auto whole = v < 0 ? int64_t{0} : static_cast<int64_t>(v);
        return whole + (static_cast<double>(whole) < v ? 1 : 0);  // never early
    }
    inline int64_t deadline(int64_t d) { return sched::now() + d; }
    template<class M>
    struct Relock {  // the lock is taken again on every way out of a wait
        M& m;
        ~Relock() noexcept(false) { m.lock(); }
    };
}  // namespace shadow
}  // namespace vp

namespace std {
namespace chrono {
    struct vp_steady_clock {
        using duration = nanoseconds;
        using rep = duration::rep;
        using period = duration::period;
        using time_point = chrono::time_point<vp_steady_clock, duration>;
        static constexpr bool is_steady = true;
        static time_point now() noexcept { return time_point(duration(vp::sched::now())); }
    };
    struct vp_system_clock {
        using duration = nanoseconds;
        using rep = duration::rep;
        using period = duration::period;
        using time_point = chrono::time_point<vp_system_clock, duration>;
        static constexpr bool is_steady = false;
        static time_point now() noexcept { return time_point(duration(vp::sched::now())); }
    };
    using vp_high_resolution_clock = vp_steady_clock;
}  // namespace chrono

template<bool RECURSIVE>
class vp_basic_mutex {
  protected:
    vp::sched::Mutex m;

  public:
    constexpr vp_basic_mutex() noexcept = default;
    vp_basic_mutex(const vp_basic_mutex&) = delete;
    vp_basic_mutex& operator=(const vp_basic_mutex&) = delete;
    ~vp_basic_mutex() { vp::sched::destroy(m); }
    void lock() { vp::sched::lock(m, RECURSIVE); }
    bool try_lock() { return vp::sched::tryLock(m, RECURSIVE); }
    void unlock() { vp::sched::unlock(m); }
};
template<bool RECURSIVE>
class vp_basic_timed_mutex: public vp_basic_mutex<RECURSIVE> {
  public:
    template<class R, class P>
    bool try_lock_for(const chrono::duration<R, P>& d)
    {
        return vp::sched::lockUntil(this->m, RECURSIVE, vp::shadow::deadline(vp::shadow::ns(d)));
    }
    template<class C, class D>
    bool try_lock_until(const chrono::time_point<C, D>& t)
    {
        return vp::sched::lockUntil(this->m, RECURSIVE, vp::shadow::ns(t.time_since_epoch()));
    }
};
using vp_mutex = vp_basic_mutex<false>;
using vp_recursive_mutex = vp_basic_mutex<true>;
using vp_timed_mutex = vp_basic_timed_mutex<false>;
using vp_recursive_timed_mutex = vp_basic_timed_mutex<true>;
class vp_shared_mutex {
    vp::sched::Shared m;

  public:
    vp_shared_mutex() = default;
    vp_shared_mutex(const vp_shared_mutex&) = delete;
    vp_shared_mutex& operator=(const vp_shared_mutex&) = delete;
    void lock() { vp::sched::lock(m); }
    bool try_lock() { return vp::sched::tryLock(m); }
    void unlock() { vp::sched::unlock(m); }
    void lock_shared() { vp::sched::lockShared(m); }
    bool try_lock_shared() { return vp::sched::tryLockShared(m); }
    void unlock_shared() { vp::sched::unlockShared(m); }
};
class vp_shared_timed_mutex: public vp_shared_mutex {
    template<class F>
    static bool until(int64_t end, F&& attempt)
    {
        while (!attempt()) {
            if (vp::sched::now() >= end) {
                return false;
            }
            vp::sched::sleepFor(std::min<int64_t>(end - vp::sched::now(), 1000000));
        }
        return true;
    }

  public:
    template<class R, class P>
    bool try_lock_for(const chrono::duration<R, P>& d)
    {
        return until(vp::shadow::deadline(vp::shadow::ns(d)), [this] { return try_lock(); });
    }
    template<class C, class D>
    bool try_lock_until(const chrono::time_point<C, D>& t)
    {
        return until(vp::shadow::ns(t.time_since_epoch()), [this] { return try_lock(); });
    }
    template<class R, class P>
    bool try_lock_shared_for(const chrono::duration<R, P>& d)
    {
        return until(vp::shadow::deadline(vp::shadow::ns(d)), [this] { return try_lock_shared(); });
    }
    template<class C, class D>
    bool try_lock_shared_until(const chrono::time_point<C, D>& t)
    {
        return until(vp::shadow::ns(t.time_since_epoch()), [this] { return try_lock_shared(); });
    }
};

class vp_condition_variable_any {
    vp::sched::Cond c;
    template<class L>
    void waitUntilNs(L& lock, int64_t deadline)
    {
        vp::sched::prepareWait(c);
        lock.unlock();
        vp::shadow::Relock<L> relock{lock};
        vp::sched::waitCond(c, deadline);
    }

  public:
    vp_condition_variable_any() = default;
    vp_condition_variable_any(const vp_condition_variable_any&) = delete;
    vp_condition_variable_any& operator=(const vp_condition_variable_any&) = delete;
    ~vp_condition_variable_any() { vp::sched::destroy(c); }
    void notify_one() noexcept { vp::sched::notify(c, false); }
    void notify_all() noexcept { vp::sched::notify(c, true); }
    template<class L>
    void wait(L& lock)
    {
        waitUntilNs(lock, vp::sched::forever);
    }
    template<class L, class P>
    void wait(L& lock, P pred)
    {
        while (!pred()) {
            wait(lock);
        }
    }
    template<class L, class R, class P>
    cv_status wait_for(L& lock, const chrono::duration<R, P>& d)
    {
        const int64_t end = vp::shadow::deadline(vp::shadow::ns(d));
        waitUntilNs(lock, end);
        return vp::sched::now() >= end ? cv_status::timeout : cv_status::no_timeout;
    }
    template<class L, class R, class P, class F>
    bool wait_for(L& lock, const chrono::duration<R, P>& d, F pred)
    {
        const int64_t end = vp::shadow::deadline(vp::shadow::ns(d));
        while (!pred()) {
            if (vp::sched::now() >= end) {
                return pred();
            }
            waitUntilNs(lock, end);
        }
        return true;
    }
    template<class L, class C, class D>
    cv_status wait_until(L& lock, const chrono::time_point<C, D>& t)
    {
        const int64_t end = vp::shadow::ns(t.time_since_epoch());
        waitUntilNs(lock, end);
        return vp::sched::now() >= end ? cv_status::timeout : cv_status::no_timeout;
    }
    template<class L, class C, class D, class F>
    bool wait_until(L& lock, const chrono::time_point<C, D>& t, F pred)
    {
        while (!pred()) {
            if (wait_until(lock, t) == cv_status::timeout) {
                return pred();
            }
        }
        return true;
    }
};
class vp_condition_variable: public vp_condition_variable_any {};

struct vp_once_flag {
    int state{0};
    vp_recursive_mutex m;
};
template<class F, class... A>
void vp_call_once(vp_once_flag& f, F&& fn, A&&... a)
{
    lock_guard<vp_recursive_mutex> lock(f.m);
    if (f.state == 0) {
        std::invoke(std::forward<F>(fn), std::forward<A>(a)...);
        f.state = 1;
    }
}

template<class T>
class vp_atomic {
    std::atomic<T> v;

  public:
    using value_type = T;
    using difference_type = conditional_t<is_pointer<T>::value, ptrdiff_t, T>;
    static constexpr bool is_always_lock_free = true;
    vp_atomic() noexcept: v() {}
    constexpr vp_atomic(T x) noexcept: v(x) {}
    vp_atomic(const vp_atomic&) = delete;
    vp_atomic& operator=(const vp_atomic&) = delete;
    vp_atomic& operator=(const vp_atomic&) volatile = delete;
    bool is_lock_free() const noexcept { return true; }
    T load(memory_order o = memory_order_seq_cst) const noexcept
    {
        vp::sched::yield();
        return v.load(o);
    }
    operator T() const noexcept { return load(); }
    void store(T x, memory_order o = memory_order_seq_cst) noexcept
    {
        vp::sched::yield();
        v.store(x, o);
    }
    T operator=(T x) noexcept
    {
        store(x);
        return x;
    }
    T exchange(T x, memory_order o = memory_order_seq_cst) noexcept
    {
        vp::sched::yield();
        return v.exchange(x, o);
    }
    bool compare_exchange_strong(T& e, T x, memory_order o = memory_order_seq_cst) noexcept
    {
        vp::sched::yield();
        return v.compare_exchange_strong(e, x, o);
    }
    bool compare_exchange_strong(T& e, T x, memory_order s, memory_order f) noexcept
    {
        vp::sched::yield();
        return v.compare_exchange_strong(e, x, s, f);
    }
    bool compare_exchange_weak(T& e, T x, memory_order o = memory_order_seq_cst) noexcept
    {
        vp::sched::yield();
        return v.compare_exchange_strong(e, x, o);
    }
    bool compare_exchange_weak(T& e, T x, memory_order s, memory_order f) noexcept
    {
        vp::sched::yield();
        return v.compare_exchange_strong(e, x, s, f);
    }
#define VP_FETCH(name)                                                                             \
    T name(difference_type x, memory_order o = memory_order_seq_cst) noexcept                                    \
    {                                                                                              \
        vp::sched::yield();                                                                        \
        return v.name(x, o);                                                                       \
    }
    VP_FETCH(fetch_add)
    VP_FETCH(fetch_sub)
    VP_FETCH(fetch_and)
    VP_FETCH(fetch_or)
    VP_FETCH(fetch_xor)
#undef VP_FETCH
    T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(difference_type x) noexcept
    {
        return static_cast<T>(fetch_add(x) + x);
    }
    T operator-=(difference_type x) noexcept
    {
        return static_cast<T>(fetch_sub(x) - x);
    }
    T operator&=(T x) noexcept { return static_cast<T>(fetch_and(x) & x); }
    T operator|=(T x) noexcept { return static_cast<T>(fetch_or(x) | x); }
    T operator^=(T x) noexcept { return static_cast<T>(fetch_xor(x) ^ x); }
};
/** the value type of an atomic, not deduced */
template<class T>
struct vp_same {
    using type = T;
};
template<class T>
using vp_same_t = typename vp_same<T>::type;
template<class T>
bool atomic_is_lock_free(const vp_atomic<T>*) noexcept
{
    return true;
}
template<class T>
T atomic_load(const vp_atomic<T>* a) noexcept
{
    return a->load();
}
template<class T>
T atomic_load_explicit(const vp_atomic<T>* a, memory_order o) noexcept
{
    return a->load(o);
}
template<class T>
void atomic_init(vp_atomic<T>* a, vp_same_t<T> x) noexcept
{
    a->store(x, memory_order_relaxed);
}
template<class T>
void atomic_store(vp_atomic<T>* a, vp_same_t<T> x) noexcept
{
    a->store(x);
}
template<class T>
void atomic_store_explicit(vp_atomic<T>* a, vp_same_t<T> x, memory_order o) noexcept
{
    a->store(x, o);
}
template<class T>
T atomic_exchange(vp_atomic<T>* a, vp_same_t<T> x) noexcept
{
    return a->exchange(x);
}
template<class T>
T atomic_exchange_explicit(vp_atomic<T>* a, vp_same_t<T> x, memory_order o) noexcept
{
    return a->exchange(x, o);
}
#define VP_CAS(form)                                                                                                              \
    template<class T>                                                                                                              \
    bool atomic_compare_exchange_##form(vp_atomic<T>* a, vp_same_t<T>* e, vp_same_t<T> x) noexcept                                 \
    {                                                                                                                              \
        return a->compare_exchange_##form(*e, x);                                                                                  \
    }                                                                                                                              \
    template<class T>                                                                                                              \
    bool atomic_compare_exchange_##form##_explicit(vp_atomic<T>* a, vp_same_t<T>* e, vp_same_t<T> x, memory_order s, memory_order f) noexcept \
    {                                                                                                                              \
        return a->compare_exchange_##form(*e, x, s, f);                                                                            \
    }
VP_CAS(strong)
VP_CAS(weak)
#undef VP_CAS
#define VP_FREE(name)                                                                              \
    template<class T>                                                                              \
    T atomic_##name(vp_atomic<T>* a, typename vp_atomic<T>::difference_type x) noexcept                                      \
    {                                                                                              \
        return a->name(x);                                                                         \
    }                                                                                              \
    template<class T>                                                                              \
    T atomic_##name##_explicit(vp_atomic<T>* a, typename vp_atomic<T>::difference_type x, memory_order o) noexcept           \
    {                                                                                              \
        return a->name(x, o);                                                                      \
    }
VP_FREE(fetch_add)
VP_FREE(fetch_sub)
VP_FREE(fetch_and)
VP_FREE(fetch_or)
VP_FREE(fetch_xor)
#undef VP_FREE

using vp_atomic_bool = vp_atomic<bool>;
using vp_atomic_int = vp_atomic<int>;
using vp_atomic_uint = vp_atomic<unsigned>;
using vp_atomic_long = vp_atomic<long>;
using vp_atomic_ulong = vp_atomic<unsigned long>;
using vp_atomic_llong = vp_atomic<long long>;
using vp_atomic_ullong = vp_atomic<unsigned long long>;
using vp_atomic_size_t = vp_atomic<size_t>;
using vp_atomic_int32_t = vp_atomic<int32_t>;
using vp_atomic_uint32_t = vp_atomic<uint32_t>;
using vp_atomic_int64_t = vp_atomic<int64_t>;
using vp_atomic_uint64_t = vp_atomic<uint64_t>;
struct vp_atomic_flag {
    std::atomic<bool> v;
    constexpr vp_atomic_flag() noexcept: v(false) {}
    constexpr vp_atomic_flag(int) noexcept: v(false) {}
    vp_atomic_flag(const vp_atomic_flag&) = delete;
    vp_atomic_flag& operator=(const vp_atomic_flag&) = delete;
    bool test_and_set(memory_order o = memory_order_seq_cst) noexcept
    {
        vp::sched::yield();
        return v.exchange(true, o);
    }
    void clear(memory_order o = memory_order_seq_cst) noexcept
    {
        vp::sched::yield();
        v.store(false, o);
    }
};
inline bool atomic_flag_test_and_set(vp_atomic_flag* f) noexcept
{
    return f->test_and_set();
}
inline bool atomic_flag_test_and_set_explicit(vp_atomic_flag* f, memory_order o) noexcept
{
    return f->test_and_set(o);
}
inline void atomic_flag_clear(vp_atomic_flag* f) noexcept
{
    f->clear();
}
inline void atomic_flag_clear_explicit(vp_atomic_flag* f, memory_order o) noexcept
{
    f->clear(o);
}
inline void vp_atomic_thread_fence(memory_order o) noexcept
{
    vp::sched::yield();
    (atomic_thread_fence)(o);
}

class vp_thread {
    int n{-1};

  public:
    class id {
        friend class vp_thread;

      public:
        int n{-1};
        id() = default;
        explicit id(int k): n(k) {}
        bool operator==(const id& o) const { return n == o.n; }
        bool operator!=(const id& o) const { return n != o.n; }
        bool operator<(const id& o) const { return n < o.n; }
        bool operator>(const id& o) const { return n > o.n; }
        bool operator<=(const id& o) const { return n <= o.n; }
        bool operator>=(const id& o) const { return n >= o.n; }
        template<class C, class R>
        friend basic_ostream<C, R>& operator<<(basic_ostream<C, R>& s, const id& i)
        {
            return s << i.n;
        }
    };
    using native_handle_type = int;
    vp_thread() noexcept = default;
    template<class F, class... A, class = enable_if_t<!is_same<remove_cv_t<remove_reference_t<F>>, vp_thread>::value>>
    explicit vp_thread(F&& f, A&&... a)
    {
        auto args = make_shared<tuple<decay_t<F>, decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
        n = vp::sched::spawn([args] { std::apply([](auto&&... x) { std::invoke(std::move(x)...); }, std::move(*args)); });
    }
    vp_thread(const vp_thread&) = delete;
    vp_thread& operator=(const vp_thread&) = delete;
    vp_thread(vp_thread&& o) noexcept { std::swap(n, o.n); }
    vp_thread& operator=(vp_thread&& o) noexcept
    {
        if (joinable()) {
            vp::ctx.fail("a thread that was not joined is assigned over (std::terminate)");
        }
        n = o.n;
        o.n = -1;
        return *this;
    }
    ~vp_thread()
    {
        if (joinable()) {
            vp::ctx.fail("a thread that was not joined is destroyed (std::terminate)");
        }
    }
    void swap(vp_thread& o) noexcept { std::swap(n, o.n); }
    bool joinable() const noexcept { return n != -1; }
    void join()
    {
        if (!joinable()) {
            throw system_error(make_error_code(errc::invalid_argument));
        }
        if (n == vp::sched::self()) {
            throw system_error(make_error_code(errc::resource_deadlock_would_occur));
        }
        vp::sched::join(n);
        n = -1;
    }
    void detach() { n = -1; }
    id get_id() const noexcept { return id(n); }
    native_handle_type native_handle() { return n; }
    friend void swap(vp_thread& a, vp_thread& b) noexcept { a.swap(b); }
    static unsigned hardware_concurrency() noexcept { return 2; }
};
namespace vp_this_thread {
    inline void yield() { vp::sched::yield(); }
    inline vp_thread::id get_id() { return vp_thread::id(vp::sched::self()); }
    template<class R, class P>
    void sleep_for(const chrono::duration<R, P>& d)
    {
        vp::sched::sleepFor(vp::shadow::ns(d));
    }
    template<class C, class D>
    void sleep_until(const chrono::time_point<C, D>& t)
    {
        vp::sched::sleepFor(vp::shadow::ns(t.time_since_epoch()) - vp::sched::now());
    }
}  // namespace vp_this_thread
inline void vp_notify_all_at_thread_exit(vp_condition_variable& c, unique_lock<vp_mutex> l)
{
    l.unlock();
    c.notify_all();
}
}  // namespace std
template<>
struct std::hash<std::vp_thread::id> {
    size_t operator()(const std::vp_thread::id& i) const { return static_cast<size_t>(i.n); }
};

#define mutex vp_mutex
#define recursive_mutex vp_recursive_mutex
#define timed_mutex vp_timed_mutex
#define recursive_timed_mutex vp_recursive_timed_mutex
#define shared_mutex vp_shared_mutex
#define shared_timed_mutex vp_shared_timed_mutex
#define condition_variable vp_condition_variable
#define condition_variable_any vp_condition_variable_any
#define once_flag vp_once_flag
#define call_once vp_call_once
#define atomic vp_atomic
#define atomic_bool vp_atomic_bool
#define atomic_int vp_atomic_int
#define atomic_uint vp_atomic_uint
#define atomic_long vp_atomic_long
#define atomic_ulong vp_atomic_ulong
#define atomic_llong vp_atomic_llong
#define atomic_ullong vp_atomic_ullong
#define atomic_size_t vp_atomic_size_t
#define atomic_int32_t vp_atomic_int32_t
#define atomic_uint32_t vp_atomic_uint32_t
#define atomic_int64_t vp_atomic_int64_t
#define atomic_uint64_t vp_atomic_uint64_t
#define atomic_flag vp_atomic_flag
#define atomic_thread_fence vp_atomic_thread_fence
#define thread vp_thread
#define this_thread vp_this_thread
#define steady_clock vp_steady_clock
#define system_clock vp_system_clock
#define high_resolution_clock vp_high_resolution_clock
#define notify_all_at_thread_exit vp_notify_all_at_thread_exit
