// C31: running out of memory in the buffers, block containers and mapped vectors.
#include "mapw.hpp"

#include <gmlc/containers/CircularBuffer.hpp>
#include <gmlc/containers/StableBlockDeque.hpp>
#include <gmlc/containers/StableBlockVector.hpp>
#include <gmlc/containers/StackBuffer.hpp>
#include <new>

// ---------------------------------------------------------------- memory that runs out
namespace oom {
/** allocations are counted (and fail) only while a call under test runs */
static bool armed = false;
/** allocations that still succeed; <0: all */
static int64_t left = -1;
/** all later allocations fail as well */
static bool sticky = false;
static bool hit = false;
static bool fails()
{
    if (!armed || left < 0) {
        return false;
    }
    if (left > 0) {
        --left;
        return false;
    }
    if (!sticky) {
        left = -1;
    }
    hit = true;
    return true;
}
static void* get(size_t n)
{
    void* p = fails() ? nullptr : malloc(n != 0 ? n : 1);
    return p;
}
static void* get(size_t n, std::align_val_t a)
{
    const size_t al = static_cast<size_t>(a);
    return fails() ? nullptr : aligned_alloc(al, (n + al) / al * al);
}
static void* orThrow(void* p)
{
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    return p;
}
}  // namespace oom
void* operator new(size_t n)
{
    return oom::orThrow(oom::get(n));
}
void* operator new[](size_t n)
{
    return oom::orThrow(oom::get(n));
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return oom::get(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return oom::get(n);
}
void* operator new(size_t n, std::align_val_t a)
{
    return oom::orThrow(oom::get(n, a));
}
void* operator new[](size_t n, std::align_val_t a)
{
    return oom::orThrow(oom::get(n, a));
}
void operator delete(void* p) noexcept
{
    free(p);
}
void operator delete[](void* p) noexcept
{
    free(p);
}
void operator delete(void* p, size_t) noexcept
{
    free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    free(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    free(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    free(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    free(p);
}
void operator delete[](void* p, std::align_val_t) noexcept
{
    free(p);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept
{
    free(p);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept
{
    free(p);
}

namespace {
using vp::ctx;
int failures;

/** draws when memory runs out during the next calls */
const char* plan(uint32_t num, uint32_t den, uint32_t reach)
{
    oom::left = -1;
    oom::sticky = false;
    if (!ctx.chance(num, den)) {
        return "";
    }
    oom::left = ctx.below(reach);
    oom::sticky = ctx.chance(1, 2);
    return oom::sticky ? ", out of memory" : ", an allocation fails";
}
/** runs the call under test; false if it threw bad_alloc */
template<class F>
bool attempt(F&& f)
{
    oom::hit = false;
    oom::armed = true;
    try {
        f();
    }
    catch (const std::bad_alloc&) {
        oom::armed = false;
        VP_CHECK(oom::hit, "bad_alloc although there is memory");
        ++failures;
        return false;
    }
    catch (...) {
        oom::armed = false;
        throw;
    }
    oom::armed = false;
    return true;
}
/** for operations that need no memory */
template<class F>
void mustSucceed(const char* what, F&& f)
{
    VP_CHECK(attempt(f), "%s fails when memory is short", what);
}

/** element with memory of its own; NX: the move construction is declared noexcept */
template<bool NX>
class Heap {
    int* p;

  public:
    Heap() : p(new int(-7)) {}
    Heap(int v) : p(new int(v)) {}
    Heap(const Heap& o) : p(new int(o.get())) {}
    Heap(Heap&& o) noexcept(NX) : p(o.p) { o.p = nullptr; }
    Heap& operator=(const Heap& o)
    {
        int* q = new int(o.get());
        delete p;
        p = q;
        return *this;
    }
    Heap& operator=(Heap&& o) noexcept(NX)
    {
        if (this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    ~Heap() { delete p; }
    int get() const { return p == nullptr ? -1000001 : *p; }
};
template<bool NX>
int valueOf(const Heap<NX>& h)
{
    return h.get();
}
int valueOf(int v)
{
    return v;
}
int valueOf(const std::string& s)
{
    return s.size() < 2 ? -1000001 : atoi(s.c_str() + 1);
}
template<class X>
X makeElem(int v)
{
    if constexpr (std::is_same<X, std::string>::value) {
        return "v" + std::to_string(v) + (v % 3 != 0 ? " in a string with memory of its own" : "");
    } else {
        return X(v);
    }
}

// ---------------------------------------------------------------- block containers
template<class C, class X, bool DEQ>
class Blocks {
    std::unique_ptr<C> box[2];
    std::vector<int> model[2];
    int counter{0};

    void check(int i)
    {
        C& c = *box[i];
        auto& m = model[i];
        VP_CHECK(c.size() == m.size() && c.empty() == m.empty(), "c%d: size() is %zu, empty() %d, expected %zu", i, c.size(), c.empty(), m.size());
        for (size_t k = 0; k < m.size(); ++k) {
            VP_CHECK(valueOf(c[k]) == m[k], "c%d: element %zu of %zu is %d, expected %d", i, k, m.size(), valueOf(c[k]), m[k]);
        }
        size_t k = 0;
        for (const auto& x : c) {
            VP_CHECK(k < m.size() && &x == &c[k], "c%d: iteration step %zu of %zu is another element", i, k, m.size());
            ++k;
        }
        VP_CHECK(k == m.size(), "c%d: iteration ends after %zu of %zu elements", i, k, m.size());
        if (!m.empty()) {
            VP_CHECK(&c.front() == &c[0] && &c.back() == &c[m.size() - 1], "c%d: front() or back() of %zu elements is wrong", i, m.size());
        }
    }
    std::vector<const X*> addresses(int i)
    {
        std::vector<const X*> a;
        for (size_t k = 0; k < model[i].size(); ++k) {
            a.push_back(&(*box[i])[k]);
        }
        return a;
    }
    /** after a failed assign: whatever is there is an old or a new value */
    void resync(int i, const std::vector<int>& from)
    {
        auto& m = model[i];
        C& c = *box[i];
        VP_CHECK(c.size() <= std::max(m.size(), from.size()), "c%d: %zu elements after a failed assignment of %zu to %zu", i, c.size(), from.size(), m.size());
        std::vector<int> now;
        for (size_t k = 0; k < c.size(); ++k) {
            const int v = valueOf(c[k]);
            VP_CHECK((k < m.size() && v == m[k]) || (k < from.size() && v == from[k]), "c%d: element %zu of %zu is %d after a failed assignment, neither the old nor the new value", i, k, c.size(), v);
            now.push_back(v);
        }
        m = now;
    }
    void push(int i)
    {
        const bool front = DEQ && ctx.chance(1, 2);
        const uint32_t form = ctx.below(3);
        const int n = ctx.chance(1, 4) ? ctx.range(1, 220) : 1;
        const char* how = plan(1, 2, n == 1 ? 4 : static_cast<uint32_t>(n) * 2 + 6);
        ctx.log("c%d: %s %d element(s) from %d (form %u)%s%s", i, front ? "push_front" : "push_back", n, counter + 1, form, how, oom::left >= 0 ? (" after " + std::to_string(oom::left)).c_str() : "");
        for (int k = 0; k < n; ++k) {
            const int v = ++counter;
            X x = makeElem<X>(v);
            auto before = n < 8 ? addresses(i) : std::vector<const X*>();
            C& c = *box[i];
            const bool ok = attempt([&] {
                if constexpr (DEQ) {
                    if (front) {
                        if (form == 0) {
                            c.push_front(x);
                        } else if (form == 1) {
                            c.emplace_front(static_cast<const X&>(x));
                        } else {
                            c.push_front(std::move(x));
                        }
                        return;
                    }
                }
                if (form == 0) {
                    c.push_back(x);
                } else if (form == 1) {
                    c.emplace_back(static_cast<const X&>(x));
                } else {
                    c.push_back(std::move(x));
                }
            });
            if (ok) {
                model[i].insert(front ? model[i].begin() : model[i].end(), v);
            } else {
                VP_CHECK(valueOf(x) == v, "a failed insertion has taken the offered element");
                VP_CHECK(n >= 8 || before == addresses(i), "c%d: elements moved in a failed insertion", i);
                if (ctx.chance(1, 4)) {
                    check(i);
                }
            }
        }
    }
    void pop(int i)
    {
        const bool front = DEQ && ctx.chance(1, 2);
        const int n = ctx.chance(1, 4) ? ctx.range(1, 220) : 1;
        const char* how = plan(1, 2, 2);
        ctx.log("c%d: %s %d times%s", i, front ? "pop_front" : "pop_back", n, how);
        auto& m = model[i];
        for (int k = 0; k < n; ++k) {
            mustSucceed("a pop", [&] {
                if constexpr (DEQ) {
                    if (front) {
                        return box[i]->pop_front();
                    }
                }
                box[i]->pop_back();
            });
            if (!m.empty()) {
                m.erase(front ? m.begin() : m.end() - 1);
            }
        }
    }
    void assign(int i)
    {
        const uint32_t form = ctx.below(4);
        std::vector<int> from = model[1 - i];
        std::vector<X> source;
        if (form >= 2) {
            from.clear();
            const int n = ctx.chance(1, 3) ? ctx.range(0, 200) : ctx.range(0, 9);
            for (int k = 0; k < n; ++k) {
                from.push_back(++counter);
                source.push_back(makeElem<X>(from.back()));
            }
        }
        if (form == 0 && ctx.chance(1, 8)) {
            ctx.log("c%d: assigned to itself", i);
            plan(1, 1, 8);
            C& c = *box[i];
            attempt([&] { c = *&c; });
            return;
        }
        const char* how = plan(2, 3, static_cast<uint32_t>(from.size()) * 2 + 4);
        static const char* const name[] = {"copy assignment of", "assign from the other's", "assign from a vector of", "move_assign from a vector of"};
        ctx.log("c%d: %s %zu elements%s after %d", i, name[form], from.size(), how, static_cast<int>(oom::left));
        C& c = *box[i];
        const C& o = *box[1 - i];
        const bool ok = attempt([&] {
            switch (form) {
                case 0:
                    c = o;
                    break;
                case 1:
                    c.assign(o.begin(), o.end());
                    break;
                case 2:
                    c.assign(source.begin(), source.end());
                    break;
                default:
                    c.move_assign(source.begin(), source.end());
            }
        });
        if (ok) {
            model[i] = from;
        } else {
            resync(i, from);
        }
    }
    void construct(int i)
    {
        const uint32_t form = ctx.below(3);
        const size_t n = ctx.chance(1, 3) ? ctx.below(200) : ctx.below(9);
        const int v = ++counter;
        const X x = makeElem<X>(v);
        const size_t expect = form == 0 ? n : model[1 - i].size();
        const char* how = plan(2, 3, static_cast<uint32_t>(expect) * 2 + 4);
        std::unique_ptr<C> fresh;
        C* made = nullptr;
        alignas(C) unsigned char room[sizeof(C)];
        ctx.log("c%d: replaced by a new one %s %zu elements%s after %d", i, form == 0 ? "of" : "copied from the other's", expect, how, static_cast<int>(oom::left));
        attempt([&] {
            if (form == 0) {
                made = new (room) C(n, x);
            } else {
                made = new (room) C(*box[1 - i]);
            }
        });
        if (made == nullptr) {
            return;
        }
        box[i] = std::make_unique<C>(std::move(*made));
        made->~C();
        model[i] = form == 0 ? std::vector<int>(n, v) : model[1 - i];
    }

  public:
    void run()
    {
        for (auto& b : box) {
            b = std::make_unique<C>();
        }
        while (ctx.more(12)) {
            const int i = static_cast<int>(ctx.below(2));
            switch (ctx.weighted({8, 4, 3, 3, 1, 1, 1})) {
                case 0:
                    push(i);
                    break;
                case 1:
                    pop(i);
                    break;
                case 2:
                    assign(i);
                    break;
                case 3:
                    construct(i);
                    break;
                case 4:
                    ctx.log("c%d: clear%s", i, plan(1, 2, 2));
                    mustSucceed("clear()", [&] { box[i]->clear(); });
                    model[i].clear();
                    break;
                case 5:
                    ctx.log("c%d: shrink_to_fit%s", i, plan(1, 2, 2));
                    mustSucceed("shrink_to_fit()", [&] { box[i]->shrink_to_fit(); });
                    break;
                default:
                    ctx.log("c%d: move assigned", i);
                    *box[i] = std::move(*box[1 - i]);
                    model[i] = std::move(model[1 - i]);
                    model[1 - i].clear();
            }
            check(0);
            check(1);
        }
    }
};

// ---------------------------------------------------------------- buffers
template<class B, bool STACK>
class Buffers {
    using Block = std::vector<unsigned char>;
    std::unique_ptr<B> box[2];
    std::vector<Block> model[2];  // in the order of the pops
    int cap[2]{0, 0};
    unsigned char counter{0};

    void check(int i)
    {
        const B& b = *box[i];
        VP_CHECK(b.capacity() == cap[i], "b%d: capacity() is %d, expected %d", i, b.capacity(), cap[i]);
        VP_CHECK(b.empty() == model[i].empty(), "b%d: empty() is %d with %zu blocks", i, b.empty(), model[i].size());
        B copy(b);
        for (size_t k = 0; k < model[i].size(); ++k) {
            takeOne(copy, model[i][k], i, k);
        }
        VP_CHECK(copy.empty(), "b%d: there are more than the %zu blocks pushed", i, model[i].size());
    }
    void takeOne(B& b, const Block& expect, int i, size_t k)
    {
        VP_CHECK(b.nextDataSize() == static_cast<int>(expect.size()), "b%d: block %zu has size %d, expected %zu", i, k, b.nextDataSize(), expect.size());
        Block out(expect.size());
        const int n = b.pop(out.data(), static_cast<int>(out.size()));
        VP_CHECK(n == static_cast<int>(expect.size()) && out == expect, "b%d: block %zu (size %zu) comes out with size %d%s", i, k, expect.size(), n, out == expect ? "" : " and other bytes");
    }

  public:
    void run()
    {
        for (auto& b : box) {
            b = std::make_unique<B>();
        }
        while (ctx.more(16)) {
            const int i = static_cast<int>(ctx.below(2));
            B& b = *box[i];
            auto& m = model[i];
            switch (ctx.weighted({8, 4, 6, 4, 3, 1, 1, STACK ? 2u : 0u})) {
                case 0: {
                    Block d(static_cast<size_t>(ctx.range(1, 24)));
                    for (auto& c : d) {
                        c = ++counter;
                    }
                    bool took = false;
                    plan(1, 3, 1);
                    mustSucceed("push", [&] { took = b.push(d.data(), static_cast<int>(d.size())); });
                    ctx.log("b%d: push of %zu %s", i, d.size(), took ? "accepted" : "refused");
                    if (took) {
                        m.insert(STACK ? m.begin() : m.end(), d);
                    }
                    break;
                }
                case 1:
                    ctx.log("b%d: pop", i);
                    if (!m.empty()) {
                        takeOne(b, m[0], i, 0);
                        m.erase(m.begin());
                    }
                    break;
                case 2: {
                    const int n = ctx.chance(1, 3) ? cap[i] + ctx.range(1, 80) : ctx.range(0, 160);
                    const char* how = plan(1, 2, 2);
                    const char* what = "done";
                    try {
                        bool done = true;
                        if (attempt([&] {
                                if constexpr (std::is_same<decltype(b.resize(n)), bool>::value) {
                                    done = b.resize(n);
                                } else {
                                    b.resize(n);
                                }
                            })) {
                            if (done) {
                                cap[i] = n;
                            } else {
                                what = "refused";
                                VP_CHECK(!m.empty(), "b%d: resize of an empty buffer refused", i);
                            }
                        } else {
                            what = "fails";
                        }
                    }
                    catch (const std::runtime_error&) {
                        what = "refused";
                        VP_CHECK(!m.empty(), "b%d: resize of an empty buffer refused", i);
                    }
                    ctx.log("b%d: resize to %d%s: %s", i, n, how, what);
                    break;
                }
                case 3: {
                    const bool self = ctx.chance(1, 6);
                    const char* how = plan(1, 2, 2);
                    const B& from = self ? b : *box[1 - i];
                    const bool ok = attempt([&] { b = from; });
                    ctx.log("b%d: copy assigned%s%s: %s", i, self ? " to itself" : "", how, ok ? "done" : "fails");
                    if (ok && !self) {
                        m = model[1 - i];
                        cap[i] = cap[1 - i];
                    }
                    break;
                }
                case 4: {
                    const bool sized = ctx.chance(1, 2);
                    const int n = ctx.range(0, 160);
                    const char* how = plan(1, 2, 2);
                    alignas(B) unsigned char room[sizeof(B)];
                    B* made = nullptr;
                    attempt([&] { made = sized ? new (room) B(n) : new (room) B(*box[1 - i]); });
                    ctx.log("b%d: replaced by a new one (%s)%s: %s", i, sized ? "sized" : "copy", how, made != nullptr ? "done" : "fails");
                    if (made != nullptr) {
                        b = std::move(*made);
                        made->~B();
                        cap[i] = sized ? n : cap[1 - i];
                        m = sized ? std::vector<Block>() : model[1 - i];
                    }
                    break;
                }
                case 5:
                    ctx.log("b%d: clear", i);
                    plan(1, 2, 1);
                    mustSucceed("clear()", [&] { b.clear(); });
                    m.clear();
                    break;
                case 6:
                    ctx.log("b%d: move assigned", i);
                    b = std::move(*box[1 - i]);
                    m = std::move(model[1 - i]);
                    model[1 - i].clear();
                    cap[i] = cap[1 - i];
                    cap[1 - i] = 0;
                    break;
                default:
                    if constexpr (STACK) {
                        ctx.log("b%d: reverse", i);
                        plan(1, 2, 1);
                        mustSucceed("reverse()", [&] { b.reverse(); });
                        std::reverse(m.begin(), m.end());
                    }
            }
            check(0);
            check(1);
        }
    }
};

// ---------------------------------------------------------------- mapped vectors
template<mapw::Kind KIND, class T, class A, class BK, bool STABLE, int ORDER>
class Maps {
    using P = mapw::Policy<KIND, T, A, BK, STABLE, ORDER>;
    using C = typename P::C;
    static constexpr int terms = 9;
    struct Obs {
        std::vector<int> e;
        long t[2][terms];
    };
    std::unique_ptr<C> box[2];
    Obs last[2];
    int counter{0};

    static const T* element(C& c, size_t k)
    {
        if constexpr (P::pointer) {
            return c[k];
        } else {
            return &c[k];
        }
    }
    template<class CC>
    static const T* findIn(CC& c, int kind, int n)
    {
        auto f = [&](const auto& key) -> const T* {
            if constexpr (P::pointer) {
                return c.find(key);
            } else {
                auto it = c.find(key);
                if (it == c.end()) {
                    return nullptr;
                }
                const auto& cit = it;
                return &*cit;
            }
        };
        if (kind == 0) {
            return A::with(n, f);
        }
        if constexpr (P::dual) {
            return BK::with(n, f);
        }
        return nullptr;
    }
    Obs observe(int i)
    {
        C& c = *box[i];
        const C& cc = c;
        Obs o;
        const size_t n = cc.size();
        for (size_t k = 0; k < n; ++k) {
            const T* p = element(c, k);
            VP_CHECK(p != nullptr, "v%d: element %zu of %zu is null", i, k, n);
            o.e.push_back(valueOf(*p));
        }
        size_t steps = 0;
        for (auto it = cc.begin(); it != cc.end(); ++it) {
            ++steps;
        }
        VP_CHECK(steps == n, "v%d: iteration makes %zu steps over %zu elements", i, steps, n);
        for (int kind = 0; kind < 2; ++kind) {
            for (int t = 0; t < terms; ++t) {
                o.t[kind][t] = -1;
                const T* p = findIn(cc, kind, t);
                if (p == nullptr) {
                    continue;
                }
                for (size_t k = 0; k < n; ++k) {
                    if (element(c, k) == p) {
                        o.t[kind][t] = static_cast<long>(k);
                    }
                }
                VP_CHECK(o.t[kind][t] >= 0, "v%d: term %d of kind %d finds something that is none of the %zu elements", i, t, kind + 1, n);
            }
        }
        return o;
    }
    void same(int i, const Obs& now, const Obs& expect, const char* what)
    {
        VP_CHECK(now.e.size() == expect.e.size(), "v%d: %zu elements after %s, expected %zu", i, now.e.size(), what, expect.e.size());
        for (size_t k = 0; k < now.e.size(); ++k) {
            VP_CHECK(now.e[k] == expect.e[k], "v%d: element %zu is %d after %s, expected %d", i, k, now.e[k], what, expect.e[k]);
        }
        for (int kind = 0; kind < 2; ++kind) {
            for (int t = 0; t < terms; ++t) {
                VP_CHECK(now.t[kind][t] == expect.t[kind][t], "v%d: term %d of kind %d finds element %ld after %s, expected %ld (-1: none)", i, t, kind + 1, now.t[kind][t], what, expect.t[kind][t]);
            }
        }
    }
    /** what insertions may do to the others, whether they fail or not */
    void related(int i, const Obs& old, const Obs& now, int t1, int t2, int v, bool assign, bool ok)
    {
        VP_CHECK(now.e.size() == old.e.size() || now.e.size() == old.e.size() + 1, "v%d: %zu elements after an insertion into %zu", i, now.e.size(), old.e.size());
        const long target[2] = {t1 >= 0 ? old.t[0][t1] : -1, t2 >= 0 ? old.t[1][t2] : -1};
        bool found = now.e.size() > old.e.size();
        for (size_t k = 0; k < old.e.size(); ++k) {
            const long l = static_cast<long>(k);
            if (assign && now.e[k] == v && (l == target[0] || l == target[1])) {
                found = true;
                continue;
            }
            VP_CHECK(now.e[k] == old.e[k], "v%d: element %zu of %zu is %d after an insertion, expected %d", i, k, old.e.size(), now.e[k], old.e[k]);
        }
        if (now.e.size() > old.e.size()) {
            VP_CHECK(now.e.back() == v, "v%d: the new element is %d, expected %d", i, now.e.back(), v);
        }
        VP_CHECK(!ok || !assign || found, "v%d: an assignment that succeeded has stored nothing", i);
        for (int kind = 0; kind < 2; ++kind) {
            for (int t = 0; t < terms; ++t) {
                const long a = old.t[kind][t];
                const long b = now.t[kind][t];
                if (a == b) {
                    continue;
                }
                const bool mine = t == (kind == 0 ? t1 : t2);
                VP_CHECK(mine && b >= 0 && (b == static_cast<long>(old.e.size()) || b == target[0] || b == target[1]), "v%d: term %d of kind %d finds element %ld after an insertion with terms %d, %d into %zu elements, expected %ld (-1: none)", i, t, kind + 1, b, t1, t2, old.e.size(), a);
            }
        }
    }
    template<class F>
    bool call(F&& f)
    {
        return attempt(f);
    }
    bool doInsert(C& c, int t1, int t2, int v, bool assign)
    {
        const uint32_t form = ctx.below(2);
        bool ok = true;
        if constexpr (!P::dual) {
            if (t1 < 0) {
                return call([&] { c.insert(no_search, v); });
            }
            A::with(t1, [&](const auto& k1) {
                if constexpr (P::pointer) {
                    if (form == 1) {
                        auto p = std::make_unique<T>(v);
                        ok = call([&] {
                            if (assign) {
                                c.insert_or_assign(k1, std::move(p));
                            } else {
                                c.insert(k1, std::move(p));
                            }
                        });
                        return;
                    }
                }
                ok = call([&] {
                    if (assign) {
                        c.insert_or_assign(k1, v);
                    } else {
                        c.insert(k1, v);
                    }
                });
            });
        } else {
            if (t1 >= 0 && t2 >= 0) {
                A::with(t1, [&](const auto& k1) {
                    BK::with(t2, [&](const auto& k2) {
                        if constexpr (P::pointer) {
                            if (form == 1) {
                                auto p = std::make_unique<T>(v);
                                ok = call([&] {
                                    if (assign) {
                                        c.insert_or_assign(k1, k2, std::move(p));
                                    } else {
                                        c.insert(k1, k2, std::move(p));
                                    }
                                });
                                return;
                            }
                        }
                        ok = call([&] {
                            if (assign) {
                                c.insert_or_assign(k1, k2, v);
                            } else {
                                c.insert(k1, k2, v);
                            }
                        });
                    });
                });
            } else if (t1 >= 0) {
                A::with(t1, [&](const auto& k1) {
                    ok = call([&] {
                        if constexpr (P::pointer) {
                            if (assign) {
                                c.insert_or_assign(k1, nullptr, v);
                            } else {
                                c.insert(k1, nullptr, v);
                            }
                        } else {
                            if (assign) {
                                c.insert_or_assign(k1, no_search, v);
                            } else {
                                c.insert(k1, no_search, v);
                            }
                        }
                    });
                });
            } else {
                BK::with(t2, [&](const auto& k2) {
                    ok = call([&] {
                        if constexpr (P::pointer) {
                            if (assign) {
                                c.insert_or_assign(nullptr, k2, v);
                            } else {
                                c.insert(no_search, k2, v);
                            }
                        } else {
                            if (assign) {
                                c.insert_or_assign(no_search, k2, v);
                            } else {
                                c.insert(no_search, k2, v);
                            }
                        }
                    });
                });
            }
        }
        return ok;
    }
    void insert(int i)
    {
        const bool assign = ctx.chance(1, 3);
        int t1 = ctx.range(0, terms - 1);
        int t2 = -1;
        if (P::dual) {
            switch (ctx.below(4)) {
                case 0:
                    break;
                case 1:
                    t2 = t1;
                    t1 = -1;
                    break;
                default:
                    t2 = ctx.range(0, terms - 1);
            }
        } else if (!assign && ctx.chance(1, 6)) {
            t1 = -1;
        }
        const int v = ++counter;
        const char* how = plan(1, 2, 6);
        ctx.log("v%d: %s(%d, %d, %d)%s after %d", i, assign ? "insert_or_assign" : "insert", t1, t2, v, how, static_cast<int>(oom::left));
        const bool ok = doInsert(*box[i], t1, t2, v, assign);
        Obs now = observe(i);
        related(i, last[i], now, t1, t2, v, assign, ok);
        last[i] = now;
    }
    void addTerm(int i)
    {
        C& c = *box[i];
        const int kind = P::dual ? static_cast<int>(ctx.below(2)) : 0;
        const int t = ctx.range(0, terms - 1);
        const size_t n = last[i].e.size();
        const size_t k = ctx.below(static_cast<uint32_t>(n) + 1);
        const char* how = plan(1, 2, 3);
        bool ok = true;
        if constexpr (P::addIndex) {
            auto f = [&](const auto& key) { ok = attempt([&] { c.addSearchTermForIndex(key, k); }); };
            if (kind == 0) {
                A::with(t, f);
            } else if constexpr (P::dual) {
                BK::with(t, f);
            }
        } else {
            return;
        }
        ctx.log("v%d: addSearchTermForIndex(%d of kind %d, %zu)%s: %s", i, t, kind + 1, k, how, ok ? "done" : "fails");
        Obs expect = last[i];
        if (ok && k < n && expect.t[kind][t] < 0) {
            expect.t[kind][t] = static_cast<long>(k);
        }
        Obs now = observe(i);
        same(i, now, expect, "adding a term");
        last[i] = now;
    }
    void remove(int i)
    {
        C& c = *box[i];
        const size_t n = last[i].e.size();
        const int how = static_cast<int>(ctx.below(P::dual ? 3 : 2));
        const int t = ctx.range(0, terms - 1);
        size_t k = ctx.below(static_cast<uint32_t>(n) + 1);
        const char* mem = plan(2, 3, 2);
        if (how == 0) {
            ctx.log("v%d: removeIndex(%zu)%s", i, k, mem);
            mustSucceed("removeIndex()", [&] { c.removeIndex(k); });
        } else {
            const int kind = how - 1;
            ctx.log("v%d: remove(term %d of kind %d)%s", i, t, kind + 1, mem);
            auto f = [&](const auto& key) { mustSucceed("remove()", [&] { c.remove(key); }); };
            if (kind == 0) {
                A::with(t, f);
            } else if constexpr (P::dual) {
                BK::with(t, f);
            }
            k = last[i].t[kind][t] < 0 ? n : static_cast<size_t>(last[i].t[kind][t]);
        }
        Obs expect = last[i];
        if (k < n) {
            const bool gone = !P::stable || k == n - 1;
            if (gone) {
                expect.e.erase(expect.e.begin() + static_cast<long>(k));
            }
            for (auto& row : expect.t) {
                for (auto& x : row) {
                    if (x == static_cast<long>(k)) {
                        x = -1;
                    } else if (gone && x > static_cast<long>(k)) {
                        --x;
                    }
                }
            }
        }
        Obs now = observe(i);
        same(i, now, expect, "a removal");
        last[i] = now;
    }
    void clear(int i)
    {
        ctx.log("v%d: clear%s", i, plan(1, 2, 2));
        C& c = *box[i];
        mustSucceed("clear()", [&] { c.clear(); });
        Obs now = observe(i);
        same(i, now, empty(), "clear()");
        last[i] = now;
    }
    static Obs empty()
    {
        Obs o;
        for (auto& row : o.t) {
            for (auto& x : row) {
                x = -1;
            }
        }
        return o;
    }
    void copy(int i)
    {
        if constexpr (P::copyable) {
            const bool assign = ctx.chance(1, 2);
            const char* how = plan(2, 3, static_cast<uint32_t>(last[1 - i].e.size()) * 3 + 6);
            ctx.log("v%d: copy %s%s after %d", i, assign ? "assigned" : "constructed", how, static_cast<int>(oom::left));
            C& c = *box[i];
            const C& o = *box[1 - i];
            bool ok;
            if (assign) {
                ok = attempt([&] { c = o; });
                if (!ok) {
                    // nothing is promised about the target until it is cleared
                    oom::left = -1;
                    c.clear();
                    last[i] = empty();
                }
            } else {
                alignas(C) unsigned char room[sizeof(C)];
                C* made = nullptr;
                ok = attempt([&] { made = new (room) C(o); });
                if (ok) {
                    c = std::move(*made);
                    made->~C();
                }
            }
            if (ok) {
                last[i] = last[1 - i];
            }
        }
    }

  public:
    void run()
    {
        for (int i = 0; i < 2; ++i) {
            box[i] = std::make_unique<C>();
            last[i] = empty();
        }
        while (ctx.more(16)) {
            const int i = static_cast<int>(ctx.below(2));
            switch (ctx.weighted({10, 3, 5, 1, 2})) {
                case 0:
                    insert(i);
                    break;
                case 1:
                    addTerm(i);
                    break;
                case 2:
                    remove(i);
                    break;
                case 3:
                    clear(i);
                    break;
                default:
                    copy(i);
            }
            for (int k = 0; k < 2; ++k) {
                same(k, observe(k), last[k], "the operation");
            }
        }
    }
};

template<unsigned N, class X>
void vec(const char* what)
{
    ctx.label("StableBlockVector");
    ctx.log("StableBlockVector<%s, %u>", what, N);
    Blocks<gmlc::containers::StableBlockVector<X, N>, X, false>().run();
}
template<unsigned N, class X>
void deq(const char* what)
{
    ctx.label("StableBlockDeque");
    ctx.log("StableBlockDeque<%s, %u>", what, N);
    Blocks<gmlc::containers::StableBlockDeque<X, N>, X, true>().run();
}
template<mapw::Kind KIND, class T, class A, class BK, bool STABLE, int ORDER>
void map(const char* what)
{
    ctx.label("mapped vectors");
    ctx.log("%s", what);
    Maps<KIND, T, A, BK, STABLE, ORDER>().run();
}
void cases()
{
    using namespace mapw;
    using H = Heap<true>;
    using G = Heap<false>;
    switch (ctx.below(29)) {
        case 26:
            return vec<0, int>("int");
        case 27:
            return vec<3, int>("int");
        case 28:
            return deq<0, int>("int");
        case 0:
            return vec<0, H>("element");
        case 1:
            return vec<1, G>("element with throwing move");
        case 2:
            return vec<2, std::string>("string");
        case 3:
            return vec<0, G>("element with throwing move");
        case 4:
            return vec<1, std::string>("string");
        case 5:
            return deq<0, H>("element");
        case 6:
            return deq<1, G>("element with throwing move");
        case 7:
            return deq<2, std::string>("string");
        case 8:
            return deq<0, G>("element with throwing move");
        case 9:
            return deq<1, std::string>("string");
        case 10:
            return deq<3, H>("element");
        case 11:
        case 12:
            ctx.label("CircularBuffer");
            ctx.log("CircularBuffer");
            return Buffers<gmlc::containers::CircularBuffer, false>().run();
        case 13:
        case 14:
            ctx.label("StackBuffer");
            ctx.log("StackBuffer");
            return Buffers<gmlc::containers::StackBuffer, true>().run();
        case 15:
            return map<Mapped, H, KString, void, true, 0>("MappedVector<string, stable, 0>");
        case 16:
            return map<Mapped, G, KUser, void, false, 5>("MappedVector<ordered type>");
        case 17:
            return map<Mapped, H, KInt, void, true, 1>("MappedVector<int, stable, 1>");
        case 18:
            return map<StringMapped, H, KView, void, true, 1>("StringMappedVector<stable, 1>");
        case 19:
            return map<StringMapped, G, KView, void, false, 5>("StringMappedVector");
        case 20:
            return map<Dual, H, KString, KInt, true, 1>("DualMappedVector<string, int, stable, 1>");
        case 21:
            return map<Dual, H, KInt, KString, false, 5>("DualMappedVector<int, string>");
        case 22:
            return map<DualString, H, KView, KInt, true, 0>("DualStringMappedVector<int, stable, 0>");
        case 23:
            return map<DualString, G, KView, KUser, false, 5>("DualStringMappedVector<ordered type>");
        case 24:
            return map<Pointer, H, KString, void, false, 5>("MappedPointerVector<string>");
        default:
            return map<DualPointer, H, KString, KInt, false, 5>("DualMappedPointerVector<string, int>");
    }
}
void run()
{
    failures = 0;
    oom::armed = false;
    oom::left = -1;
    cases();
    if (failures != 0) {
        ctx.nontrivial();
    }
    if (failures > 2) {
        ctx.label("several failures");
    }
}
}  // namespace
const vp::Property vp::property{
    "C31",
    "A case is a random history over two containers of one of 27 kinds (StableBlockVector and StableBlockDeque with block sizes 1 to 8 and int or one of three element types that own memory, CircularBuffer, StackBuffer, the six mapped vectors in both storage forms). "
    "About half of the constructions, copies, assignments, resizes, insertions and removals run with a random number of allocations left, after which one allocation or all of them fail; after every operation sizes, elements, iteration, blocks and search terms are compared "
    "with a model, exactly where nothing may change and as 'old or new value' where only validity is promised; leaks, double frees and accesses outside of the containers are caught by the address sanitizer and the heap balance. Non-trivial: at least one operation failed with bad_alloc.",
    600000,
    8000000,
    run,
    true};
