// Shared by C06..C11: histories over StableBlockVector / StableBlockDeque next to a model sequence.
#pragma once
#include "tracked.hpp"
#include <algorithm>
#include <deque>
#include <gmlc/containers/StableBlockDeque.hpp>
#include <gmlc/containers/StableBlockVector.hpp>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <vector>

namespace blk {
using namespace trk;

enum Checks : unsigned {
    Content = 1,
    Addresses = 2,
    Lifetimes = 4,
    AllocatorUse = 8,
    Iterators = 16,
    Faults = 32,
};
struct Elem {
    int value;
    const void* addr;
};
struct Stats {
    int boundary{0};  // the number of blocks in use changed
    int transfers{0};  // copies, moves, assignments of non-empty containers
    int faults{0};
    int iterChecks{0};
    size_t maxSize{0};
};
inline Stats& stats()
{
    static Stats s;
    return s;
}
inline int& counter()
{
    static int c = 0;
    return c;
}

/** input iterator like those of streams: all copies share the position, the end has no source */
template<class T>
struct Stream {
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    std::vector<T>* source{nullptr};
    size_t* at{nullptr};
    bool atEnd() const { return source == nullptr || *at >= source->size(); }
    T& operator*() const
    {
        VP_CHECK(!atEnd(), "the end of an input range is dereferenced");
        return (*source)[*at];
    }
    T* operator->() const { return &**this; }
    Stream& operator++()
    {
        VP_CHECK(!atEnd(), "the end of an input range is passed");
        ++*at;
        return *this;
    }
    struct Old {
        T* value;
        T& operator*() const { return *value; }
    };
    Old operator++(int)
    {
        Old o{&**this};
        ++*this;
        return o;
    }
    bool operator==(const Stream& o) const { return atEnd() == o.atEnd(); }
    bool operator!=(const Stream& o) const { return !(*this == o); }
};

template<class C, class T, unsigned N, bool DEQUE, bool COPY, unsigned CHECKS>
class World {
    static constexpr int count = 3;
    static constexpr int bs = 1 << N;
    std::unique_ptr<C> box[count];
    std::deque<Elem> model[count];
    std::string name(int i) { return "c" + std::to_string(i); }

    static int next() { return ++counter(); }
    static size_t spanBound(size_t n)
    {
        // blocks that can hold a part of n consecutive elements, plus an empty one at each open end
        const size_t span = (n == 0) ? 0 : (DEQUE ? (n - 1) / bs + ((n > 1 && bs > 1) ? 2 : 1) : (n + bs - 1) / bs);
        return span + (DEQUE ? 2 : 1);
    }
    size_t allocBefore{0};
    size_t sizeBefore{0};
    size_t heldBefore{0};

    void addBack(int i, int v)
    {
        auto& m = model[i];
        const void* a = &box[i]->back();
        m.push_back({v, a});
    }
    void addFront(int i, int v)
    {
        auto& m = model[i];
        const void* a = &box[i]->front();
        m.push_front({v, a});
    }
    /** takes the addresses of all elements as they are now */
    void readdress(int i)
    {
        if (CHECKS & Addresses) {
            for (size_t k = 0; k < model[i].size() && k < box[i]->size(); ++k) {
                model[i][k].addr = &(*box[i])[k];
            }
        }
    }
    void countBoundary(size_t before, size_t after)
    {
        if (before / bs != after / bs) {
            ++stats().boundary;
        }
        stats().maxSize = std::max(stats().maxSize, after);
    }

  public:
    /** the blocks held by container i, with an accounting allocator and one container alive */
    void compare(int i, bool full)
    {
        C& c = *box[i];
        const C& cc = c;
        auto& m = model[i];
        VP_CHECK(cc.size() == m.size(), "c%d: size() is %zu, expected %zu", i, cc.size(), m.size());
        VP_CHECK(cc.empty() == m.empty(), "c%d: empty() is %d with size %zu", i, cc.empty(), m.size());
        bool threw = false;
        try {
            (void)cc.at(m.size());
        }
        catch (const std::out_of_range&) {
            threw = true;
        }
        VP_CHECK(threw, "c%d: at(%zu) did not throw with size %zu", i, m.size(), m.size());
        if (!m.empty()) {
            VP_CHECK(Val<T>::key(c.back()) == m.back().value, "c%d: back() is %d, expected %d", i, Val<T>::key(c.back()), m.back().value);
            VP_CHECK(Val<T>::key(c.front()) == m.front().value, "c%d: front() is %d, expected %d", i, Val<T>::key(c.front()), m.front().value);
            VP_CHECK(&cc.back() == &c[m.size() - 1], "c%d: const back() is another element than the last", i);
            VP_CHECK(&cc.front() == &c[0], "c%d: const front() is another element than the first", i);
        }
        const size_t step = (full || m.size() < 40) ? 1 : m.size() / 24;
        for (size_t k = 0; k < m.size(); k += step) {
            const int got = Val<T>::key(cc[k]);
            VP_CHECK(got == m[k].value, "c%d: element %zu of %zu is %d, expected %d", i, k, m.size(), got, m[k].value);
            VP_CHECK(&c.at(k) == &c[k] && &cc.at(k) == &c[k] && &cc[k] == &c[k], "c%d: at(%zu) and [%zu] differ", i, k, k);
            if (CHECKS & Addresses) {
                VP_CHECK(m[k].addr == &c[k], "c%d: element %zu of %zu (value %d) has moved from %p to %p", i, k, m.size(), m[k].value, m[k].addr, static_cast<const void*>(&c[k]));
            }
        }
        if (full) {
            threw = false;
            try {
                // also an index that is small or negative in a narrower type
                static constexpr size_t far[] = {~size_t{0}, size_t{1} << 40, size_t{1} << 31, size_t{1} << 32, size_t{1} << 63, size_t{0xFFFFFFFFu}, size_t{1} << 24};
                const size_t n = far[ctx.below(7)];
                (void)c.at(n == ~size_t{0} ? n : n + ctx.below(static_cast<uint32_t>(m.size() + 1)));
            }
            catch (const std::out_of_range&) {
                threw = true;
            }
            VP_CHECK(threw, "c%d: at() far out of range did not throw", i);
            size_t k = 0;
            for (const auto& x : cc) {
                VP_CHECK(k < m.size(), "c%d: iteration passes the end at %zu", i, k);
                VP_CHECK(&x == &c[k], "c%d: iteration step %zu is not element %zu", i, k, k);
                ++k;
            }
            VP_CHECK(k == m.size(), "c%d: iteration ends after %zu of %zu elements", i, k, m.size());
        }
    }

  private:
    void compareAll(bool full)
    {
        size_t total = 0;
        for (int i = 0; i < count; ++i) {
            if (box[i]) {
                compare(i, full);
                total += box[i]->size();
            }
        }
        if (CHECKS & (Lifetimes | Faults)) {
            VP_CHECK(live().count == total, "%zu element(s) alive, the containers hold %zu", live().count, total);
        }
    }

    void armAllocator(int i)
    {
        allocBefore = blocks().allocated;
        sizeBefore = box[i]->size();
    }

    template<class F>
    void insertion(int i, bool front, int v, const char* what, F&& f)
    {
        const size_t before = model[i].size();
        bool threw = false;
        if (CHECKS & Faults) {
            bomb() = ctx.chance(1, 3) ? static_cast<int>(1 + ctx.below(2)) : 0;
        }
        try {
            f();
        }
        catch (const Bomb&) {
            threw = true;
        }
        bomb() = 0;
        if (threw) {
            ctx.log("c%d: %s of %d: construction fails", i, what, v);
            ++stats().faults;
            return;
        }
        ctx.log("c%d: %s %d", i, what, v);
        VP_CHECK(box[i]->size() == before + 1, "c%d: size() is %zu after adding to %zu elements", i, box[i]->size(), before);
        if (front) {
            addFront(i, v);
        } else {
            addBack(i, v);
        }
        countBoundary(before, before + 1);
    }
    void insertBack(int i)
    {
        C& c = *box[i];
        if constexpr (COPY) {
            if (!model[i].empty() && ctx.below(8) == 7) {
                // a copy of one of its own elements
                const size_t k = ctx.below(2) == 1 ? ctx.below(static_cast<uint32_t>(model[i].size())) : model[i].size() - 1;
                const int own = model[i][k].value;
                const C& cc = c;
                if (ctx.below(2) == 1) {
                    insertion(i, false, own, "push_back of an element of its own,", [&] { c.push_back(cc[k]); });
                } else {
                    insertion(i, false, own, "emplace_back of an element of its own,", [&] { c.emplace_back(c[k]); });
                }
                return;
            }
        }
        const int v = next();
        switch (ctx.below(3)) {
            case 0:
                if constexpr (COPY) {
                    const T x = Val<T>::make(v);
                    insertion(i, false, v, "push_back", [&] { c.push_back(x); });
                    return;
                }
                // fall through
            case 1: {
                T x = Val<T>::make(v);
                insertion(i, false, v, "push_back(&&)", [&] { c.push_back(std::move(x)); });
                return;
            }
            default:
                if constexpr (std::is_constructible<T, int>::value && !std::is_same<T, std::unique_ptr<int>>::value) {
                    insertion(i, false, v, "emplace_back", [&] { Make<T>::with(v, [&](auto... a) { c.emplace_back(a...); }); });
                } else {
                    T x = Val<T>::make(v);
                    insertion(i, false, v, "emplace_back", [&] { c.emplace_back(std::move(x)); });
                }
        }
    }
    void insertFront(int i)
    {
        if constexpr (DEQUE) {
            C& c = *box[i];
            if constexpr (COPY) {
                if (!model[i].empty() && ctx.below(8) == 7) {
                    const size_t k = ctx.below(2) == 1 ? ctx.below(static_cast<uint32_t>(model[i].size())) : 0;
                    const int own = model[i][k].value;
                    const C& cc = c;
                    if (ctx.below(2) == 1) {
                        insertion(i, true, own, "push_front of an element of its own,", [&] { c.push_front(cc[k]); });
                    } else {
                        insertion(i, true, own, "emplace_front of an element of its own,", [&] { c.emplace_front(c[k]); });
                    }
                    return;
                }
            }
            const int v = next();
            switch (ctx.below(3)) {
                case 0:
                    if constexpr (COPY) {
                        const T x = Val<T>::make(v);
                        insertion(i, true, v, "push_front", [&] { c.push_front(x); });
                        return;
                    }
                    // fall through
                case 1: {
                    T x = Val<T>::make(v);
                    insertion(i, true, v, "push_front(&&)", [&] { c.push_front(std::move(x)); });
                    return;
                }
                default:
                    if constexpr (std::is_constructible<T, int>::value && !std::is_same<T, std::unique_ptr<int>>::value) {
                        insertion(i, true, v, "emplace_front", [&] { Make<T>::with(v, [&](auto... a) { c.emplace_front(a...); }); });
                    } else {
                        T x = Val<T>::make(v);
                        insertion(i, true, v, "emplace_front", [&] { c.emplace_front(std::move(x)); });
                    }
            }
        } else {
            insertBack(i);
        }
    }
    void removeBack(int i)
    {
        box[i]->pop_back();
        ctx.log("c%d: pop_back", i);
        if (!model[i].empty()) {
            model[i].pop_back();
            countBoundary(model[i].size() + 1, model[i].size());
        }
    }
    void removeFront(int i)
    {
        if constexpr (DEQUE) {
            box[i]->pop_front();
            ctx.log("c%d: pop_front", i);
            if (!model[i].empty()) {
                model[i].pop_front();
                countBoundary(model[i].size() + 1, model[i].size());
            }
        } else {
            removeBack(i);
        }
    }
    /** many of one operation, also enough to outgrow the block table */
    void bulk(int i)
    {
        static const int big = (N == 0) ? 150 : ((N == 1) ? 200 : 40 * bs);
        int k = 0;
        size_t limit = 700;
        switch (ctx.weighted({6, 3, 2})) {
            case 0:
                k = ctx.range(2, 2 * bs + 2);
                break;
            case 1:
                k = bs + ctx.range(-1, 1);
                break;
            default:
                k = ctx.range(10, std::min(big, 260));
                if (ctx.below(30) == 29) {
                    k = ctx.range(260, bs < 8 ? 1500 : 600);
                    ctx.label("very many elements at once");
                    limit = 2000;
                }
                break;
        }
        const size_t before = model[i].size();
        C& c = *box[i];
        switch (ctx.weighted({4, DEQUE ? 4u : 0u, 3, DEQUE ? 3u : 0u, DEQUE ? 2u : 0u, DEQUE ? 2u : 0u})) {
            case 0:
                ctx.log("c%d: %d x push_back from %d", i, k, counter() + 1);
                for (int q = 0; q < k && model[i].size() < limit; ++q) {
                    const int v = next();
                    c.push_back(Val<T>::make(v));
                    addBack(i, v);
                }
                break;
            case 1:
                ctx.log("c%d: %d x push_front from %d", i, k, counter() + 1);
                if constexpr (DEQUE) {
                    for (int q = 0; q < k && model[i].size() < limit; ++q) {
                        const int v = next();
                        c.push_front(Val<T>::make(v));
                        addFront(i, v);
                    }
                }
                break;
            case 2:
                ctx.log("c%d: %d x pop_back", i, k);
                for (int q = 0; q < k; ++q) {
                    c.pop_back();
                    if (!model[i].empty()) {
                        model[i].pop_back();
                    }
                }
                break;
            case 3:
                ctx.log("c%d: %d x pop_front", i, k);
                if constexpr (DEQUE) {
                    for (int q = 0; q < k; ++q) {
                        c.pop_front();
                        if (!model[i].empty()) {
                            model[i].pop_front();
                        }
                    }
                }
                break;
            case 4:
                ctx.log("c%d: %d x push_back, pop_front from %d", i, k, counter() + 1);
                if constexpr (DEQUE) {
                    for (int q = 0; q < k; ++q) {
                        const int v = next();
                        c.push_back(Val<T>::make(v));
                        addBack(i, v);
                        c.pop_front();
                        model[i].pop_front();
                    }
                    stats().boundary += k / bs;
                }
                break;
            default:
                ctx.log("c%d: %d x push_front, pop_back from %d", i, k, counter() + 1);
                if constexpr (DEQUE) {
                    for (int q = 0; q < k; ++q) {
                        const int v = next();
                        c.push_front(Val<T>::make(v));
                        addFront(i, v);
                        c.pop_back();
                        model[i].pop_back();
                    }
                    stats().boundary += k / bs;
                }
                break;
        }
        countBoundary(before, model[i].size());
    }
    int drawCount()
    {
        switch (ctx.weighted({4, 4, 1, 1})) {
            case 0:
                return ctx.range(0, 2 * bs + 1);
            case 1:
                return std::max(0, static_cast<int>(ctx.below(5)) * bs + ctx.range(-1, 1));
            case 2:
                return 0;
            default:
                return (N == 0) ? ctx.range(50, 140) : ctx.range(0, 6 * bs);
        }
    }
    void assignRange(int i)
    {
        const int n = drawCount();
        std::vector<T> src;
        std::deque<Elem> m;
        for (int q = 0; q < n; ++q) {
            const int v = next();
            src.push_back(Val<T>::make(v));
            m.push_back({v, nullptr});
        }
        C& c = *box[i];
        const uint32_t how = ctx.below(6);
        ctx.log("c%d: %s a range of %d elements from %d (had %zu)", i, how == 4 ? "assign from a stream" : how == 5 ? "assign of moved elements" : (how == 3 || !COPY) ? "move_assign" : "assign", n, counter() - n + 1, model[i].size());
        if (how == 4) {
            // every element can be read once
            size_t at = 0;
            bool copy = false;
            if constexpr (COPY) {
                copy = ctx.below(2) == 0;
                if (copy) {
                    c.assign(Stream<T>{&src, &at}, Stream<T>{});
                }
            }
            if (!copy) {
                c.move_assign(Stream<T>{&src, &at}, Stream<T>{});
            }
            VP_CHECK(at == src.size(), "c%d: %zu of %zu elements were read from the stream", i, at, src.size());
        } else if (how == 5) {
            c.assign(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
        } else if (how == 3 || !COPY) {
            if (ctx.below(2) == 0) {
                c.move_assign(src.begin(), src.end());
            } else {
                std::list<T> l;
                for (auto& x : src) {
                    l.push_back(std::move(x));
                }
                c.move_assign(l.begin(), l.end());
            }
        } else if constexpr (COPY) {
            if (how == 0) {
                c.assign(src.begin(), src.end());
            } else if (how == 1) {
                std::list<T> l(src.begin(), src.end());
                c.assign(l.begin(), l.end());
            } else {
                const T* p = src.data();
                c.assign(p, p + src.size());
            }
        }
        countBoundary(model[i].size(), m.size());
        model[i] = std::move(m);
        readdress(i);
    }
    /** assign from the iterators of another container */
    void assignFrom(int i, int j)
    {
        C& c = *box[i];
        C& d = *box[j];
        size_t a = model[j].empty() ? 0 : ctx.below(static_cast<uint32_t>(model[j].size()));
        if (ctx.below(2) == 0) {
            a = 0;
        }
        std::deque<Elem> m(model[j].begin() + static_cast<long>(a), model[j].end());
        stats().transfers += m.empty() ? 0 : 1;
        if (COPY && ctx.below(2) == 0) {
            if constexpr (COPY) {
                ctx.log("c%d: assign from c%d[%zu..]", i, j, a);
                if (ctx.below(2) == 0) {
                    auto it = d.begin();
                    it += static_cast<ptrdiff_t>(a);
                    c.assign(it, d.end());
                } else {
                    auto it = d.cbegin();
                    it += static_cast<ptrdiff_t>(a);
                    c.assign(it, d.cend());
                }
            }
        } else {
            ctx.log("c%d: move_assign from c%d[%zu..]", i, j, a);
            auto it = d.begin();
            it += static_cast<ptrdiff_t>(a);
            c.move_assign(it, d.end());
            // the elements of the source stay in place with an unspecified value
            VP_CHECK(d.size() == model[j].size(), "c%d: size() is %zu after its elements were moved from, expected %zu", j, d.size(), model[j].size());
            for (size_t k = a; k < model[j].size(); ++k) {
                model[j][k].value = next();
                d[k] = Val<T>::make(model[j][k].value);
            }
        }
        model[i] = std::move(m);
        readdress(i);
    }
    void write(int i)
    {
        if (model[i].empty()) {
            return;
        }
        C& c = *box[i];
        const int v = next();
        size_t k = ctx.below(static_cast<uint32_t>(model[i].size()));
        switch (ctx.below(5)) {
            case 0:
                c[k] = Val<T>::make(v);
                break;
            case 1:
                c.at(k) = Val<T>::make(v);
                break;
            case 2:
                k = 0;
                c.front() = Val<T>::make(v);
                break;
            case 3: {
                auto it = c.begin();
                it += static_cast<ptrdiff_t>(k);
                *it = Val<T>::make(v);
                break;
            }
            default:
                k = model[i].size() - 1;
                c.back() = Val<T>::make(v);
                break;
        }
        ctx.log("c%d: element %zu = %d", i, k, v);
        model[i][k].value = v;
    }
    void create(int i, int j)
    {
        const bool other = box[j] != nullptr && i != j;
        if (COPY && other && ctx.below(3) == 0) {
            if constexpr (COPY) {
                const C& src = *box[j];
                box[i].reset(new C(src));
                model[i] = model[j];
                readdress(i);
                stats().transfers += model[i].empty() ? 0 : 1;
                ctx.log("c%d = copy of c%d", i, j);
            }
        } else if (other && ctx.below(3) == 0) {
            box[i].reset(new C(std::move(*box[j])));
            model[i] = std::move(model[j]);
            model[j].clear();
            stats().transfers += model[i].empty() ? 0 : 1;
            ctx.log("c%d = moved from c%d", i, j);
        } else if (COPY && ctx.below(2) == 0) {
            if constexpr (COPY) {
                const int n = drawCount();
                model[i].clear();
                int v = 0;
                if (ctx.below(3) != 0 || std::is_same<T, std::string>::value) {
                    v = next();
                    const T init = Val<T>::make(v);
                    box[i].reset(new C(static_cast<size_t>(n), init));
                } else {
                    box[i].reset(new C(static_cast<size_t>(n)));
                }
                ctx.log("c%d = %d x %d", i, n, v);
                for (int q = 0; q < n; ++q) {
                    model[i].push_back({v, nullptr});
                }
                readdress(i);
            }
        } else {
            box[i].reset(new C());
            model[i].clear();
            ctx.log("c%d = empty", i);
        }
        compare(i, true);
        if (box[j]) {
            compare(j, false);
        }
    }
    void checkIterators(int i);
    void algorithms(int i);

  public:
    void run()
    {
        resetAll();
        stats() = Stats();
        counter() = 100;
        const uint32_t mean = ctx.chance(1, 5) ? 60 : 22;
        const bool single = ctx.below(3) == 0;
        while (ctx.more(mean)) {
            const int i = single ? 0 : static_cast<int>(ctx.below(count));
            const int j = single ? 0 : static_cast<int>(ctx.below(count));
            if (!box[i]) {
                create(i, j);
                continue;
            }
            armAllocator(i);
            const bool onlyPush = (CHECKS & AllocatorUse) != 0;
            switch (ctx.weighted({9, DEQUE ? 6u : 1u, 4, DEQUE ? 4u : 1u, 6, 2, 2, 2, 2, 1, 1, 2, 1, (CHECKS & Iterators) ? 12u : 0u})) {
                case 0:
                    insertBack(i);
                    if (onlyPush) {
                        checkReuse(i);
                    }
                    break;
                case 1:
                    insertFront(i);
                    if (onlyPush) {
                        checkReuse(i);
                    }
                    break;
                case 2:
                    removeBack(i);
                    break;
                case 3:
                    removeFront(i);
                    break;
                case 4:
                    bulk(i);
                    break;
                case 5:
                    assignRange(i);
                    break;
                case 6:
                    if (i != j && box[j]) {
                        assignFrom(i, j);
                    }
                    break;
                case 7:
                    if constexpr (COPY) {
                        if (box[j]) {
                            const C& src = *box[j];
                            *box[i] = src;
                            stats().transfers += model[j].empty() ? 0 : 1;
                            ctx.log("c%d = c%d (copy assignment)", i, j);
                            if (i != j) {
                                model[i] = model[j];
                            }
                            readdress(i);
                        }
                    }
                    break;
                case 8:
                    if (i != j && box[j]) {
                        *box[i] = std::move(*box[j]);
                        model[i] = std::move(model[j]);
                        model[j].clear();
                        stats().transfers += model[i].empty() ? 0 : 1;
                        ctx.log("c%d = std::move(c%d)", i, j);
                    }
                    break;
                case 9:
                    box[i]->clear();
                    ctx.log("c%d: clear of %zu", i, model[i].size());
                    model[i].clear();
                    break;
                case 10:
                    box[i]->shrink_to_fit();
                    ctx.log("c%d: shrink_to_fit", i);
                    break;
                case 11:
                    write(i);
                    break;
                case 12:
                    box[i].reset();
                    ctx.log("c%d destroyed with %zu elements", i, model[i].size());
                    model[i].clear();
                    break;
                default:
                    if ((CHECKS & Iterators) != 0) {
                        checkIterators(i);
                        algorithms(i);
                    }
                    break;
            }
            compareAll(false);
            if (CHECKS & AllocatorUse) {
                checkHeld();
            }
        }
        compareAll(true);
        if (CHECKS & Iterators) {
            for (int i = 0; i < count; ++i) {
                if (box[i]) {
                    checkIterators(i);
                }
            }
        }
        for (auto& b : box) {
            b.reset();
        }
        if (CHECKS & (Lifetimes | Faults)) {
            VP_CHECK(live().count == 0, "%zu element(s) alive after all containers were destroyed", live().count);
        }
        if (CHECKS & AllocatorUse) {
            VP_CHECK(blocks().set.count == 0, "%zu block(s) not returned to the allocator", blocks().set.count);
        }
        if (stats().boundary >= 2) {
            ctx.label("crossed block boundaries");
        }
        if (stats().transfers != 0) {
            ctx.label("copied or moved with content");
        }
        if (stats().maxSize / bs > 64) {
            ctx.label("outgrew the block table");
        }
        if (stats().faults != 0) {
            ctx.label("with construction failures");
        }
        if (stats().maxSize >= static_cast<size_t>(bs) && stats().boundary >= 2 && (!(CHECKS & Faults) || stats().faults != 0)) {
            ctx.nontrivial();
        }
    }

  private:
    /** a push may only request a block if the container held no spare one */
    void checkReuse(int i)
    {
        int alive = 0;
        for (auto& b : box) {
            alive += b ? 1 : 0;
        }
        if (alive == 1 && blocks().allocated > allocBefore) {
            const size_t held = blocks().set.count - (blocks().allocated - allocBefore);
            VP_CHECK(blocks().allocated - allocBefore == 1, "adding one element requested %zu blocks", static_cast<size_t>(blocks().allocated - allocBefore));
            VP_CHECK(held <= spanBound(sizeBefore), "adding one element to %zu requested a new block while %zu blocks were held (at most %zu in use)", sizeBefore, held, spanBound(sizeBefore));
        }
    }
    void checkHeld()
    {
        if (ctx.below(6) != 0) {
            return;
        }
        size_t bound = 0;
        bool any = false;
        for (int i = 0; i < count; ++i) {
            if (box[i]) {
                any = true;
                box[i]->shrink_to_fit();
                ctx.log("c%d: shrink_to_fit", i);
                bound += spanBound(model[i].size());
            }
        }
        if (any) {
            VP_CHECK(blocks().set.count <= bound, "%zu blocks held after shrink_to_fit, at most %zu can be in use", blocks().set.count, bound);
        }
        compareAll(false);
    }
};

template<class C, class T, unsigned N, bool DEQUE, bool COPY, unsigned CHECKS>
void World<C, T, N, DEQUE, COPY, CHECKS>::checkIterators(int i)
{
    C& c = *box[i];
    const C& cc = c;
    auto& m = model[i];
    const auto n = static_cast<ptrdiff_t>(m.size());
    ctx.log("c%d: iterator walk over %zu elements", i, m.size());
    ++stats().iterChecks;
    VP_CHECK((c.begin() == c.end()) == m.empty(), "c%d: begin() == end() is %d with size %zu", i, c.begin() == c.end(), m.size());
    VP_CHECK((cc.begin() == cc.end()) == m.empty(), "c%d: const begin() == end() is %d with size %zu", i, cc.begin() == cc.end(), m.size());
    VP_CHECK((c.begin() != c.end()) == !m.empty(), "c%d: begin() != end() is %d with size %zu", i, c.begin() != c.end(), m.size());
    VP_CHECK(c.cbegin() == cc.begin() && c.cend() == cc.end(), "c%d: cbegin/cend differ from the const begin/end", i);
    VP_CHECK(c.begin() == cc.begin() && cc.begin() == c.begin() && !(c.begin() != cc.begin()), "c%d: iterator and const_iterator to the start differ", i);
    VP_CHECK(c.end() == cc.end() && cc.end() == c.end() && !(c.end() != cc.end()), "c%d: iterator and const_iterator to the end differ", i);
    auto check = [&](auto& it, ptrdiff_t pos, const char* what) {
        if (pos < n) {
            VP_CHECK(&*it == &c[static_cast<size_t>(pos)], "c%d: %s: iterator at %td of %td does not refer to that element", i, what, pos, n);
            const auto& cit = it;
            VP_CHECK(cit.operator->() == &c[static_cast<size_t>(pos)], "c%d: %s: -> at %td of %td does not refer to that element", i, what, pos, n);
        }
        VP_CHECK((it == c.end()) == (pos == n), "c%d: %s: iterator at %td of %td equal to end() is %d", i, what, pos, n, it == c.end());
        VP_CHECK((it != c.end()) == (pos != n), "c%d: %s: iterator at %td of %td unequal to end() is %d", i, what, pos, n, it != c.end());
        VP_CHECK((it == c.begin()) == (pos == 0), "c%d: %s: iterator at %td of %td equal to begin() is %d", i, what, pos, n, it == c.begin());
        VP_CHECK((it == cc.end()) == (pos == n) && (cc.end() == it) == (pos == n), "c%d: %s: iterator at %td of %td against const end()", i, what, pos, n);
        VP_CHECK((it == cc.begin()) == (pos == 0) && (cc.begin() != it) == (pos != 0), "c%d: %s: iterator at %td of %td against const begin()", i, what, pos, n);
    };
    if (m.size() <= 80 || ctx.below(4) == 0) {
        auto it = c.begin();
        for (ptrdiff_t k = 0; k <= n; ++k) {
            check(it, k, "++ from begin");
            if (k < n) {
                if ((k & 1) == 0) {
                    ++it;
                } else {
                    auto old = it++;
                    check(old, k, "result of post-increment");
                }
            }
        }
        auto back = cc.end();
        for (ptrdiff_t k = n; k >= 0; --k) {
            check(back, k, "-- from end");
            if (k > 0) {
                if ((k & 1) == 0) {
                    --back;
                } else {
                    auto old = back--;
                    check(old, k, "result of post-decrement");
                }
            }
        }
    }
    auto walk = [&](auto it, auto other, ptrdiff_t pos) {
        const int steps = ctx.range(1, 8);
        for (int s = 0; s < steps; ++s) {
            const auto to = static_cast<ptrdiff_t>(ctx.below(3) == 0 ? std::max<ptrdiff_t>(0, std::min(n, pos + ctx.range(-bs - 1, bs + 1))) : ctx.below(static_cast<uint32_t>(n + 1)));
            const ptrdiff_t d = to - pos;
            ctx.log("   %td -> %td", pos, to);
            switch (ctx.below(4)) {
                case 0:
                    it += d;
                    check(it, to, "+=");
                    break;
                case 1:
                    it -= -d;
                    check(it, to, "-=");
                    break;
                case 2: {
                    auto t = it + d;
                    check(it, pos, "operand of +");
                    check(t, to, "+");
                    VP_CHECK((t == it) == (d == 0) && (t != it) == (d != 0), "c%d: iterators at %td and %td compare wrongly", i, pos, to);
                    auto back = t + (-d);
                    VP_CHECK(back == it, "c%d: + %td and + %td do not cancel out at %td of %td", i, d, -d, pos, n);
                    it = t;
                    break;
                }
                default: {
                    auto t = it - (-d);
                    check(t, to, "-");
                    auto back = t - d;
                    VP_CHECK(back == it, "c%d: - %td and - %td do not cancel out at %td of %td", i, -d, d, pos, n);
                    it = t;
                    break;
                }
            }
            pos = to;
            // compare with an independently reached iterator of the other constness
            auto o = other;
            const auto q = static_cast<ptrdiff_t>(ctx.below(static_cast<uint32_t>(n + 1)));
            o += q;
            VP_CHECK((it == o) == (pos == q) && (o == it) == (pos == q) && (it != o) == (pos != q), "c%d: iterator at %td and const counterpart at %td compare wrongly", i, pos, q);
        }
    };
    walk(c.begin(), cc.begin(), 0);
    walk(cc.end(), c.begin(), n);
    walk(c.end(), cc.begin(), n);
}

template<class C, class T, unsigned N, bool DEQUE, bool COPY, unsigned CHECKS>
void World<C, T, N, DEQUE, COPY, CHECKS>::algorithms(int i)
{
    if constexpr (COPY) {
        C& c = *box[i];
        const C& cc = c;
        auto& m = model[i];
        const auto n = static_cast<ptrdiff_t>(m.size());
        auto val = [](const T& x) { return Val<T>::key(x); };
        switch (ctx.below(9)) {
            case 0: {
                ctx.log("c%d: std::distance, std::next, std::prev", i);
                VP_CHECK(std::distance(c.begin(), c.end()) == n, "c%d: distance is %td, expected %td", i, static_cast<ptrdiff_t>(std::distance(c.begin(), c.end())), n);
                VP_CHECK(std::distance(cc.begin(), cc.end()) == n, "c%d: const distance is wrong", i);
                const auto k = static_cast<ptrdiff_t>(ctx.below(static_cast<uint32_t>(n + 1)));
                auto a = std::next(c.begin(), k);
                auto b = std::prev(c.end(), n - k);
                VP_CHECK(a == b, "c%d: next(begin, %td) and prev(end, %td) differ", i, k, n - k);
                break;
            }
            case 1: {
                ctx.log("c%d: std::find", i);
                const int v = m.empty() || ctx.below(4) == 0 ? -5 : m[ctx.below(static_cast<uint32_t>(n))].value;
                ptrdiff_t expect = 0;
                while (expect < n && m[static_cast<size_t>(expect)].value != v) {
                    ++expect;
                }
                auto it = std::find_if(cc.begin(), cc.end(), [&](const T& x) { return val(x) == v; });
                VP_CHECK(std::distance(cc.begin(), it) == expect, "c%d: find(%d) stops at the wrong element", i, v);
                if (v != movedFrom) {
                    const T probe = Val<T>::make(v);
                    VP_CHECK(std::find(c.begin(), c.end(), probe) == it, "c%d: find(%d) over iterators and const iterators differ", i, v);
                }
                break;
            }
            case 2: {
                ctx.log("c%d: std::count_if, std::accumulate", i);
                auto odd = std::count_if(cc.begin(), cc.end(), [&](const T& x) { return val(x) % 2 != 0; });
                auto expect = std::count_if(m.begin(), m.end(), [](const Elem& e) { return e.value % 2 != 0; });
                VP_CHECK(odd == expect, "c%d: count_if gives %td, expected %td", i, static_cast<ptrdiff_t>(odd), static_cast<ptrdiff_t>(expect));
                long s1 = std::accumulate(c.begin(), c.end(), 0L, [&](long a, const T& x) { return a * 31 % 1000003 + val(x); });
                long s2 = std::accumulate(m.begin(), m.end(), 0L, [](long a, const Elem& e) { return a * 31 % 1000003 + e.value; });
                VP_CHECK(s1 == s2, "c%d: accumulate gives a wrong result", i);
                break;
            }
            case 3: {
                ctx.log("c%d: std::reverse", i);
                std::reverse(c.begin(), c.end());
                for (size_t a = 0, b = m.size(); a + 1 < b; ++a, --b) {
                    std::swap(m[a].value, m[b - 1].value);
                }
                break;
            }
            case 4: {
                ctx.log("c%d: std::copy out", i);
                std::vector<T> out(cc.begin(), cc.end());
                std::vector<T> out2;
                std::copy(c.begin(), c.end(), std::back_inserter(out2));
                VP_CHECK(out.size() == m.size() && out2.size() == m.size(), "c%d: copied %zu and %zu of %zu elements", i, out.size(), out2.size(), m.size());
                for (size_t k = 0; k < m.size(); ++k) {
                    VP_CHECK(val(out[k]) == m[k].value && val(out2[k]) == m[k].value, "c%d: copy of element %zu is wrong", i, k);
                }
                break;
            }
            case 5: {
                ctx.log("c%d: std::transform in place and std::fill of a part", i);
                std::transform(c.begin(), c.end(), c.begin(), [&](const T& x) { return Val<T>::make(val(x) + 1); });
                for (auto& e : m) {
                    e.value += 1;
                }
                if (n > 0) {
                    const auto a = static_cast<ptrdiff_t>(ctx.below(static_cast<uint32_t>(n)));
                    const auto b = a + static_cast<ptrdiff_t>(ctx.below(static_cast<uint32_t>(n - a + 1)));
                    const int v = next();
                    const T x = Val<T>::make(v);
                    auto f = c.begin();
                    f += a;
                    auto l = c.end();
                    l -= n - b;
                    std::fill(f, l, x);
                    for (auto k = a; k < b; ++k) {
                        m[static_cast<size_t>(k)].value = v;
                    }
                }
                break;
            }
            case 6: {
                ctx.log("c%d: std::max_element, std::equal", i);
                if (n > 0) {
                    auto less = [&](const T& a, const T& b) { return val(a) < val(b); };
                    auto it = std::max_element(cc.begin(), cc.end(), less);
                    auto e = std::max_element(m.begin(), m.end(), [](const Elem& a, const Elem& b) { return a.value < b.value; });
                    VP_CHECK(std::distance(cc.begin(), it) == e - m.begin(), "c%d: max_element is wrong", i);
                }
                VP_CHECK(std::equal(cc.begin(), cc.end(), m.begin(), m.end(), [&](const T& a, const Elem& b) { return val(a) == b.value; }), "c%d: equal says the content differs", i);
                break;
            }
            case 7: {
                ctx.log("c%d: std::copy of the model into the container", i);
                std::vector<T> in;
                for (auto& e : m) {
                    e.value = next();
                    in.push_back(Val<T>::make(e.value));
                }
                auto end = std::copy(in.begin(), in.end(), c.begin());
                VP_CHECK(end == c.end(), "c%d: copy into the container does not stop at its end", i);
                break;
            }
            default: {
                ctx.log("c%d: std::rotate-like partial reversal", i);
                if (n > 0) {
                    const auto a = static_cast<ptrdiff_t>(ctx.below(static_cast<uint32_t>(n)));
                    auto f = c.begin();
                    f += a;
                    std::reverse(f, c.end());
                    for (size_t x = static_cast<size_t>(a), y = m.size(); x + 1 < y; ++x, --y) {
                        std::swap(m[x].value, m[y - 1].value);
                    }
                }
                break;
            }
        }
    }
}

template<template<class, unsigned, class> class K, bool DEQUE, class T, unsigned N, bool COPY, unsigned CHECKS>
void runOne()
{
    constexpr bool counting = (CHECKS & AllocatorUse) != 0;
    using A = std::conditional_t<counting, CountingAllocator<T>, std::allocator<T>>;
    World<K<T, N, A>, T, N, DEQUE, COPY, CHECKS> world;
    world.run();
}
template<class T, unsigned N, class A>
using Vec = gmlc::containers::StableBlockVector<T, N, A>;
template<class T, unsigned N, class A>
using Deq = gmlc::containers::StableBlockDeque<T, N, A>;
}  // namespace blk
