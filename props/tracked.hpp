// Element types that account for their own lifetime, and an allocator that accounts for its blocks.
#pragma once
#include "vp.hpp"
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>

namespace trk {
using vp::ctx;

/** set of addresses without any heap use (the heap is being measured) */
template<unsigned BITS>
class AddressSet {
    static constexpr size_t size{size_t{1} << BITS};
    const void* slot[size]{};
    size_t value[size]{};

  public:
    size_t count{0};
    static size_t hash(const void* p) { return (reinterpret_cast<uintptr_t>(p) * 0x9e3779b97f4a7c15ULL) >> (64 - BITS); }
    size_t find(const void* p) const
    {
        for (size_t i = hash(p);; i = (i + 1) & (size - 1)) {
            if (slot[i] == p) {
                return i;
            }
            if (slot[i] == nullptr) {
                return size;
            }
        }
    }
    bool has(const void* p) const { return find(p) != size; }
    size_t get(const void* p) const
    {
        auto i = find(p);
        return i == size ? 0 : value[i];
    }
    bool add(const void* p, size_t v)
    {
        size_t i = hash(p);
        for (; slot[i] != nullptr; i = (i + 1) & (size - 1)) {
            if (slot[i] == p) {
                return false;
            }
        }
        if (count > size / 2) {
            ctx.discard();
        }
        slot[i] = p;
        value[i] = v;
        ++count;
        return true;
    }
    bool remove(const void* p)
    {
        size_t i = find(p);
        if (i == size) {
            return false;
        }
        --count;
        slot[i] = nullptr;
        for (size_t j = (i + 1) & (size - 1); slot[j] != nullptr; j = (j + 1) & (size - 1)) {
            const size_t home = hash(slot[j]);
            if (((j - home) & (size - 1)) >= ((j - i) & (size - 1))) {
                slot[i] = slot[j];
                value[i] = value[j];
                slot[j] = nullptr;
                i = j;
            }
        }
        return true;
    }
    void reset()
    {
        for (auto& s : slot) {
            s = nullptr;
        }
        count = 0;
    }
};
inline AddressSet<14>& live()
{
    static AddressSet<14> s;
    return s;
}
struct Bomb: std::runtime_error {
    Bomb(): std::runtime_error("injected construction failure") {}
};
/** >0: the construction that brings it to 0 throws */
inline int& bomb()
{
    static int b = 0;
    return b;
}
inline void born(const void* p, bool mayThrow)
{
    if (mayThrow && bomb() > 0 && --bomb() == 0) {
        throw Bomb();
    }
    if (!live().add(p, 1)) {
        ctx.fail("an element was constructed over one that is still alive");
    }
}
inline void used(const void* p, const char* how)
{
    if (!live().has(p)) {
        ctx.fail("%s an element that was not constructed or already destroyed", how);
    }
}
inline void died(const void* p)
{
    if (!live().remove(p)) {
        ctx.fail("destruction of an element that was not constructed or already destroyed");
    }
}
constexpr int movedFrom = -1000001;

/** copyable element; THROWS: constructions can be made to fail */
template<bool THROWS, bool COPY = true>
struct Element {
    int v;
    int w;
    Element(): v(0), w(~0) { born(this, false); }
    Element(int k): v(k), w(~k) { born(this, THROWS); }
    Element(const Element& o): v(0), w(0)
    {
        used(&o, "copy from");
        v = o.v;
        w = o.w;
        born(this, THROWS);
    }
    Element(Element&& o) noexcept(!THROWS): v(0), w(0)
    {
        used(&o, "move from");
        born(this, THROWS);
        v = o.v;
        w = o.w;
        o.v = movedFrom;
        o.w = ~movedFrom;
    }
    Element& operator=(const Element& o)
    {
        used(&o, "assignment from");
        used(this, "assignment to");
        v = o.v;
        w = o.w;
        return *this;
    }
    Element& operator=(Element&& o) noexcept
    {
        used(&o, "assignment from");
        used(this, "assignment to");
        if (this != &o) {
            v = o.v;
            w = o.w;
            o.v = movedFrom;
            o.w = ~movedFrom;
        }
        return *this;
    }
    ~Element()
    {
        died(this);
        v = -7777;
        w = -7777;
    }
    bool operator==(const Element& o) const { return v == o.v; }
    bool operator<(const Element& o) const { return v < o.v; }
};
template<bool THROWS>
struct Element<THROWS, false>: private Element<THROWS, true> {
    using Base = Element<THROWS, true>;
    using Base::v;
    using Base::w;
    Element() = default;
    Element(int k): Base(k) {}
    Element(const Element&) = delete;
    Element(Element&& o) noexcept(!THROWS) = default;
    Element& operator=(const Element&) = delete;
    Element& operator=(Element&& o) noexcept = default;
    ~Element() = default;
};
using Plain = Element<false>;
using Throwing = Element<true>;
using MoveOnly = Element<false, false>;

/** element made from nothing, one or two numbers, which a list of numbers does not make */
struct Multi: Element<false> {
    static inline int next = 0;  // what the default constructor makes
    Multi(): Element<false>(next) {}
    Multi(int k): Element<false>(k) {}
    Multi(int a, int b): Element<false>(a + b) {}
    Multi(std::initializer_list<int>): Element<false>(-99) {}
};
/** over-aligned element that can also be made from a list of itself, so that {x} is not a copy of x */
struct alignas(64) Odd {
    int v;
    explicit Odd(int k = 0): v(k) { placed(); }
    Odd(std::initializer_list<Odd>): v(-99) { placed(); }
    Odd(const Odd& o): v(o.v) { placed(); }
    Odd(Odd&& o) noexcept: v(o.v)
    {
        o.v = movedFrom;
        placed();
    }
    Odd& operator=(const Odd&) = default;
    Odd& operator=(Odd&& o) noexcept
    {
        if (this != &o) {
            v = o.v;
            o.v = movedFrom;
        }
        return *this;
    }
    bool operator==(const Odd& o) const { return v == o.v; }
    bool operator<(const Odd& o) const { return v < o.v; }

  private:
    void placed() const
    {
        if (reinterpret_cast<uintptr_t>(this) % alignof(Odd) != 0) {
            ctx.fail("an element was constructed at an address that is not aligned for its type");
        }
    }
};

/** element value <-> number */
template<class T>
struct Val {
    static T make(int k) { return T(k); }
    static int key(const T& t)
    {
        used(&t, "read of");
        if (t.w != ~t.v) {
            ctx.fail("element content damaged: %d/%d", t.v, ~t.w);
        }
        return t.v;
    }
};
template<>
struct Val<int> {
    static int make(int k) { return k; }
    static int key(const int& t) { return t; }
};
template<>
struct Val<short> {
    static short make(int k) { return static_cast<short>(k); }
    static int key(const short& t) { return t; }
};
template<>
struct Val<Odd> {
    static Odd make(int k) { return Odd(k); }
    static int key(const Odd& t) { return t.v; }
};
template<>
struct Val<std::string> {
    static std::string make(int k)
    {
        std::string s = std::to_string(k);
        return (k % 2 == 0) ? s : s + "/a string that is long enough to live on the heap";
    }
    static int key(const std::string& t) { return t.empty() ? movedFrom : atoi(t.c_str()); }
};
template<>
struct Val<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(int k) { return std::unique_ptr<int>(new int(k)); }
    static int key(const std::unique_ptr<int>& t) { return t ? *t : movedFrom; }
};

/** calls f with arguments from which an element of value v is made */
template<class T>
struct Make {
    template<class F>
    static void with(int v, F&& f)
    {
        f(v);
    }
};
template<>
struct Make<Multi> {
    template<class F>
    static void with(int v, F&& f)
    {
        if (v % 3 == 0) {
            f(v - 300, 300);
        } else if (v % 3 == 1) {
            Multi::next = v;
            f();
            Multi::next = 0;
        } else {
            f(v);
        }
    }
};

/** accounting allocator */
struct Blocks {
    AddressSet<13> set;
    uint64_t allocated{0};
    uint64_t freed{0};
};
inline Blocks& blocks()
{
    static Blocks b;
    return b;
}
template<class T>
struct CountingAllocator {
    using value_type = T;
    T* allocate(size_t n)
    {
        T* p = static_cast<T*>(::operator new(n * sizeof(T)));
        blocks().set.add(p, n);
        ++blocks().allocated;
        return p;
    }
    void deallocate(T* p, size_t n)
    {
        if (!blocks().set.has(p)) {
            ctx.fail("a block was returned to the allocator twice or never came from it");
        }
        if (blocks().set.get(p) != n) {
            ctx.fail("a block requested with size %zu was returned with size %zu", blocks().set.get(p), n);
        }
        blocks().set.remove(p);
        ++blocks().freed;
        ::operator delete(p);
    }
};
inline void resetAll()
{
    if (live().count != 0) {
        live().reset();
    }
    if (blocks().set.count != 0) {
        blocks().set.reset();
    }
    blocks().allocated = blocks().freed = 0;
    bomb() = 0;
}
}  // namespace trk
