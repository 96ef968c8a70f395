// Shared by C08, C11..C17: histories over the six mapped vectors next to a model.
#pragma once
#include "tracked.hpp"
#include <algorithm>
#include <cstring>
#include <gmlc/containers/DualMappedPointerVector.hpp>
#include <gmlc/containers/DualMappedVector.hpp>
#include <gmlc/containers/DualStringMappedVector.hpp>
#include <gmlc/containers/MappedPointerVector.hpp>
#include <gmlc/containers/MappedVector.hpp>
#include <gmlc/containers/StringMappedVector.hpp>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace mapw {
struct HashKey;
}
template<>
struct is_easily_hashable<mapw::HashKey> {
    static constexpr bool value = true;
};
template<>
struct std::hash<mapw::HashKey> {
    size_t operator()(const mapw::HashKey& k) const noexcept;  // few different values: many collisions
};
namespace mapw {
using namespace trk;

/** ordered, not hashable */
struct UserKey {
    int a;
    std::string b;
    bool operator<(const UserKey& o) const { return a != o.a ? a < o.a : b < o.b; }
};
inline std::string nameOf(int n)
{
    if (n == 0) {
        return {};
    }
    std::string s = "n" + std::to_string(n);
    switch (n % 12) {
        case 5:  // differs only after hundreds of characters
            return std::string(257, 'x') + s;
        case 7:  // names are not zero-terminated
            return std::string("n\0", 2) + s;
        case 8:
            return std::string("n\0", 2) + "n" + std::to_string(n - 1) + std::string(1, '\0');
        case 10:  // differs from others only in case
            return "N" + std::to_string(n + 1);
        case 2:  // or in white space
            return "n" + std::to_string(n - 1) + " ";
        default:
            break;
    }
    return (n % 3 == 0) ? s + "-a name that does not fit into a small string" : s;
}
/** the names, made before any case starts */
struct NameTable {
    static constexpr int count = 1600;
    std::vector<std::string> text;
    std::vector<std::wstring> wide;
    NameTable()
    {
        for (int n = 0; n < count; ++n) {
            text.push_back(nameOf(n));
            wide.emplace_back(text.back().begin(), text.back().end());
        }
    }
};
inline NameTable nameTable;
/** K::with, or the cheaper K::look where there is one */
template<class K, class = void>
struct Looks: std::false_type {};
template<class K>
struct Looks<K, std::void_t<decltype(K::looks)>>: std::true_type {};
template<class K, class F>
auto lookWith(int n, F&& f)
{
    if constexpr (Looks<K>::value) {
        return K::look(n, f);
    } else {
        return K::with(n, f);
    }
}
// kinds of search terms; with(n, f) calls f with term number n in the form users pass it
struct KString {
    using type = std::string;
    template<class F>
    static auto with(int n, F&& f)
    {
        std::string s = nameOf(n);
        return f(s);
    }
    static constexpr bool looks = true;
    template<class F>
    static auto look(int n, F&& f)
    {
        return f(nameTable.text[static_cast<size_t>(n)]);
    }
};
struct KView {  // characters that are gone after the call
    using type = std::string;
    template<class F>
    static auto with(int n, F&& f)
    {
        std::string s = nameOf(n);
        std::unique_ptr<char[]> raw(new char[s.size() + 1]);
        memcpy(raw.get(), s.data(), s.size());
        raw[s.size()] = 'Z';
        struct Wipe {
            char* p;
            size_t n;
            ~Wipe() { memset(p, '#', n); }
        } wipe{raw.get(), s.size()};
        return f(std::string_view(raw.get(), s.size()));
    }
    static constexpr bool looks = true;
    template<class F>
    static auto look(int n, F&& f)
    {
        return f(std::string_view(nameTable.text[static_cast<size_t>(n)]));
    }
};
struct KInt {
    using type = int;
    template<class F>
    static auto with(int n, F&& f)
    {
        const int k = (n % 4 == 3) ? -n : n * 7;
        return f(k);
    }
};
struct KDouble {
    using type = double;
    template<class F>
    static auto with(int n, F&& f)
    {
        const double k = n * 0.25;
        return f(k);
    }
};
struct KUser {
    using type = UserKey;
    template<class F>
    static auto with(int n, F&& f)
    {
        UserKey k{n / 3, nameOf(n % 3)};
        return f(k);
    }
};
struct KWide {
    using type = std::wstring;
    template<class F>
    static auto with(int n, F&& f)
    {
        auto s = nameOf(n);
        std::wstring k(s.begin(), s.end());
        return f(k);
    }
    static constexpr bool looks = true;
    template<class F>
    static auto look(int n, F&& f)
    {
        return f(nameTable.wide[static_cast<size_t>(n)]);
    }
};

enum class Color : short { first };
struct KEnum {
    using type = Color;
    template<class F>
    static auto with(int n, F&& f)
    {
        const Color k = static_cast<Color>(n - 2);
        return f(k);
    }
};
struct KPointer {
    using type = const char*;
    template<class F>
    static auto with(int n, F&& f)
    {
        const char* k = n == 0 ? nullptr : reinterpret_cast<const char*>(uintptr_t{0x10000} + static_cast<uintptr_t>(n) * 8);
        return f(k);
    }
};
/** hashable, but not ordered: for users who specialize is_easily_hashable and std::hash */
struct HashKey {
    std::string s;
    bool operator==(const HashKey& o) const { return s == o.s; }
};
}
inline size_t std::hash<mapw::HashKey>::operator()(const mapw::HashKey& k) const noexcept
{
    return k.s.size() % 3;
}
namespace mapw {
struct KHash {
    using type = HashKey;
    template<class F>
    static auto with(int n, F&& f)
    {
        HashKey k{nameOf(n)};
        return f(k);
    }
};
struct KLong {
    using type = int64_t;
    template<class F>
    static auto with(int n, F&& f)
    {
        const int64_t k = static_cast<int64_t>(n) * 0x100000000LL - 3;
        return f(k);
    }
};

enum Checks : unsigned { Addresses = 1, Faults = 2 };

enum Kind { Mapped, StringMapped, Pointer, Dual, DualString, DualPointer };
template<Kind KIND, class T, class A, class B, bool STABLE, int ORDER>
struct Policy;
constexpr reference_stability st(bool s)
{
    return s ? reference_stability::stable : reference_stability::unstable;
}
template<class T_, class A_, class B_, bool STABLE, int ORDER>
struct Policy<Mapped, T_, A_, B_, STABLE, ORDER> {
    using C = gmlc::containers::MappedVector<T_, typename A_::type, st(STABLE), ORDER>;
    static constexpr bool dual = false, pointer = false, stable = STABLE, copyable = true, addIndex = true, addTerm = false, hasAt = true, mutators = true;
};
template<class T_, class A_, class B_, bool STABLE, int ORDER>
struct Policy<StringMapped, T_, A_, B_, STABLE, ORDER> {
    using C = gmlc::containers::StringMappedVector<T_, st(STABLE), ORDER>;
    static constexpr bool dual = false, pointer = false, stable = STABLE, copyable = true, addIndex = false, addTerm = false, hasAt = true, mutators = true;
};
template<class T_, class A_, class B_, bool STABLE, int ORDER>
struct Policy<Pointer, T_, A_, B_, STABLE, ORDER> {
    using C = gmlc::containers::MappedPointerVector<T_, typename A_::type>;
    static constexpr bool dual = false, pointer = true, stable = false, copyable = false, addIndex = true, addTerm = false, hasAt = false, mutators = false;
};
template<class T_, class A_, class B_, bool STABLE, int ORDER>
struct Policy<Dual, T_, A_, B_, STABLE, ORDER> {
    using C = gmlc::containers::DualMappedVector<T_, typename A_::type, typename B_::type, st(STABLE), ORDER>;
    static constexpr bool dual = true, pointer = false, stable = STABLE, copyable = true, addIndex = true, addTerm = true, hasAt = true, mutators = true;
};
template<class T_, class A_, class B_, bool STABLE, int ORDER>
struct Policy<DualString, T_, A_, B_, STABLE, ORDER> {
    using C = gmlc::containers::DualStringMappedVector<T_, typename B_::type, st(STABLE), ORDER>;
    static constexpr bool dual = true, pointer = false, stable = STABLE, copyable = true, addIndex = true, addTerm = true, hasAt = true, mutators = true;
};
template<class T_, class A_, class B_, bool STABLE, int ORDER>
struct Policy<DualPointer, T_, A_, B_, STABLE, ORDER> {
    using C = gmlc::containers::DualMappedPointerVector<T_, typename A_::type, typename B_::type>;
    static constexpr bool dual = true, pointer = true, stable = false, copyable = false, addIndex = false, addTerm = false, hasAt = true, mutators = false;
};

struct Stats {
    int removals{0};  // that removed an element or its terms
    int afterRemoval{0};  // insertions after a removal
    int multi{0};  // elements removed with several or no terms
    int transfers{0};
    int faults{0};
    int conflicts{0};
    int nulls{0};
};
/** model value of an element that is a null pointer */
constexpr int nullValue = -2000000000;

template<Kind KIND, class T, class A, class B, bool STABLE, int ORDER, unsigned CHECKS>
class World {
    using P = Policy<KIND, T, A, B, STABLE, ORDER>;
    using C = typename P::C;
    static constexpr int count = 3;
    struct Elem {
        int value;
        const void* addr;
    };
    struct Model {
        std::vector<Elem> e;
        std::map<int, size_t> term[2];
        bool valid{true};
        int next{0};
    };
    std::unique_ptr<C> box[count];
    Model model[count];
    int counter{1000};
    int terms{12};
    unsigned steps{0};
    std::optional<size_t> copyOf;
    uint32_t arguments{1};
    Stats stats;

    static constexpr bool fixed = P::pointer || P::stable;  // elements keep their address

    // -------------------------------------------------------------- access
    template<class CC>
    const T* findIn(CC& c, int kind, int n)
    {
        auto f = [&](const auto& key) -> const T* {
            if constexpr (P::pointer) {
                return c.find(key);
            } else {
                auto it = c.find(key);
                if (it == c.end()) {
                    return nullptr;
                }
                const auto& cit = it;
                return &*cit;
            }
        };
        if (kind == 0) {
            return lookWith<A>(n, f);
        }
        if constexpr (P::dual) {
            return lookWith<B>(n, f);
        }
        return nullptr;
    }
    const T* element(int i, size_t k)
    {
        if constexpr (P::pointer) {
            return (*box[i])[k];
        } else {
            return &(*box[i])[k];
        }
    }

    void compare(int i)
    {
        C& c = *box[i];
        const C& cc = c;
        Model& m = model[i];
        VP_CHECK(cc.size() == m.e.size(), "v%d: size() is %zu, expected %zu", i, static_cast<size_t>(cc.size()), m.e.size());
        for (size_t k = 0; k < m.e.size(); ++k) {
            const T* p = element(i, k);
            if (m.e[k].value == nullValue) {
                VP_CHECK(p == nullptr, "v%d: element %zu of %zu is %p, expected the stored null pointer", i, k, m.e.size(), static_cast<const void*>(p));
                continue;
            }
            VP_CHECK(p != nullptr, "v%d: element %zu of %zu is null", i, k, m.e.size());
            if (CHECKS & Addresses) {
                if (fixed) {
                    VP_CHECK(p == m.e[k].addr, "v%d: element %zu of %zu (value %d) has moved from %p to %p", i, k, m.e.size(), m.e[k].value, m.e[k].addr, static_cast<const void*>(p));
                }
            }
            VP_CHECK(Val<T>::key(*p) == m.e[k].value, "v%d: element %zu of %zu is %d, expected %d", i, k, m.e.size(), Val<T>::key(*p), m.e[k].value);
            if constexpr (P::hasAt) {
                if constexpr (P::pointer) {
                    VP_CHECK(c.at(k) == p && cc.at(k) == p, "v%d: at(%zu) is another element", i, k);
                } else {
                    VP_CHECK(&c.at(k) == p && &cc.at(k) == p && &cc[k] == p, "v%d: at(%zu) is another element", i, k);
                }
            }
        }
        if constexpr (P::pointer) {
            const size_t far = farIndex(m.e.size());
            VP_CHECK(cc[m.e.size()] == nullptr && cc[far] == nullptr, "v%d: indexing out of range (%zu or %zu of %zu) does not yield null", i, m.e.size(), far, m.e.size());
        }
        if constexpr (P::hasAt) {
            const size_t far = farIndex(m.e.size());
            bool threw = false;
            try {
                if (far % 2 != 0) {
                    (void)cc.at(far);
                } else {
                    (void)c.at(far);
                }
            }
            catch (const std::out_of_range&) {
                threw = true;
            }
            VP_CHECK(threw, "v%d: at(%zu) of %zu elements did not throw", i, far, m.e.size());
        }
        if (!m.e.empty()) {
            const T* b = nullptr;
            if constexpr (P::pointer) {
                b = c.back();
            } else {
                b = &c.back();
                VP_CHECK(&cc.back() == b, "v%d: back() and const back() differ", i);
            }
            VP_CHECK(b == element(i, m.e.size() - 1), "v%d: back() is not the last element", i);
        }
        size_t k = 0;
        for (auto it = cc.begin(); it != cc.end(); ++it) {
            VP_CHECK(k < m.e.size(), "v%d: iteration passes the end", i);
            const T* p = nullptr;
            const auto& cit = it;
            if constexpr (P::pointer) {
                p = (*cit).get();
            } else {
                p = &*cit;
            }
            VP_CHECK(p == element(i, k), "v%d: iteration step %zu is another element", i, k);
            ++k;
        }
        VP_CHECK(k == m.e.size(), "v%d: iteration ends after %zu of %zu elements", i, k, m.e.size());
        for (int kind = 0; kind < (P::dual ? 2 : 1); ++kind) {
            const int limit = std::max(terms, m.next);
            const int stride = limit > 200 ? 7 + static_cast<int>(ctx.below(20)) : limit > 40 ? 1 + static_cast<int>(ctx.below(3)) : 1;
            for (int n = 0; n < limit; n += stride) {
                checkTerm(i, kind, n);
            }
            if (stride > 1) {
                for (auto& t : m.term[kind]) {
                    checkTerm(i, kind, t.first);
                }
            }
        }
    }
    void checkTerm(int i, int kind, int n)
    {
        Model& m = model[i];
        C& c = *box[i];
        const C& cc = c;
        auto t = m.term[kind].find(n);
        const T* got = findIn(c, kind, n);
        const T* expect = (t == m.term[kind].end()) ? nullptr : element(i, t->second);
        if (t == m.term[kind].end()) {
            VP_CHECK(got == nullptr, "v%d: term %d of kind %d is found, but is attached to nothing", i, n, kind + 1);
        } else {
            VP_CHECK(got != nullptr || expect == nullptr, "v%d: term %d of kind %d is not found, expected element %zu of %zu", i, n, kind + 1, t->second, m.e.size());
            VP_CHECK(got == nullptr || expect != nullptr, "v%d: term %d of kind %d finds an object, expected element %zu of %zu, a null pointer", i, n, kind + 1, t->second, m.e.size());
            VP_CHECK(got == expect, "v%d: term %d of kind %d finds value %d, expected element %zu of %zu", i, n, kind + 1, got == nullptr ? 0 : Val<T>::key(*got), t->second, m.e.size());
        }
        VP_CHECK(findIn(cc, kind, n) == expect, "v%d: const search of term %d of kind %d differs", i, n, kind + 1);
    }
    /** everything about the vectors a and b that were used, and about the others now and then */
    void compareAll(int a, int b)
    {
        size_t total = 0;
        const bool others = a < 0 || (++steps % 4) == 0;
        for (int i = 0; i < count; ++i) {
            if (box[i] && model[i].valid) {
                if (others || i == a || i == b) {
                    compare(i);
                }
                for (auto& e : model[i].e) {
                    total += e.value != nullValue ? 1 : 0;
                }
            }
        }
        if (!std::is_same<T, int>::value && !std::is_same<T, std::string>::value) {
            VP_CHECK(live().count == total, "%zu element(s) alive, the vectors hold %zu", live().count, total);
        }
    }
    void readdress(int i)
    {
        for (size_t k = 0; k < model[i].e.size() && k < box[i]->size(); ++k) {
            model[i].e[k].addr = element(i, k);
        }
    }

    // -------------------------------------------------------------- operations
    int drawTerm(int i, int kind, bool present)
    {
        auto& t = model[i].term[kind];
        if (present && !t.empty()) {
            auto it = t.begin();
            std::advance(it, ctx.below(static_cast<uint32_t>(t.size())));
            return it->first;
        }
        return static_cast<int>(ctx.below(static_cast<uint32_t>(terms)));
    }
    static std::unique_ptr<T> pointerFor(int v)
    {
        return v == nullValue ? std::unique_ptr<T>() : std::make_unique<T>(v);
    }
    /** offer a pointer; a refused one must stay with the caller */
    template<class F>
    std::optional<size_t> byPointer(int v, F&& f)
    {
        auto p = pointerFor(v);
        T* raw = p.get();
        std::optional<size_t> r = f(std::move(p));
        if (!r) {
            VP_CHECK(p.get() == raw, "a refused insertion has taken the offered object");
        }
        return r;
    }
    /** the value for a new element: some pointer elements are null */
    int drawValue(int t1, int t2)
    {
        if (P::pointer && t1 >= 0 && (!P::dual || t2 >= 0) && ctx.below(8) == 7) {
            ++stats.nulls;
            return nullValue;
        }
        return ++counter;
    }
    /** calls f with the arguments from which the new element is made inside the container */
    template<class F>
    auto fill(C& c, int v, F&& f)
    {
        if constexpr (std::is_copy_constructible<T>::value) {
            if (copyOf) {
                const C& cc = c;
                if constexpr (P::pointer) {
                    const T* p = cc[*copyOf];
                    return f(*p);
                } else {
                    return f(cc[*copyOf]);
                }
            }
        }
        if constexpr (std::is_same<T, Multi>::value) {
            if (arguments == 0) {
                Multi::next = v;
                return f();
            }
            if (arguments == 2) {
                return f(v - 300, 300);
            }
        }
        return f(Val2(v));
    }
    /** the new element is now and then a copy of an element of the same vector; returns its value */
    int drawSource(int i, int v)
    {
        Model& m = model[i];
        copyOf.reset();
        arguments = std::is_same<T, Multi>::value ? ctx.below(3) : 1;
        if (std::is_copy_constructible<T>::value && !(CHECKS & Faults) && v != nullValue && !m.e.empty() && ctx.below(12) == 11) {
            const size_t k = ctx.below(static_cast<uint32_t>(m.e.size()));
            if (m.e[k].value != nullValue) {
                copyOf = k;
                return m.e[k].value;
            }
        }
        return v;
    }
    /** an index out of range, also one that is small or negative in a narrower type */
    size_t farIndex(size_t size)
    {
        switch (ctx.below(9)) {
            case 0:
                return size + 1 + ctx.below(100);
            case 1:
                return ~size_t{0} - ctx.below(3);
            case 2:
                return size_t{0x80000000u} + ctx.below(3);
            case 3:
                return size_t{0xFFFFFFFFu} - ctx.below(2);
            case 4:
                return (size_t{1} << 32) + ctx.below(static_cast<uint32_t>(size + 1));
            case 5:
                return (size_t{1} << 63) + ctx.below(static_cast<uint32_t>(size + 1));
            case 6:
                return (size_t{1} << 16) * (1 + ctx.below(1000)) + ctx.below(static_cast<uint32_t>(size + 1));
            case 7:
                return ~size_t{0} - size;
            default:
                return size;
        }
    }
    std::optional<size_t> doInsert(int i, int t1, int t2, int v)
    {
        C& c = *box[i];
        const uint32_t form = copyOf ? 0 : ctx.below(2);
        using R = std::optional<size_t>;
        if constexpr (!P::dual) {
            if (t1 < 0) {
                return fill(c, v, [&](auto&&... a) -> R { return c.insert(no_search, std::forward<decltype(a)>(a)...); });
            }
            return A::with(t1, [&](const auto& k1) -> std::optional<size_t> {
                if constexpr (P::pointer) {
                    if (form == 1 || v == nullValue) {
                        return byPointer(v, [&](std::unique_ptr<T>&& p) { return c.insert(k1, std::move(p)); });
                    }
                    return fill(c, v, [&](auto&&... a) -> R { return c.insert(k1, std::forward<decltype(a)>(a)...); });
                } else {
                    if constexpr (std::is_copy_constructible<T>::value) {
                        if (form == 1) {
                            // construct outside: the failures injected are those inside the container
                            const int b = bomb();
                            bomb() = 0;
                            const T x = Val<T>::make(v);
                            bomb() = b;
                            return c.insert(k1, x);
                        }
                    }
                    return fill(c, v, [&](auto&&... a) -> R { return c.insert(k1, std::forward<decltype(a)>(a)...); });
                }
            });
        } else {
            if (t1 >= 0 && t2 >= 0) {
                return A::with(t1, [&](const auto& k1) {
                    return B::with(t2, [&](const auto& k2) -> std::optional<size_t> {
                        if constexpr (P::pointer) {
                            if (form == 1 || v == nullValue) {
                                return byPointer(v, [&](std::unique_ptr<T>&& p) { return c.insert(k1, k2, std::move(p)); });
                            }
                        }
                        return fill(c, v, [&](auto&&... a) -> R { return c.insert(k1, k2, std::forward<decltype(a)>(a)...); });
                    });
                });
            }
            if (t1 >= 0) {
                return A::with(t1, [&](const auto& k1) -> std::optional<size_t> {
                    if constexpr (P::pointer) {
                        return fill(c, v, [&](auto&&... a) -> R { return c.insert(k1, nullptr, std::forward<decltype(a)>(a)...); });
                    } else {
                        return fill(c, v, [&](auto&&... a) -> R { return c.insert(k1, no_search, std::forward<decltype(a)>(a)...); });
                    }
                });
            }
            if (t2 >= 0) {
                return B::with(t2, [&](const auto& k2) -> std::optional<size_t> { return fill(c, v, [&](auto&&... a) -> R { return c.insert(no_search, k2, std::forward<decltype(a)>(a)...); }); });
            }
            if constexpr (!P::pointer) {
                return fill(c, v, [&](auto&&... a) -> R { return c.insert(no_search, no_search, std::forward<decltype(a)>(a)...); });
            } else {
                return std::nullopt;
            }
        }
    }
    /** argument from which an element is made inside the container */
    static auto Val2(int v)
    {
        if constexpr (std::is_same<T, std::string>::value) {
            return Val<T>::make(v);
        } else {
            return v;
        }
    }
    size_t doInsertOrAssign(int i, int t1, int t2, int v)
    {
        C& c = *box[i];
        const uint32_t form = copyOf ? 0 : ctx.below(2);
        using R = size_t;
        if constexpr (!P::dual) {
            return A::with(t1, [&](const auto& k1) -> size_t {
                if constexpr (P::pointer) {
                    if (form == 1 || v == nullValue) {
                        return c.insert_or_assign(k1, pointerFor(v));
                    }
                }
                return fill(c, v, [&](auto&&... a) -> R { return c.insert_or_assign(k1, std::forward<decltype(a)>(a)...); });
            });
        } else {
            if (t1 >= 0 && t2 >= 0) {
                return A::with(t1, [&](const auto& k1) {
                    return B::with(t2, [&](const auto& k2) -> size_t {
                        if constexpr (P::pointer) {
                            if (form == 1 || v == nullValue) {
                                return c.insert_or_assign(k1, k2, pointerFor(v));
                            }
                        }
                        return fill(c, v, [&](auto&&... a) -> R { return c.insert_or_assign(k1, k2, std::forward<decltype(a)>(a)...); });
                    });
                });
            }
            if (t1 >= 0) {
                return A::with(t1, [&](const auto& k1) -> size_t {
                    if constexpr (P::pointer) {
                        return fill(c, v, [&](auto&&... a) -> R { return c.insert_or_assign(k1, nullptr, std::forward<decltype(a)>(a)...); });
                    } else {
                        return fill(c, v, [&](auto&&... a) -> R { return c.insert_or_assign(k1, no_search, std::forward<decltype(a)>(a)...); });
                    }
                });
            }
            return B::with(t2, [&](const auto& k2) -> size_t {
                if constexpr (P::pointer) {
                    return fill(c, v, [&](auto&&... a) -> R { return c.insert_or_assign(nullptr, k2, std::forward<decltype(a)>(a)...); });
                } else {
                    return fill(c, v, [&](auto&&... a) -> R { return c.insert_or_assign(no_search, k2, std::forward<decltype(a)>(a)...); });
                }
            });
        }
    }
    void appended(int i, int v)
    {
        Model& m = model[i];
        VP_CHECK(box[i]->size() == m.e.size() + 1, "v%d: size() is %zu after inserting into %zu elements", i, static_cast<size_t>(box[i]->size()), m.e.size());
        m.e.push_back({v, nullptr});
        m.e.back().addr = element(i, m.e.size() - 1);
    }
    bool arm()
    {
        if ((CHECKS & Faults) && ctx.chance(1, 3)) {
            bomb() = 1 + static_cast<int>(ctx.weighted({6, 1, 1, 1, 1, 1}));
            return true;
        }
        return false;
    }
    void insert(int i, int t1, int t2)
    {
        Model& m = model[i];
        auto has = [&](int kind, int t) { return t >= 0 && m.term[kind].count(t) != 0; };
        // where the index of the taken term is observed the new element has to be recognizable
        const bool partly = P::dual && has(0, t1) != has(1, t2);
        const int v = partly ? ++counter : drawSource(i, drawValue(t1, t2));
        if (partly) {
            copyOf.reset();
            arguments = 1;
        }
        const bool refuse = (t1 >= 0 && t2 >= 0) ? (has(0, t1) && has(1, t2)) : (has(0, t1) || has(1, t2));
        bool armed = arm();
        std::optional<size_t> r;
        bool threw = false;
        try {
            r = doInsert(i, t1, t2, v);
        }
        catch (const Bomb&) {
            threw = true;
        }
        bomb() = 0;
        if (threw) {
            ctx.log("v%d: insert(%d, %d, %d): construction fails", i, t1, t2, v);
            VP_CHECK(armed, "unexpected failure");
            ++stats.faults;
            return;
        }
        ctx.log("v%d: insert(%d, %d, %d) -> %s", i, t1, t2, v, r ? std::to_string(*r).c_str() : "refused");
        VP_CHECK(r.has_value() == !refuse, "v%d: insert(%d, %d) was %s although %s", i, t1, t2, r ? "accepted" : "refused", refuse ? "its terms are in use" : "a term is free");
        if (refuse) {
            return;
        }
        VP_CHECK(*r == m.e.size(), "v%d: insert returned index %zu, expected %zu", i, *r, m.e.size());
        const size_t index = m.e.size();
        appended(i, v);
        const int t[2] = {t1, t2};
        for (int kind = 0; kind < 2; ++kind) {
            if (t[kind] < 0) {
                continue;
            }
            auto it = m.term[kind].find(t[kind]);
            if (it == m.term[kind].end()) {
                m.term[kind][t[kind]] = index;
            } else {
                // the other term was free: whether this one is redirected is not specified
                ++stats.conflicts;
                const T* got = findIn(*box[i], kind, t[kind]);
                if (got == element(i, index)) {
                    it->second = index;
                }
            }
        }
        stats.afterRemoval += stats.removals != 0 ? 1 : 0;
    }
    void insertOrAssign(int i, int t1, int t2)
    {
        Model& m = model[i];
        const int v = drawSource(i, drawValue(t1, t2));
        auto at = [&](int kind, int t) -> std::optional<size_t> {
            if (t < 0) {
                return std::nullopt;
            }
            auto it = m.term[kind].find(t);
            if (it == m.term[kind].end()) {
                return std::nullopt;
            }
            return it->second;
        };
        auto a = at(0, t1);
        auto b = at(1, t2);
        std::optional<size_t> existing;
        if (t1 >= 0 && t2 >= 0) {
            if constexpr (P::pointer) {
                existing = (a && b && *a == *b) ? a : std::nullopt;
            } else {
                existing = a;
            }
        } else {
            existing = a ? a : b;
        }
        arm();
        size_t r = 0;
        bool threw = false;
        try {
            r = doInsertOrAssign(i, t1, t2, v);
        }
        catch (const Bomb&) {
            threw = true;
        }
        bomb() = 0;
        if (threw) {
            ctx.log("v%d: insert_or_assign(%d, %d, %d): construction fails", i, t1, t2, v);
            ++stats.faults;
            return;
        }
        ctx.log("v%d: insert_or_assign(%d, %d, %d) -> %zu", i, t1, t2, v, r);
        if (existing) {
            VP_CHECK(r == *existing, "v%d: insert_or_assign(%d, %d) returned index %zu, the terms are attached to %zu", i, t1, t2, r, *existing);
            m.e[r].value = v;
            if (P::pointer) {
                m.e[r].addr = element(i, r);
            }
        } else {
            VP_CHECK(r == m.e.size(), "v%d: insert_or_assign(%d, %d) returned index %zu, expected the new element %zu", i, t1, t2, r, m.e.size());
            appended(i, v);
            stats.afterRemoval += stats.removals != 0 ? 1 : 0;
        }
        if (t1 >= 0) {
            m.term[0][t1] = r;
        }
        if (t2 >= 0) {
            m.term[1][t2] = r;
        }
    }
    void modelRemove(int i, size_t index)
    {
        Model& m = model[i];
        if (index >= m.e.size()) {
            return;
        }
        const bool keep = P::stable && index + 1 != m.e.size();
        ++stats.removals;
        int had = 0;
        for (auto& t : m.term) {
            for (auto it = t.begin(); it != t.end();) {
                if (it->second == index) {
                    ++had;
                    it = t.erase(it);
                } else {
                    if (!keep && it->second > index) {
                        --it->second;
                    }
                    ++it;
                }
            }
        }
        stats.multi += had != (P::dual ? 2 : 1) ? 1 : 0;
        if (!keep) {
            m.e.erase(m.e.begin() + static_cast<long>(index));
        }
    }
    void removeTerm(int i, int kind, int t)
    {
        C& c = *box[i];
        ctx.log("v%d: remove term %d of kind %d", i, t, kind + 1);
        auto it = model[i].term[kind].find(t);
        const size_t index = (it == model[i].term[kind].end()) ? model[i].e.size() : it->second;
        if (kind == 0) {
            A::with(t, [&](const auto& k) { c.remove(k); });
        } else {
            if constexpr (P::dual) {
                B::with(t, [&](const auto& k) { c.remove(k); });
            }
        }
        modelRemove(i, index);
    }
    void addTerm(int i)
    {
        if constexpr (P::addIndex || P::addTerm) {
            C& c = *box[i];
            Model& m = model[i];
            const int kind = P::dual ? static_cast<int>(ctx.below(2)) : 0;
            const int t = drawTerm(i, kind, ctx.below(5) == 4);
            const bool present = m.term[kind].count(t) != 0;
            bool r = false;
            size_t target = m.e.size();
            if (P::addTerm && ctx.below(2) == 0) {
                if constexpr (P::addTerm) {
                    const int ek = static_cast<int>(ctx.below(2));
                    const int e = drawTerm(i, ek, ctx.below(5) != 4);
                    auto it = m.term[ek].find(e);
                    target = (it == m.term[ek].end()) ? m.e.size() : it->second;
                    if (kind == 0 && ek == 0) {
                        r = A::with(t, [&](const auto& k) { return A::with(e, [&](const auto& x) { return c.addSearchTerm(k, x); }); });
                    } else if (kind == 0) {
                        r = A::with(t, [&](const auto& k) { return B::with(e, [&](const auto& x) { return c.addSearchTerm(k, x); }); });
                    } else if (ek == 0) {
                        r = B::with(t, [&](const auto& k) { return A::with(e, [&](const auto& x) { return c.addSearchTerm(k, x); }); });
                    } else {
                        r = B::with(t, [&](const auto& k) { return B::with(e, [&](const auto& x) { return c.addSearchTerm(k, x); }); });
                    }
                    ctx.log("v%d: addSearchTerm(%d of kind %d, existing %d of kind %d) -> %d", i, t, kind + 1, e, ek + 1, r);
                }
            } else {
                target = ctx.below(8) == 7 ? farIndex(m.e.size()) : ctx.below(static_cast<uint32_t>(m.e.size() + 1));
                if (kind == 0) {
                    r = A::with(t, [&](const auto& k) { return c.addSearchTermForIndex(k, target); });
                } else {
                    if constexpr (P::dual) {
                        r = B::with(t, [&](const auto& k) { return c.addSearchTermForIndex(k, target); });
                    }
                }
                ctx.log("v%d: addSearchTermForIndex(%d of kind %d, %zu) -> %d", i, t, kind + 1, target, r);
            }
            const bool expect = !present && target < m.e.size();
            VP_CHECK(r == expect, "v%d: adding term %d of kind %d to element %zu of %zu returned %d although the term is %s", i, t, kind + 1, target, m.e.size(), r, present ? "in use" : "free");
            if (expect) {
                m.term[kind][t] = target;
            }
        }
    }
    void modifyAll(int i)
    {
        C& c = *box[i];
        Model& m = model[i];
        const uint32_t form = ctx.below(4);
        size_t seen = 0;
        if (form == 0) {
            ctx.log("v%d: apply", i);
            if constexpr (P::pointer) {
                c.apply([&](const T* p) { seen += (seen < m.e.size() && p == element(i, seen)) ? 1 : 1000; });
            } else {
                c.apply([&](const T& x) { seen += (seen < m.e.size() && &x == element(i, seen)) ? 1 : 1000; });
            }
            VP_CHECK(seen == m.e.size(), "v%d: apply did not visit every element in order", i);
        } else if (form == 1) {
            ctx.log("v%d: modify", i);
            auto change = [&](T& x) {
                if (seen < m.e.size()) {
                    m.e[seen].value = ++counter;
                    x = Val<T>::make(counter);
                }
                ++seen;
            };
            if constexpr (P::mutators) {
                c.modify(change);
            } else {
                c.apply([&](T* p) {
                    if (p == nullptr) {
                        VP_CHECK(seen < m.e.size() && m.e[seen].value == nullValue, "v%d: apply was given a null pointer for element %zu", i, seen);
                        ++seen;
                    } else {
                        change(*p);
                    }
                });
            }
            VP_CHECK(seen == m.e.size(), "v%d: modify visited %zu of %zu elements", i, seen, m.e.size());
        } else if (form == 2) {
            if constexpr (P::mutators) {
                ctx.log("v%d: transform", i);
                c.transform([&](const T& x) {
                    const int v = Val<T>::key(x) + 3;
                    return Val<T>::make(v);
                });
                for (auto& e : m.e) {
                    e.value += 3;
                }
            }
        } else if (!m.e.empty()) {
            const size_t k = ctx.below(static_cast<uint32_t>(m.e.size()));
            if (m.e[k].value == nullValue) {
                return;
            }
            m.e[k].value = ++counter;
            ctx.log("v%d: element %zu = %d", i, k, counter);
            if constexpr (P::pointer) {
                *c[k] = Val<T>::make(counter);
            } else {
                if (ctx.below(2) == 0) {
                    c[k] = Val<T>::make(counter);
                } else {
                    c.at(k) = Val<T>::make(counter);
                }
            }
        }
    }
    void drawTwo(int i, int& t1, int& t2, bool allowNone)
    {
        t1 = t2 = -1;
        const bool again = ctx.below(5) == 4;
        if (!P::dual) {
            t1 = (allowNone && ctx.below(6) == 5) ? -1 : drawTerm(i, 0, again);
            return;
        }
        switch (ctx.weighted({6, 2, 2, (allowNone && !P::pointer) ? 1u : 0u})) {
            case 0:
                t1 = drawTerm(i, 0, again);
                t2 = drawTerm(i, 1, ctx.below(5) == 4);
                break;
            case 1:
                t1 = drawTerm(i, 0, again);
                break;
            case 2:
                t2 = drawTerm(i, 1, again);
                break;
            default:
                break;
        }
    }
    void invalidate(int j)
    {
        model[j] = Model();
        model[j].valid = false;
    }
    void create(int i, int j)
    {
        const bool other = box[j] && i != j && model[j].valid;
        model[i] = Model();
        if (P::copyable && other && ctx.below(2) == 0) {
            if constexpr (P::copyable) {
                const C& src = *box[j];
                box[i].reset(new C(src));
                model[i] = model[j];
                readdress(i);
                ctx.log("v%d = copy of v%d", i, j);
            }
        } else if (other && ctx.below(2) == 0) {
            box[i].reset(new C(std::move(*box[j])));
            model[i] = std::move(model[j]);
            if (!fixed) {
                readdress(i);
            }
            invalidate(j);
            ctx.log("v%d = moved from v%d", i, j);
        } else {
            box[i].reset(new C());
            ctx.log("v%d = empty", i);
            return;
        }
        stats.transfers += model[i].e.empty() ? 0 : 1;
    }

  public:
    void run()
    {
        resetAll();
        static const int sizes[] = {8, 14, 14, 30, 90};
        terms = sizes[ctx.below(5)];
        bool single = ctx.below(3) == 0;
        uint32_t mean = terms > 20 ? 60 : 30;
        const bool many = ctx.below(300) == 299;
        if (many) {
            ctx.label("hundreds of elements");
            terms = 1500;
            mean = 20;
            single = true;
        }
        while (ctx.more(mean)) {
            const int i = single ? 0 : static_cast<int>(ctx.below(count));
            const int j = single ? 0 : static_cast<int>(ctx.below(count));
            if (!box[i]) {
                create(i, j);
                compareAll(i, j);
                continue;
            }
            if (!model[i].valid && ctx.below(2) == 0) {
                ctx.log("v%d: clear", i);
                box[i]->clear();
                model[i] = Model();
                compareAll(i, j);
                continue;
            }
            const uint32_t op = ctx.weighted({12, 4, 5, 4, 3, 2, 1, 2, 2, many ? 10u : 2u, 1});
            if (!model[i].valid && op != 7 && op != 8 && op != 10) {
                continue;
            }
            int t1 = -1;
            int t2 = -1;
            switch (op) {
                case 0:
                    drawTwo(i, t1, t2, true);
                    insert(i, t1, t2);
                    break;
                case 1:
                    drawTwo(i, t1, t2, false);
                    insertOrAssign(i, t1, t2);
                    break;
                case 2: {
                    const int kind = P::dual ? static_cast<int>(ctx.below(2)) : 0;
                    removeTerm(i, kind, drawTerm(i, kind, ctx.below(5) != 4));
                    break;
                }
                case 3: {
                    const size_t k = ctx.below(8) == 7 ? farIndex(model[i].e.size()) : ctx.below(static_cast<uint32_t>(model[i].e.size() + 2));
                    ctx.log("v%d: removeIndex(%zu) of %zu", i, k, model[i].e.size());
                    box[i]->removeIndex(k);
                    modelRemove(i, k);
                    break;
                }
                case 4:
                    addTerm(i);
                    break;
                case 5:
                    modifyAll(i);
                    break;
                case 6:
                    ctx.log("v%d: clear", i);
                    box[i]->clear();
                    model[i] = Model();
                    break;
                case 7:
                    if constexpr (P::copyable) {
                        if (i != j && box[j] && model[j].valid) {
                            const C& src = *box[j];
                            *box[i] = src;
                            model[i] = model[j];
                            readdress(i);
                            stats.transfers += model[i].e.empty() ? 0 : 1;
                            ctx.log("v%d = v%d (copy assignment)", i, j);
                        }
                    }
                    break;
                case 8:
                    if (i != j && box[j] && model[j].valid) {
                        *box[i] = std::move(*box[j]);
                        model[i] = std::move(model[j]);
                        if (!fixed) {
                            readdress(i);
                        }
                        invalidate(j);
                        stats.transfers += model[i].e.empty() ? 0 : 1;
                        ctx.log("v%d = std::move(v%d)", i, j);
                    }
                    break;
                case 9: {
                    // several elements at once
                    int k = many ? ctx.range(50, 400) : ctx.range(2, 20);
                    while (k-- > 0) {
                        t1 = drawTerm(i, 0, false);
                        t2 = P::dual ? drawTerm(i, 1, false) : -1;
                        insert(i, t1, t2);
                    }
                    break;
                }
                default:
                    if (ctx.below(2) == 0) {
                        ctx.log("v%d destroyed", i);
                        box[i].reset();
                        model[i] = Model();
                    }
                    break;
            }
            compareAll(i, j);
        }
        compareAll(-1, -1);
        for (auto& b : box) {
            b.reset();
        }
        if (live().count != 0) {
            ctx.fail("%zu element(s) alive after all vectors were destroyed", live().count);
        }
        if (stats.multi != 0) {
            ctx.label("removed an element with several or no terms");
        }
        if (stats.afterRemoval != 0) {
            ctx.label("inserted after a removal");
        }
        if (stats.transfers != 0) {
            ctx.label("copied or moved with content");
        }
        if (stats.faults != 0) {
            ctx.label("with construction failures");
        }
        if (stats.nulls != 0) {
            ctx.label("with null pointer elements");
        }
        if (stats.conflicts != 0) {
            ctx.label("partly conflicting insert");
        }
        if ((CHECKS & Faults) ? stats.faults != 0 : (stats.removals != 0 && stats.afterRemoval != 0)) {
            ctx.nontrivial();
        }
    }
};
template<Kind KIND, class T, class A, class B, bool STABLE, int ORDER, unsigned CHECKS>
void runMap(const char* name)
{
    ctx.log("%s, %s storage", name, (KIND == Pointer || KIND == DualPointer) ? "pointer" : (STABLE ? "stable" : "unstable"));
    ctx.label(name);
    World<KIND, T, A, B, STABLE, ORDER, CHECKS> w;
    w.run();
}
}  // namespace mapw
