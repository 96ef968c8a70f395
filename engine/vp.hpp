// Choice-recording property-based testing engine: interface used by the properties.
// Everything random in a case comes from Ctx::below(), so a case is its list of choices: it can be
// replayed, shrunk, and driven by a coverage-guided fuzzer.  See /verif/DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>

namespace vp {

class Ctx {
  public:
    /** a choice in [0,n); 0 is the benign one used when a shrunk case runs out of choices */
    uint32_t below(uint32_t n);
    /** choice in [lo,hi] */
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo) + 1)); }
    /** true num times out of den; the benign answer is false */
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
    /** index drawn with the given weights; the benign answer is index 0 */
    uint32_t weighted(std::initializer_list<uint32_t> w);
    /** loop condition with about `mean` iterations; each iteration is a unit for the shrinker */
    bool more(uint32_t mean);
    /** the start of a unit for the shrinker */
    void mark();

    /** count this case under a label (a string literal) */
    void label(const char* name);
    /** this case is non-trivial by the property's rule */
    void nontrivial();
    /** false only when nobody looks at log() */
    bool tracing() const;
    /** one line of the decoded case */
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    /** the property is violated: never returns */
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    /** drop this case: it does not count (used only for exhausted internal limits) */
    [[noreturn]] void discard();
};
extern Ctx ctx;

#define VP_CHECK(cond, ...)                                                                        \
    do {                                                                                           \
        if (!(cond)) {                                                                             \
            ::vp::ctx.fail(__VA_ARGS__);                                                           \
        }                                                                                          \
    } while (0)

/** blocks on the heap that were allocated and not freed since the start of the process; balanced() at the
 * end of a case compares with the start of the case (address sanitizer builds only) */
int64_t heapBlocks();

struct Property {
    const char* id;
    /** how cases are made and what makes one non-trivial */
    const char* rule;
    uint64_t quickCases;
    uint64_t thoroughCases;
    /** runs one case */
    void (*run)();
    /** the heap must be balanced over a case */
    bool heapBalanced;
};
extern const Property property;

}  // namespace vp
