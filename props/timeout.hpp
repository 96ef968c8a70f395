#pragma once
// Timeouts of any unit and representation: whole and fractional, below and above a millisecond.
#include "vp.hpp"

#include <chrono>

namespace timeouts {
constexpr int units = 8;

/** a unit for a timeout, mostly milliseconds (which coincide with sleeps) */
inline int draw()
{
    return static_cast<int>(vp::ctx.weighted({12, 2, 1, 2, 1, 1, 1, 2}));
}
inline const char* name(int unit)
{
    static const char* names[units] = {"ms", "ms + 250 us", "ms + 1 ns", "ms + 400 us (double)", "s", "/30 s (int)", "ms + 500.5 us (double, us)", "00 us"};
    return names[unit];
}
/** calls f(timeout); r is the time it has to wait at least, in ns (a little less for roundings) */
template<class F>
auto with(int n, int unit, int64_t& r, F&& f)
{
    using namespace std::chrono;
    switch (unit) {
        case 1:
            r = n * 1000000LL + 250000;
            return f(microseconds(n * 1000 + 250));
        case 2:
            r = n * 1000000LL + 1;
            return f(nanoseconds(n * 1000000LL + 1));
        case 3:
            r = n * 1000000LL + 400000 - 2;
            return f(duration<double>((n + 0.4) / 1000.0));
        case 4:
            r = n * 1000000000LL;
            return f(seconds(n));
        case 5:
            r = n * 1000000000LL / 30 - (n > 0 ? 1 : 0);
            return f(duration<int, std::ratio<1, 30>>(n));
        case 6:
            r = n * 1000000LL + 500500 - 2;
            return f(duration<double, std::micro>(n * 1000 + 500.5));
        case 7:
            r = n * 100000LL;
            return f(microseconds(n * 100));
        default:
            r = n * 1000000LL;
            return f(milliseconds(n));
    }
}
}  // namespace timeouts
