// Shared by C01..C05: block contents and exact-size destinations.
#pragma once
#include "vp.hpp"
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace buf {
using vp::ctx;
using Bytes = std::vector<unsigned char>;

/** content of block number `serial`: several kinds, also ones that look like the bookkeeping of the buffers */
inline Bytes makeBlock(int size, unsigned serial, unsigned kind)
{
    Bytes b(static_cast<size_t>(size));
    for (size_t i = 0; i < b.size(); ++i) {
        switch (kind) {
            case 0:
                b[i] = static_cast<unsigned char>(serial * 37 + i * 11 + (i >> 8) * 5 + 1);
                break;
            case 1:
                b[i] = 0xFF;
                break;
            case 2:
                b[i] = 0;
                break;
            default: {
                // small little-endian integers, like length words
                const unsigned v = serial % 29;
                b[i] = ((i % 4) == 0) ? static_cast<unsigned char>(v) : 0;
                break;
            }
        }
    }
    if (!b.empty() && kind != 0) {
        b.back() = static_cast<unsigned char>(serial);  // still tells blocks apart
    }
    return b;
}
/** exact-size heap memory, so that the address sanitizer sees any access beyond it */
struct Exact {
    std::unique_ptr<unsigned char[]> mem;
    int size;
    explicit Exact(int n): mem(new unsigned char[static_cast<size_t>(n)]), size(n) { memset(mem.get(), 0xA5, static_cast<size_t>(n)); }
    explicit Exact(const Bytes& b): mem(new unsigned char[b.size()]), size(static_cast<int>(b.size()))
    {
        if (!b.empty()) {
            memcpy(mem.get(), b.data(), b.size());
        }
    }
    bool untouchedFrom(int k) const
    {
        for (int i = k; i < size; ++i) {
            if (mem[static_cast<size_t>(i)] != 0xA5) {
                return false;
            }
        }
        return true;
    }
};
/** capacities beyond what 16 bits hold: rarely, with fewer steps */
inline bool isBig(int cap) { return cap > 2500; }
/** weight of a burst of small blocks, and its length */
inline uint32_t burstWeight(int cap) { return cap > 2500 && cap < 10000 ? 5 : 1; }
inline int burstLength(int cap) { return (cap > 300 && ctx.below(2) == 0) ? ctx.range(60, cap > 2500 ? 900 : 250) : ctx.range(3, 20); }
inline int drawCapacity()
{
    if (ctx.below(400) == 399) {
        ctx.label("more than 30000 bytes");
        static const int centre[] = {32768, 65536, 131072};
        return ctx.below(2) == 1 ? centre[ctx.below(3)] + ctx.range(-20, 40) : ctx.range(30000, 200000);
    }
    if (ctx.below(250) == 249) {
        ctx.label("room for hundreds of small blocks");
        return ctx.range(2501, 9000);
    }
    switch (ctx.weighted({6, 6, 3, 1})) {
        case 0:
            return ctx.range(5, 40);
        case 1:
            return ctx.range(20, 130);
        case 2:
            return ctx.range(0, 12);
        default:
            return ctx.range(100, 2500);
    }
}
inline std::string hex(const unsigned char* p, size_t n)
{
    std::string r;
    char b[4];
    for (size_t i = 0; i < n && i < 24; ++i) {
        snprintf(b, sizeof(b), "%02x", p[i]);
        r += b;
    }
    return n > 24 ? r + "..." : r;
}
}  // namespace buf
