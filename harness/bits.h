// Independent MSB-first bit strings, used to encode navigation messages for the checks.
#pragma once
#include <cstdint>
#include <vector>
struct BitStr
{
    std::vector<uint8_t> v;  // one entry per bit
    explicit BitStr(size_t n) : v(n, 0) {}
    BitStr& put(int pos, int len, uint64_t val)
    {
        for (int i = 0; i < len; ++i) v[pos + i] = (val >> (len - 1 - i)) & 1;
        return *this;
    }
    uint64_t get(int pos, int len) const
    {
        uint64_t r = 0;
        for (int i = 0; i < len; ++i) r = r << 1 | v[pos + i];
        return r;
    }
    std::vector<uint8_t> bytes() const
    {
        std::vector<uint8_t> o((v.size() + 7) / 8, 0);
        for (size_t i = 0; i < v.size(); ++i) if (v[i]) o[i / 8] |= 0x80 >> (i % 8);
        return o;
    }
};
inline int64_t sext(uint64_t v, int len) { return (int64_t)(v << (64 - len)) >> (64 - len); }
inline int64_t smag(uint64_t v, int len) { int64_t m = (int64_t)(v & ((1ull << (len - 1)) - 1)); return (v >> (len - 1)) & 1 ? -m : m; }
