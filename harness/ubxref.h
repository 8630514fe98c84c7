// Independent description of the UBX wire format, used to generate and to recognise frames.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
typedef std::vector<uint8_t> Bytes;
struct UFrame { int cls, id; Bytes payload; };
inline void ubx_sum(const uint8_t* p, size_t n, uint8_t& a, uint8_t& b)
{
    uint64_t sa = 0, sb = 0;  // 8-bit Fletcher, written as plain and weighted sums
    for (size_t i = 0; i < n; ++i) { sa += p[i]; sb += (uint64_t)(n - i) * p[i]; }
    a = sa % 256; b = sb % 256;
}
inline Bytes ubx_frame(int cls, int id, const Bytes& pl)
{
    Bytes f = {0xb5, 0x62, (uint8_t)cls, (uint8_t)id, (uint8_t)(pl.size() % 256), (uint8_t)(pl.size() / 256)};
    f.insert(f.end(), pl.begin(), pl.end());
    uint8_t a, b;
    ubx_sum(f.data() + 2, f.size() - 2, a, b);
    f.push_back(a); f.push_back(b);
    return f;
}
// Frames of a byte stream. The last byte of a damaged frame or of a header that announces too much may be the first one
// of the next frame (a byte was lost before it). `ambiguous`: the last byte of an intact frame would have to serve as the
// first synchronisation byte of the next one; the format does not say, so such streams are not judged.
struct UScan { std::vector<UFrame> frames; bool open = false, ambiguous = false; };
inline UScan ubx_scan(const Bytes& s)
{
    UScan r;
    size_t i = 0, n = s.size();
    bool good = false;
    while (true)
    {
        if (good && i < n && s[i - 1] == 0xb5 && s[i] == 0x62) r.ambiguous = true;
        size_t j = i > 0 && !good ? i - 1 : i;
        while (j + 1 < n && !(s[j] == 0xb5 && s[j + 1] == 0x62)) ++j;
        if (j + 1 >= n) return r;
        if (j + 6 > n) { r.open = true; return r; }
        size_t len = s[j + 4] + 256u * s[j + 5];
        if (len > 2048) { i = j + 6; good = false; continue; }
        if (j + 8 + len > n) { r.open = true; return r; }
        uint8_t a, b;
        ubx_sum(&s[j + 2], len + 4, a, b);
        good = a == s[j + 6 + len] && b == s[j + 7 + len];
        if (good)
            r.frames.push_back({s[j + 2], s[j + 3], Bytes(s.begin() + j + 6, s.begin() + j + 6 + len)});
        i = j + 8 + len;
    }
}
