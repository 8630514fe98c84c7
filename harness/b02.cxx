// B02: bit-field access and CRC-24Q, against bit-by-bit references.
#include "vh.h"
#include <memory>
#include "bits.h"
#include "common/ephemeris/bit_tools.h"
#include "utils/crc.h"
using namespace mc;
using namespace mc::ephemeris;
using namespace vh;

static std::string hex(const uint8_t* b, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += str("%02x", b[i]); return s; }

template <int L>
static void one(const std::vector<uint8_t>& bytes, int pos)
{
    // exactly the bytes the field touches are addressable after `pos` (ASan reports any access beyond)
    size_t n = (pos + L + 7) / 8;
    std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
    for (size_t i = 0; i < n; ++i) buf[i] = bytes[i];
    BitStr b(n * 8);
    for (size_t i = 0; i < n; ++i) b.put(i * 8, 8, buf[i]);
    uint64_t raw = b.get(pos, L);
    ctx("field of %d bits at %d in %s", L, pos, hex(buf.get(), n).c_str());
    expect((uint64_t)getBit<L>(buf.get(), pos) == raw, "unsigned field", str("got %llu want %llu", (unsigned long long)getBit<L>(buf.get(), pos), (unsigned long long)raw));
    expect((uint64_t)getBit(buf.get(), pos, L) == raw, "unsigned field, length given at run time");
    expect((int64_t)getBit<L, Signed>(buf.get(), pos) == sext(raw, L), "signed field", str("got %lld want %lld", (long long)getBit<L, Signed>(buf.get(), pos), (long long)sext(raw, L)));
    expect((int64_t)getBit<Signed>(buf.get(), pos, L) == sext(raw, L), "signed field, length given at run time");
    if constexpr (L >= 2) expect(getBitGlo<L>(buf.get(), pos) == (double)smag(raw, L), "sign-magnitude field", str("got %g want %lld", getBitGlo<L>(buf.get(), pos), (long long)smag(raw, L)));
    // writing: the field takes the value, no other bit changes, nothing outside is touched
    for (uint64_t w : std::vector<uint64_t>{0, ~(uint64_t)0, raw ^ 0x5a5a5a5a5a5a5a5aull})
        for (int dyn = 0; dyn < 2; ++dyn)
        {
            std::unique_ptr<uint8_t[]> o(new uint8_t[n]);
            memcpy(o.get(), buf.get(), n);
            if (dyn) setBit(o.get(), pos, (unsigned)w, L); else setBit<L>(o.get(), pos, (unsigned)w);
            BitStr want = b;
            want.put(pos, L, w);
            expect(hex(o.get(), n) == hex(want.bytes().data(), n), dyn ? "write field, length given at run time" : "write field",
                   str("wrote %llx got %s want %s", (unsigned long long)w, hex(o.get(), n).c_str(), hex(want.bytes().data(), n).c_str()));
            expect((uint64_t)getBit<L>(o.get(), pos) == want.get(pos, L), "read back what was written");
        }
    eval();
    nontrivial(mix(hbytes(buf.get(), n), pos * 64 + L));
}

template <int L>
static void all()
{
    for (int pos = 0; pos < 24; ++pos)
    {
        if (!mine(mix(L, pos) >> 7)) continue;
        size_t n = (pos + L + 7) / 8;
        std::vector<std::vector<uint8_t>> pats;
        for (uint8_t f : {0x00, 0xff, 0xaa, 0x55, 0x80, 0x7f, 0x01}) pats.push_back(std::vector<uint8_t>(n, f));
        for (size_t bit = 0; bit < n * 8; ++bit)  // walking one, walking zero
            for (int inv : {0, 1})
            {
                std::vector<uint8_t> v(n, inv ? 0xff : 0);
                v[bit / 8] ^= 0x80 >> (bit % 8);
                pats.push_back(v);
            }
        if (n <= 2 && L <= 9)
            for (int x = 0; x < 65536; x += thorough() ? 1 : 7) pats.push_back({(uint8_t)(x >> 8), (uint8_t)x});
        for (auto& p : pats) one<L>(p, pos);
    }
}
template <int... I> static void each(std::integer_sequence<int, I...>) { (all<I + 1>(), ...); }

static uint32_t crcref(const std::vector<uint8_t>& m)
{
    uint32_t r = 0;
    for (uint8_t c : m)
        for (int k = 7; k >= 0; --k)
        {
            uint32_t top = (r >> 23 & 1) ^ (c >> k & 1);
            r = (r << 1) & 0xffffff;
            if (top) r ^= 0x864cfb;
        }
    return r;
}
static void crc(const std::vector<uint8_t>& m)
{
    std::unique_ptr<uint8_t[]> b(new uint8_t[m.size() + (m.size() == 0)]);
    if (m.size()) memcpy(b.get(), m.data(), m.size());
    ctx("crc of %zu bytes %s", m.size(), hex(m.data(), std::min<size_t>(m.size(), 30)).c_str());
    uint32_t c = utils::crc24(b.get(), (int)m.size());
    expect(c == crcref(m), "CRC-24Q", str("got %06x want %06x", c, crcref(m)));
    eval();
    nontrivial(mix(hbytes(m.data(), m.size()), 999));
    outcome(c & 0xff);
}

// the GLONASS string check: check bits 1..7 of the shortened Hamming code and the overall parity; data bit k (9..85) carries the
// (k-8)-th integer that is not a power of two, and check i covers the data bits whose integer has bit i set
struct Ham
{
    int code[86] = {0};
    Ham()
    {
        for (int k = 1; k <= 7; ++k) code[k] = 1 << (k - 1);
        int v = 3;
        for (int k = 9; k <= 85; ++k, ++v) { while ((v & (v - 1)) == 0) ++v; code[k] = v; }
    }
    bool ok(const uint8_t* b) const
    {
        int syn = 0, par = 0;
        for (int k = 1; k <= 85; ++k)
        {
            int i = 85 - k;
            if (b[i / 8] >> (7 - i % 8) & 1) { syn ^= code[k]; par ^= 1; }
        }
        if (!syn && !par) return true;
        return par && syn && (syn & (syn - 1)) == 0;  // one of the check bits is damaged, the data are not
    }
    void fix(uint8_t* b) const
    {
        int syn = 0, par = 0;
        for (int k = 1; k <= 8; ++k) put(b, k, 0);
        for (int k = 9; k <= 85; ++k) if (get(b, k)) { syn ^= code[k]; par ^= 1; }
        for (int k = 1; k <= 7; ++k) if (syn >> (k - 1) & 1) { put(b, k, 1); par ^= 1; }
        put(b, 8, par);
    }
    static int get(const uint8_t* b, int k) { int i = 85 - k; return b[i / 8] >> (7 - i % 8) & 1; }
    static void put(uint8_t* b, int k, int v) { int i = 85 - k; b[i / 8] = (b[i / 8] & ~(0x80 >> (i % 8))) | (v ? 0x80 >> (i % 8) : 0); }
};
static void glo(const uint8_t* d)
{
    static const Ham h;
    std::unique_ptr<uint8_t[]> b(new uint8_t[11]);
    memcpy(b.get(), d, 11);
    ctx("GLONASS string %s", hex(d, 11).c_str());
    bool got = utils::gloTest(b.get()), want = h.ok(d);
    expect(got == want, "GLONASS string check", str("got %d want %d", got, want));
    eval();
    nontrivial(mix(hbytes(d, 11), 1234));
    outcome(want);
}
static void glonass()
{
    Ham h;
    for (int base = 0; base < 6; ++base)
    {
        uint8_t b0[11];
        for (int i = 0; i < 11; ++i) b0[i] = base == 0 ? 0 : base == 1 ? 0xff : base == 2 ? 0xa5 : (uint8_t)mix(i + 1, base);
        h.fix(b0);
        if (first()) glo(b0);
        for (int i = 0; i < 88; ++i)       // every one- and two-bit error, the three bits behind the string included
            for (int j = i; j < 88; ++j)
            {
                if (!mine(i * 88 + j + base)) continue;
                uint8_t b[11];
                memcpy(b, b0, 11);
                b[i / 8] ^= 0x80 >> (i % 8);
                if (j != i) b[j / 8] ^= 0x80 >> (j % 8);
                glo(b);
                if (thorough()) for (int k = j + 1; k < 85; ++k) { b[k / 8] ^= 0x80 >> (k % 8); glo(b); b[k / 8] ^= 0x80 >> (k % 8); }
            }
        for (int i = 0; i < 11; ++i)       // every value of every byte, with the check bits it needs and with the old ones
            for (int v = 0; v < 256; ++v)
            {
                if (!mine(i * 256 + v + base)) continue;
                uint8_t b[11];
                memcpy(b, b0, 11);
                b[i] = v;
                glo(b);
                h.fix(b);
                glo(b);
            }
    }
}

int main()
{
    init();
    glonass();
    each(std::make_integer_sequence<int, 32>());
    for (int x = 0; x < 65536; ++x) if (mine(x)) crc({(uint8_t)(x >> 8), (uint8_t)x});
    for (int n = 0; n <= (thorough() ? 64 : 32); ++n)
    {
        if (!mine(n)) continue;
        for (uint8_t f : {0x00, 0xff, 0xa5}) crc(std::vector<uint8_t>(n, f));
        for (int b = 0; b < n * 8; ++b) for (int inv : {0, 1}) { std::vector<uint8_t> v(n, inv ? 0xff : 0); v[b / 8] ^= 0x80 >> (b % 8); crc(v); }
    }
    // three-byte messages reach every table entry after every table entry
    for (int x = 0; x < 256; ++x) for (int y = 0; y < 256; ++y) if (mine(x * 256 + y)) crc({(uint8_t)x, (uint8_t)(x ^ y), (uint8_t)y});
    sample("field of 13 bits at 24 in aaaaaaaaaa");
    return finish();
}
