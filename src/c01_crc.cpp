// C01: checksums equal the bit-serial definition, however the data is split, for every width/polynomial/bit order.
// LIBS: none
#include "pbt.hpp"
#include <memory>
#include "novatel_edie/common/crc.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"

PBT_PROPERTY("C01", "random buffers (0..6000 bytes, exact-size heap allocations, random start offset) with random initial values; every entry point is "
                    "compared with a bit-serial division; non-trivial = at least 2 bytes that are not all equal")

namespace {
// bit-serial reference, no tables
uint64_t refCrc(unsigned width, uint64_t poly, bool rev, const unsigned char* p, size_t n, uint64_t init)
{
    const uint64_t mask = width == 64 ? ~0ull : (1ull << width) - 1;
    uint64_t c = init & mask;
    for (size_t i = 0; i < n; ++i)
        for (int b = 0; b < 8; ++b)
        {
            if (rev) { uint64_t in = (p[i] >> b) & 1u; uint64_t out = c & 1u; c >>= 1; if (in ^ out) c ^= poly; }
            else { uint64_t in = (p[i] >> (7 - b)) & 1u; uint64_t out = (c >> (width - 1)) & 1u; c = (c << 1) & mask; if (in ^ out) c ^= poly; }
        }
    return c & mask;
}
struct Buf
{
    std::unique_ptr<unsigned char[]> mem; unsigned char* p; size_t n;
    Buf(const std::string& s, size_t off) : mem(new unsigned char[off + s.size()]), p(mem.get() + off), n(s.size()) { std::memcpy(p, s.data(), n); }
};
std::string genData(pbt::Src& s, size_t maxLen)
{
    size_t n;
    switch (s.weighted({2, 2, 2, 1})) { case 0: n = s.size(0, 20); break; case 1: n = s.size(30, 70); break; case 2: n = s.size(0, 400); break; default: n = s.size(0, maxLen); }
    switch (s.weighted({6, 1, 1, 1}))
    {
    case 0: return s.bytes(n);
    case 1: return std::string(n, static_cast<char>(s.byte()));
    case 2: { std::string d(n, '\0'); if (n) d[s.draw(n - 1)] = static_cast<char>(1u << s.draw(7)); return d; }
    default: { std::string d; for (size_t i = 0; i < n; ++i) d += static_cast<char>(32 + s.draw(90)); return d; }
    }
}
template <typename T, T Poly, bool Rev> void checkGeneric(pbt::Src& s, pbt::Ctx& c, const char* name)
{
    using namespace novatel::edie;
    std::string d = genData(s, 1500);
    Buf b(d, s.draw(7));
    const T init = s.coin() ? static_cast<T>(s.bits(sizeof(T) * 8)) : T{0};
    const uint64_t want = refCrc(sizeof(T) * 8, Poly, Rev, b.p, b.n, init);
    PBT_EQ(static_cast<uint64_t>(CalculateBlockCrc<T, Poly, Rev>(b.p, static_cast<uint32_t>(b.n), init)), want, name, " block n=", b.n, " data=", pbt::hex(d));
    PBT_EQ(static_cast<uint64_t>(CalculateBlockCrc<T, Poly, Rev>(std::string_view(reinterpret_cast<char*>(b.p), b.n), init)), want, name, " string_view n=", b.n);
    T run = init; for (size_t i = 0; i < b.n; ++i) CalculateCharacterCrc<T, Poly, Rev>(run, b.p[i]);
    PBT_EQ(static_cast<uint64_t>(run), want, name, " per-character n=", b.n);
    // any split
    size_t at = s.size(0, b.n), at2 = s.size(at, b.n);
    T x = CalculateBlockCrc<T, Poly, Rev>(b.p, static_cast<uint32_t>(at), init);
    x = CalculateBlockCrc<T, Poly, Rev>(b.p + at, static_cast<uint32_t>(at2 - at), x);
    x = CalculateBlockCrc<T, Poly, Rev>(b.p + at2, static_cast<uint32_t>(b.n - at2), x);
    PBT_EQ(static_cast<uint64_t>(x), want, name, " split at ", at, ",", at2, " of ", b.n);
    c.feed(d); c.feed(init); c.mark(b.n >= 2 && d.find_first_not_of(d[0]) != std::string::npos); c.label(name); if (b.n >= 8) c.label("sliced");
    c.note(std::string(name) + " n=" + std::to_string(b.n) + " init=" + std::to_string(init) + " split=" + std::to_string(at) + "," + std::to_string(at2));
}
} // namespace

PBT_GROUP(oem_crc32, 1440000, 3000000)
{
    using namespace novatel::edie;
    std::string d = genData(src, 6000);
    Buf b(d, src.draw(15));
    const uint32_t init = src.coin() ? static_cast<uint32_t>(src.bits(32)) : 0;
    const uint32_t want = static_cast<uint32_t>(refCrc(32, 0xEDB88320u, true, b.p, b.n, init));
    PBT_EQ(oem::CalculateBlockCrc32(b.p, static_cast<uint32_t>(b.n), init), want, "oem block n=", b.n, " init=", init, " data=", pbt::hex(d));
    PBT_EQ((CalculateBlockCrc32<>(b.p, static_cast<uint32_t>(b.n), init)), want, "common block32 n=", b.n);
    uint32_t run = init; for (size_t i = 0; i < b.n; ++i) oem::CalculateCharacterCrc32(run, b.p[i]);
    PBT_EQ(run, want, "oem per-character n=", b.n);
    run = init; for (size_t i = 0; i < b.n; ++i) CalculateCharacterCrc32<>(run, b.p[i]);
    PBT_EQ(run, want, "common per-character n=", b.n);
    const std::string_view sv(reinterpret_cast<char*>(b.p), b.n);
    const uint32_t want0 = static_cast<uint32_t>(refCrc(32, 0xEDB88320u, true, b.p, b.n, 0));
    PBT_EQ(oem::CalculateBlockCrc32(sv), want0, "oem string_view n=", b.n);
    PBT_EQ(CalculateBlockCrc32<>(sv), want0, "common string_view n=", b.n);
    // incremental use over an arbitrary partition into up to 5 pieces
    uint32_t x = init; size_t pos = 0; size_t pieces = src.size(1, 5);
    for (size_t k = 0; k < pieces; ++k)
    {
        size_t e = k + 1 == pieces ? b.n : src.size(pos, b.n);
        x = src.coin() ? oem::CalculateBlockCrc32(b.p + pos, static_cast<uint32_t>(e - pos), x) : CalculateBlockCrc32<>(b.p + pos, static_cast<uint32_t>(e - pos), x);
        pos = e;
    }
    PBT_EQ(x, want, "oem split n=", b.n, " pieces=", pieces);
    // appending the checksum little-endian leaves residue zero (what frame validation relies on when it continues over the CRC)
    std::string e = d; for (int i = 0; i < 4; ++i) e += static_cast<char>(want >> (8 * i));
    PBT_EQ(oem::CalculateBlockCrc32(reinterpret_cast<const unsigned char*>(e.data()), static_cast<uint32_t>(e.size()), init), 0u, "residue n=", b.n);
    ctx.feed(d); ctx.feed(init); ctx.mark(b.n >= 2 && d.find_first_not_of(d[0]) != std::string::npos);
    ctx.label(b.n <= 48 ? "short_path" : b.n <= 56 ? "around_window" : "long_path");
    ctx.note("n=" + std::to_string(b.n) + " init=" + std::to_string(init) + " crc=" + std::to_string(want));
}
PBT_GROUP(widths, 1440000, 2000000)
{
    switch (src.draw(9))
    {
    case 0: checkGeneric<uint8_t, 0x07, false>(src, ctx, "crc8"); break;
    case 1: checkGeneric<uint8_t, 0x8C, true>(src, ctx, "crc8r"); break;
    case 2: checkGeneric<uint16_t, 0x1021, false>(src, ctx, "crc16"); break;
    case 3: checkGeneric<uint16_t, 0xA001, true>(src, ctx, "crc16r"); break;
    case 4: checkGeneric<uint32_t, 0x04C11DB7u, false>(src, ctx, "crc32"); break;
    case 5: checkGeneric<uint32_t, 0x82F63B78u, true>(src, ctx, "crc32cr"); break;
    case 6: checkGeneric<uint64_t, 0x42F0E1EBA9EA3693ull, false>(src, ctx, "crc64"); break;
    case 7: checkGeneric<uint64_t, 0xC96C5795D7870F42ull, true>(src, ctx, "crc64r"); break;
    case 8: checkGeneric<uint32_t, 0xEDB88320u, true>(src, ctx, "crc32r"); break;
    default: checkGeneric<uint16_t, 0x8005, false>(src, ctx, "crc16b"); break;
    }
}
PBT_GROUP(char32_variants, 360000, 500000)
{ // the 32-bit convenience wrappers with a non-default polynomial / order
    using namespace novatel::edie;
    std::string d = genData(src, 800); Buf b(d, src.draw(7));
    const uint32_t init = static_cast<uint32_t>(src.bits(32));
    uint32_t x = init; for (size_t i = 0; i < b.n; ++i) CalculateCharacterCrc32<0x04C11DB7u, false>(x, b.p[i]);
    const uint32_t want = static_cast<uint32_t>(refCrc(32, 0x04C11DB7u, false, b.p, b.n, init));
    PBT_EQ(x, want, "n=", b.n);
    PBT_EQ((CalculateBlockCrc32<0x04C11DB7u, false>(b.p, static_cast<uint32_t>(b.n), init)), want, "n=", b.n);
    PBT_EQ((CalculateBlockCrc32<0x04C11DB7u, false>(std::string_view(reinterpret_cast<char*>(b.p), b.n))),
           static_cast<uint32_t>(refCrc(32, 0x04C11DB7u, false, b.p, b.n, 0)), "n=", b.n);
    ctx.feed(d); ctx.feed(init); ctx.mark(b.n >= 2); ctx.note("n=" + std::to_string(b.n));
}
