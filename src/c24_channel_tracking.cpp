// C24: the channel tracking status word: component round trip, per-encoding construction, tables of systems, signals, wavelengths and PRN offsets.
// LIBS: common dcommon oem
#include "pbt.hpp"
#include <cmath>
#include <map>
#include "novatel_edie/decoders/oem/rangecmp/channel_tracking_status.hpp"
namespace oem = novatel::edie::oem;
using CTS = oem::ChannelTrackingStatus; using SYS = oem::SYSTEM; using SRC = novatel::edie::MEASUREMENT_SOURCE;
PBT_PROPERTY("C24", "status words (random, one-bit patterns, per-system/signal composed) in batches, and compressed-range block headers over all systems, signals and flags, against tables written from the receiver documentation; "
                    "non-trivial = a known system and signal")
namespace {
constexpr uint32_t RESERVED = 0x04080000u;
struct Sig { int number; double mhz; int gloBand; };            // number in the status word, carrier (0: depends on the GLONASS channel)
// status-word system -> signal number -> carrier in MHz
const std::map<int, std::map<int, Sig>>& table()
{
    static const std::map<int, std::map<int, Sig>> t = [] {
        std::map<int, std::map<int, Sig>> m; auto add = [&](int sys, int n, double f, int g = 0) { m[sys][n] = {n, f, g}; };
        const double L1 = 1575.42, L2 = 1227.6, L5 = 1176.45, E6 = 1278.75, E5B = 1207.14;
        add(0, 0, L1); add(0, 5, L2); add(0, 9, L2); add(0, 14, L5); add(0, 16, L1); add(0, 17, L2);
        add(1, 0, 0, 1); add(1, 1, 0, 2); add(1, 5, 0, 2); add(1, 6, 1202.025);
        add(2, 0, L1); add(2, 6, L5);
        add(3, 2, L1); add(3, 6, E6); add(3, 7, E6); add(3, 12, L5); add(3, 17, E5B); add(3, 20, 1191.795);
        add(4, 0, 1561.098); add(4, 4, 1561.098); add(4, 1, E5B); add(4, 5, E5B); add(4, 11, E5B); add(4, 2, 1268.52); add(4, 6, 1268.52); add(4, 7, L1); add(4, 9, L5);
        add(5, 0, L1); add(5, 14, L5); add(5, 16, L1); add(5, 17, L2); add(5, 24, L1); add(5, 27, E6); add(5, 28, E6);
        add(6, 0, L5);
        return m;
    }();
    return t;
}
double wavelength(int sys, int sig, int k)
{
    auto i = table().find(sys); if (i == table().end()) return 0; auto j = i->second.find(sig); if (j == i->second.end()) return 0;
    double mhz = j->second.gloBand == 1 ? 1602.0 + (k - 7) * 0.5625 : j->second.gloBand == 2 ? 1246.0 + (k - 7) * 0.4375 : j->second.mhz;
    return 299.792458 / mhz;
}
bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-12 * std::abs(b); }
SYS sysOf(int cts) { switch (cts) { case 0: return SYS::GPS; case 1: return SYS::GLONASS; case 2: return SYS::SBAS; case 3: return SYS::GALILEO; case 4: return SYS::BEIDOU; case 5: return SYS::QZSS; case 6: return SYS::NAVIC; default: return SYS::UNKNOWN; } }
int ctsOf(int sys) { switch (sys) { case 0: return 0; case 1: return 1; case 2: return 2; case 5: return 3; case 6: return 4; case 7: return 5; case 9: return 6; default: return 7; } }
// RANGECMP2 and RANGECMP4/5 signal numbers -> status word signal numbers, keyed by status word system
const std::map<int, std::map<int, int>> CMP2 = {
    {0, {{1, 0}, {4, 9}, {5, 17}, {6, 5}, {7, 14}, {15, 16}}}, {1, {{1, 0}, {3, 1}, {4, 5}, {6, 6}}}, {2, {{1, 0}, {2, 6}}},
    {3, {{1, 2}, {2, 12}, {3, 17}, {4, 20}, {5, 7}, {12, 6}}}, {4, {{1, 0}, {2, 4}, {3, 1}, {4, 5}, {13, 2}, {16, 6}, {19, 7}, {20, 9}, {21, 11}}},
    {5, {{1, 0}, {2, 24}, {3, 17}, {4, 14}, {8, 16}, {10, 28}, {11, 27}}}, {6, {{1, 0}}}, {7, {{1, 19}}}};
const std::map<int, std::map<int, int>> CMP4 = {
    {0, {{1, 0}, {4, 9}, {5, 17}, {6, 5}, {7, 14}, {15, 16}}}, {1, {{1, 0}, {3, 1}, {4, 5}, {6, 6}}}, {2, {{1, 0}, {2, 6}}},
    {3, {{1, 2}, {2, 12}, {3, 17}, {4, 20}, {5, 7}, {12, 6}}}, {4, {{1, 0}, {2, 4}, {3, 1}, {4, 5}, {5, 2}, {6, 6}, {7, 7}, {9, 9}, {11, 11}}},
    {5, {{1, 0}, {2, 24}, {3, 17}, {4, 14}, {8, 16}, {10, 28}, {11, 27}}}, {6, {{1, 0}}}};
int lookup(const std::map<int, std::map<int, int>>& t, int cts, int sig) { auto i = t.find(cts); if (i == t.end()) return 0; auto j = i->second.find(sig); return j == i->second.end() ? 0 : j->second; }
bool known(const std::map<int, std::map<int, int>>& t, int cts, int sig) { auto i = t.find(cts); return i != t.end() && i->second.count(sig); }
uint32_t wantPrn(int cts, uint32_t p)
{
    if (cts == 1) return p >= 43 && p <= 64 ? 0 : p + 37;
    if (cts == 2) return p >= 1 && p <= 39 ? p + 119 : p >= 54 && p <= 62 ? p + 129 : 0;
    if (cts == 5) return p + 192;
    return p;
}
uint32_t genWord(pbt::Src& s)
{
    switch (s.weighted({4, 1, 1, 3}))
    {
    case 0: return uint32_t(s.bits(32));
    case 1: return 1u << s.draw(31);
    case 2: return ~(1u << s.draw(31));
    default: { auto it = std::next(table().begin(), long(s.draw(table().size() - 1))); auto sg = std::next(it->second.begin(), long(s.draw(it->second.size() - 1)));
               return (uint32_t(s.bits(32)) & ~0x03E70000u) | uint32_t(it->first) << 16 | uint32_t(sg->first) << 21; }
    }
}
void checkWord(uint32_t w, uint32_t prn, int k)
{
    CTS cts(w); const int sys = (w >> 16) & 7, sig = (w >> 21) & 31;
    PBT_EQ(cts.GetAsWord(), w & ~RESERVED, "word ", w);
    CTS again(cts.GetAsWord()); PBT_EQ(again.GetAsWord(), cts.GetAsWord(), "repacked word ", w);
    PBT_EQ(int(cts.GetSystem()), int(sysOf(sys)), "system of word ", w);
    const double got = cts.GetSignalWavelength(int16_t(k)), want = wavelength(sys, sig, k);
    PBT_CHECK(near(got, want), "wavelength of system ", sys, " signal ", sig, " channel ", k, " is ", got, ", documented ", want);
    PBT_EQ(cts.CalculatePrn(prn), wantPrn(sys, prn), "PRN ", prn, " in system ", sys);
}
} // namespace
// words: pack/unpack, system, wavelength, PRN
PBT_GROUP(words, 800000, 4000000)
{
    auto& s = src; auto& c = ctx;
    std::vector<uint32_t> words; size_t n = s.size(1, 60), good = 0; uint32_t base = uint32_t(s.bits(32)); bool dense = s.chance(1, 4);
    if (dense) n *= 20;
    for (size_t i = 0; i < n; ++i) words.push_back(dense ? base + uint32_t(i) * 2654435761u : genWord(s));
    uint32_t prn = uint32_t(s.chance(3, 4) ? s.draw(64) : s.draw(255)); int k = int(s.draw(20));
    for (uint32_t w : words) { checkWord(w, prn, k); good += wavelength((w >> 16) & 7, (w >> 21) & 31, k) != 0; c.feed(w); }
    c.mark(good > 0); if (dense) c.label("stride"); c.label(good ? "known signal" : "unknown signals only"); c.note("words=" + std::to_string(n) + " first=" + std::to_string(words[0]) + " prn=" + std::to_string(prn) + " channel=" + std::to_string(k));
}
// keys identify (system, signal, prn, source)
PBT_GROUP(keys, 400000, 2000000)
{
    auto& s = src; auto& c = ctx;
    std::map<uint64_t, std::array<uint32_t, 4>> seen; size_t n = s.size(2, 60);
    uint32_t baseW = genWord(s), basePrn = uint32_t(s.draw(255));
    for (size_t i = 0; i < n; ++i)
    {
        // neighbours of one observation: change one component at a time, or jump
        uint32_t w = baseW, prn = basePrn; auto src = s.coin() ? SRC::PRIMARY : SRC::SECONDARY;
        switch (s.draw(4)) { case 0: w ^= 1u << (16 + s.draw(2)); break; case 1: w ^= 1u << (21 + s.draw(4)); break; case 2: prn ^= 1u << s.draw(7); break; case 3: w = genWord(s); prn = uint32_t(s.draw(255)); break; default: w = (w & 0x03E70000u) | (uint32_t(s.bits(32)) & ~0x03E70000u); }
        std::array<uint32_t, 4> id = {(w >> 16) & 7, (w >> 21) & 31, prn, uint32_t(src)};
        uint64_t key = CTS(w).MakeKey(prn, src);
        auto [it, fresh] = seen.emplace(key, id);
        PBT_CHECK(fresh || it->second == id, "observations (system ", it->second[0], ", signal ", it->second[1], ", PRN ", it->second[2], ", source ", it->second[3], ") and (", id[0], ", ", id[1], ", ", id[2], ", ", id[3], ") share key ", key);
        for (auto& [k2, id2] : seen) PBT_CHECK(id2 != id || k2 == key, "one observation has two keys ", k2, " and ", key);
        c.feed(key);
    }
    c.mark(seen.size() > 2); c.label("keys"); c.note("observations=" + std::to_string(n) + " keys=" + std::to_string(seen.size()));
}
PBT_GROUP(rangecmp2, 400000, 2000000)
{
    auto& s = src; auto& c = ctx;
    int sys = int(s.chance(4, 5) ? s.pick({0, 1, 2, 5, 6, 7, 8, 9}) : s.draw(31)), cts = ctsOf(sys); int sig = int(s.draw(31));
    if (s.chance(3, 4)) { auto i = CMP2.find(cts); sig = std::next(i->second.begin(), long(s.draw(i->second.size() - 1)))->first; }
    const bool ph = s.coin(), pa = s.coin(), cl = s.coin(), prim = s.coin(), half = s.coin(); const uint32_t corr = uint32_t(s.draw(7)), blocks = uint32_t(s.draw(15)), ch = uint32_t(s.chance(7, 8) ? s.draw(31) : s.draw(255)), lock = uint32_t(s.bits(17));
    oem::rangecmp2::SatelliteBlock sb; oem::rangecmp2::SignalBlock gb;
    sb.ucSvChanNumber = uint8_t(ch); sb.ucSatelliteIdentifier = s.byte();
    sb.ulCombinedField = (s.bits(64) & 0x0ffffffffffffe0full) | uint64_t(sys) << 4 | uint64_t(blocks) << 60;
    gb.uiCombinedField1 = uint32_t(sig) | uint32_t(ph) << 5 | uint32_t(pa) << 6 | uint32_t(cl) << 7 | lock << 8 | corr << 25 | uint32_t(prim) << 29 | uint32_t(half) << 30 | uint32_t(s.coin()) << 31;
    gb.ullCombinedField2 = s.bits(64);
    CTS st(sb, gb); const uint32_t sn = uint32_t(lookup(CMP2, cts, sig));
    uint32_t want = (prim ? 4u : 11u) | (ch & 31u) << 5 | uint32_t(ph) << 10 | uint32_t(pa) << 11 | uint32_t(cl) << 12 | corr << 13 | uint32_t(cts) << 16 | uint32_t(blocks > 1) << 20 | sn << 21 | uint32_t(prim) << 27 | uint32_t(half) << 28;
    const uint32_t mask = ch > 31 ? ~0x3e0u : ~0u;
    PBT_EQ(st.GetAsWord() & mask, want & mask, "RANGECMP2 system ", sys, " signal ", sig, " blocks ", blocks, " channel ", ch);
    PBT_EQ(int(st.GetSystem()), int(sysOf(cts)), "RANGECMP2 system ", sys);
    int k = int(s.draw(15)); PBT_CHECK(near(st.GetSignalWavelength(int16_t(k)), wavelength(cts, int(sn), k)), "RANGECMP2 wavelength of system ", sys, " signal ", sig, " channel ", k, ": ", st.GetSignalWavelength(int16_t(k)));
    c.feed(want); c.mark(known(CMP2, cts, sig)); c.label(known(CMP2, cts, sig) ? "known signal" : "unknown signal"); c.note("system=" + std::to_string(sys) + " signal=" + std::to_string(sig) + " word=" + std::to_string(want));
}
PBT_GROUP(rangecmp45, 400000, 2000000)
{
    auto& s = src; auto& c = ctx;
    int sys = int(s.chance(4, 5) ? s.pick({0, 1, 2, 5, 6, 7, 9}) : s.draw(15)), cts = ctsOf(sys); int sig = int(s.draw(15));
    auto i = CMP4.find(cts); if (i != CMP4.end() && s.chance(3, 4)) sig = std::next(i->second.begin(), long(s.draw(i->second.size() - 1)))->first;
    const bool pr = s.coin(), ph = s.coin(), pa = s.coin(), half = s.coin(), five = s.coin(), dop = s.coin();
    const double psr = double(s.bits(40)), phr = double(s.bits(40)), dp = double(s.bits(20)); const float cno = float(s.draw(60));
    auto fill = [&](auto& b) { b.bParityKnown = pa; b.bHalfCycleAdded = half; b.bValidPsr = pr; b.bValidPhr = ph; b.bValidDoppler = dop; b.dPsr = psr; b.dPhr = phr; b.dDoppler = dp; b.fCNo = cno; b.ucLockTime = 3; b.ucPsrStdDev = 5; b.ucPhrStdDev = 7; };
    CTS st; auto S = static_cast<SYS>(sys); auto G = static_cast<oem::rangecmp4::SIGNAL_TYPE>(sig);
    if (five) { oem::rangecmp5::MeasurementSignalBlock b; fill(b); st = CTS(S, G, b); } else { oem::rangecmp4::MeasurementSignalBlock b; fill(b); st = CTS(S, G, b); }
    const uint32_t sn = uint32_t(lookup(CMP4, cts, sig)); const bool prim = sig == 1 || (sig == 2 && (cts == 4 || cts == 5));
    uint32_t want = (prim ? 4u : 11u) | uint32_t(ph) << 10 | uint32_t(pa) << 11 | uint32_t(pr) << 12 | uint32_t(cts) << 16 | sn << 21 | uint32_t(prim) << 27 | uint32_t(half) << 28;
    // whether a signal without an L1 carrier (NavIC, unknown systems) counts as the primary L1 channel is not documented
    const uint32_t mask = cts >= 6 ? ~0x0800001fu : ~0u;
    PBT_EQ(st.GetAsWord() & mask, want & mask, five ? "RANGECMP5" : "RANGECMP4", " system ", sys, " signal ", sig);
    PBT_EQ(int(st.GetSystem()), int(sysOf(cts)), "RANGECMP4 system ", sys);
    int k = int(s.draw(20)); PBT_CHECK(near(st.GetSignalWavelength(int16_t(k)), wavelength(cts, int(sn), k)), "RANGECMP4 wavelength of system ", sys, " signal ", sig, " channel ", k);
    c.feed(want); c.mark(known(CMP4, cts, sig)); c.label(five ? "version 5" : "version 4"); c.note("system=" + std::to_string(sys) + " signal=" + std::to_string(sig) + " word=" + std::to_string(want));
}
