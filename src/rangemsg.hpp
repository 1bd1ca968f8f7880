// Compressed range messages written bit by bit from the documented layout, with the observations a receiver of them must report.
#pragma once
#include "model.hpp"
#include <cmath>
namespace rng {
using model::Db; using model::Fld; using model::Fields; using model::Hdr; using model::K; using model::Msg; using model::put;
using pbt::Src; using std::string; using std::vector;
inline Fields rangeFields()
{
    auto f = [](const char* n, const char* t, unsigned l, const char* c) { Fld x; x.name = n; x.kind = K::SIMPLE; x.dt = t; x.len = l; x.conv = c; return x; };
    Fld rows; rows.name = "obs"; rows.kind = K::ROWS; rows.dt = "UNKNOWN"; rows.len = 4; rows.arr = 325;
    rows.sub = {f("prn", "USHORT", 2, "%hu"), f("glofreq", "SHORT", 2, "%hd"), f("psr", "DOUBLE", 8, "%.3lf"), f("psrstd", "FLOAT", 4, "%.3f"), f("adr", "DOUBLE", 8, "%.6lf"), f("adrstd", "FLOAT", 4, "%.3f"),
                f("dopp", "FLOAT", 4, "%.3f"), f("cno", "FLOAT", 4, "%.1f"), f("locktime", "FLOAT", 4, "%.3f"), f("status", "ULONG", 4, "%08lx")};
    return {rows};
}
inline Fields blobFields(unsigned n) { Fld x; x.name = "data"; x.kind = K::VAR; x.dt = "HEXBYTE"; x.len = 1; x.conv = "%Z"; x.arr = n; return {x}; }
inline Fields cmpFields()
{
    Fld rows; rows.name = "rec"; rows.kind = K::ROWS; rows.dt = "UNKNOWN"; rows.len = 4; rows.arr = 325; Fld x; x.name = "r"; x.kind = K::FIXED; x.dt = "HEXBYTE"; x.len = 1; x.conv = "%Z"; x.arr = 24; rows.sub = {x}; return {rows};
}
inline void addMessages(Db& d)
{
    auto add = [&](const char* n, unsigned id, Fields f) { Msg m; m.name = n; m.id = id; m.latest = 4000 + id; m.defs = {{m.latest, std::move(f)}}; d.msgs.push_back(m); };
    add("RANGE", 43, rangeFields()); add("RANGECMP", 140, cmpFields()); add("RANGECMP2", 1273, blobFields(7150)); add("RANGECMP3", 1734, blobFields(7800)); add("RANGECMP4", 2050, blobFields(7800)); add("RANGECMP5", 2537, blobFields(7800));
}
struct Bits
{
    string s; unsigned n = 0;
    void add(uint64_t v, unsigned b) { for (unsigned i = 0; i < b; ++i, ++n) { if (n % 8 == 0) s += '\0'; if (v >> i & 1) s.back() = char(uint8_t(s.back()) | 1u << n % 8); } }
};
// one observation as the receiver of the message must see it
struct Obs
{
    unsigned prn = 0; int glo = 0; double psr = 0, psrStd = 0, adr = 0, adrStd = 0, dop = 0, cno = 0, lock = 0; uint32_t status = 0;
    bool psrOk = true, adrOk = true, dopOk = true, lockOk = true; uint32_t statusMask = ~0u; // what the documentation settles
};
constexpr double C0 = 299792458.0;
const double NaN = std::nan("");
struct SigInfo { int sys; int cmp; int number; double mhz; int glo; double scale; bool primary; };   // per encoding
inline const vector<SigInfo>& signals2()
{
    static const double l1 = 1575.42, l2 = 1227.6, l5 = 1176.45;
    static const vector<SigInfo> v = {
        {0, 1, 0, l1, 0, 1, 0}, {0, 4, 9, l2, 0, 154. / 120, 0}, {0, 5, 17, l2, 0, 154. / 120, 0}, {0, 6, 5, l2, 0, 154. / 120, 0}, {0, 7, 14, l5, 0, 154. / 115, 0}, {0, 15, 16, l1, 0, 1, 0},
        {1, 1, 0, 0, 1, 1, 0}, {1, 3, 1, 0, 2, 9. / 7, 0}, {1, 4, 5, 0, 2, 9. / 7, 0}, {1, 6, 6, 1202.025, 0, 313. / 235, 0}, {2, 1, 0, l1, 0, 1, 0}, {2, 2, 6, l5, 0, 154. / 115, 0},
        {5, 1, 2, l1, 0, 1, 0}, {5, 2, 12, l5, 0, 154. / 115, 0}, {5, 3, 17, 1207.14, 0, 154. / 118, 0}, {5, 4, 20, 1191.795, 0, 154. / 116.5, 0}, {5, 5, 7, 1278.75, 0, 154. / 125, 0}, {5, 12, 6, 1278.75, 0, 154. / 125, 0},
        {6, 1, 0, 1561.098, 0, 1, 0}, {6, 2, 4, 1561.098, 0, 1, 0}, {6, 3, 1, 1207.14, 0, 1526. / 1180, 0}, {6, 4, 5, 1207.14, 0, 1526. / 1180, 0}, {6, 13, 2, 1268.52, 0, 1526. / 1240, 0}, {6, 16, 6, 1268.52, 0, 1526. / 1240, 0},
        {6, 19, 7, l1, 0, 1526. / 1540, 0}, {6, 20, 9, l5, 0, 1526. / 1150, 0}, {6, 21, 11, 1207.14, 0, 1526. / 1180, 0},
        {7, 1, 0, l1, 0, 1, 0}, {7, 2, 24, l1, 0, 1, 0}, {7, 3, 17, l2, 0, 154. / 120, 0}, {7, 4, 14, l5, 0, 154. / 115, 0}, {7, 8, 16, l1, 0, 1, 0}, {7, 10, 28, 1278.75, 0, 154. / 125, 0}, {7, 11, 27, 1278.75, 0, 154. / 125, 0},
        {9, 1, 0, l5, 0, 1, 0}};
    return v;
}
inline const vector<SigInfo>& signals4()
{
    static const double l1 = 1575.42, l2 = 1227.6, l5 = 1176.45;
    static const vector<SigInfo> v = {
        {0, 1, 0, l1, 0, 0, 1}, {0, 4, 9, l2, 0, 0, 0}, {0, 5, 17, l2, 0, 0, 0}, {0, 6, 5, l2, 0, 0, 0}, {0, 7, 14, l5, 0, 0, 0}, {0, 15, 16, l1, 0, 0, 0},
        {1, 1, 0, 0, 1, 0, 1}, {1, 3, 1, 0, 2, 0, 0}, {1, 4, 5, 0, 2, 0, 0}, {1, 6, 6, 1202.025, 0, 0, 0}, {2, 1, 0, l1, 0, 0, 1}, {2, 2, 6, l5, 0, 0, 0},
        {5, 1, 2, l1, 0, 0, 1}, {5, 2, 12, l5, 0, 0, 0}, {5, 3, 17, 1207.14, 0, 0, 0}, {5, 4, 20, 1191.795, 0, 0, 0}, {5, 5, 7, 1278.75, 0, 0, 0}, {5, 12, 6, 1278.75, 0, 0, 0},
        {6, 1, 0, 1561.098, 0, 0, 1}, {6, 2, 4, 1561.098, 0, 0, 1}, {6, 3, 1, 1207.14, 0, 0, 0}, {6, 4, 5, 1207.14, 0, 0, 0}, {6, 5, 2, 1268.52, 0, 0, 0}, {6, 6, 6, 1268.52, 0, 0, 0}, {6, 7, 7, l1, 0, 0, 0}, {6, 9, 9, l5, 0, 0, 0}, {6, 11, 11, 1207.14, 0, 0, 0},
        {7, 1, 0, l1, 0, 0, 1}, {7, 2, 24, l1, 0, 0, 1}, {7, 3, 17, l2, 0, 0, 0}, {7, 4, 14, l5, 0, 0, 0}, {7, 8, 16, l1, 0, 0, 0}, {7, 10, 28, 1278.75, 0, 0, 0}, {7, 11, 27, 1278.75, 0, 0, 0},
        {9, 1, 0, l5, 0, 0, 0}};
    return v;
}
inline int ctsSys(int sys) { switch (sys) { case 0: return 0; case 1: return 1; case 2: return 2; case 5: return 3; case 6: return 4; case 7: return 5; case 9: return 6; default: return 7; } }
inline double lambda(const SigInfo& g, int k) { return C0 / ((g.glo == 1 ? 1602.0 + (k - 7) * 0.5625 : g.glo == 2 ? 1246.0 + (k - 7) * 0.4375 : g.mhz) * 1e6); }
inline int64_t sgn(uint64_t v, unsigned b) { return v >> (b - 1) & 1 ? int64_t(v) - (int64_t(1) << b) : int64_t(v); }
const double PSR1[16] = {0.050, 0.075, 0.113, 0.169, 0.253, 0.380, 0.570, 0.854, 1.281, 2.375, 4.750, 9.500, 19.0, 38.0, 76.0, 152.0};
const double PSR2[16] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 5.409};
const double ADR2[16] = {0.00391, 0.00521, 0.00696, 0.00929, 0.01239, 0.01654, 0.02208, 0.02947, 0.03933, 0.05249, 0.07006, 0.09350, 0.12480, 0.16656, 0.22230, 0.22230};
const double ADR4[16] = {0.003, 0.005, 0.007, 0.009, 0.012, 0.016, 0.022, 0.029, 0.039, 0.052, 0.070, 0.093, 0.124, 0.166, 0.222, 0.222};
const double PSR5[32] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 6.876, 8.741, 11.111, 14.125, 17.957, 22.828, 29.020, 36.891, 46.898, 59.619, 75.791, 96.349, 122.484, 155.707, 197.943, 251.634, 251.634};
const double ADR5[32] = {0.00391, 0.00458, 0.00536, 0.00628, 0.00735, 0.00861, 0.01001, 0.01182, 0.01385, 0.01621, 0.01900, 0.02223, 0.02607, 0.03054, 0.03577, 0.04190,
                         0.04908, 0.05749, 0.06734, 0.07889, 0.09240, 0.10824, 0.12679, 0.14851, 0.17396, 0.20378, 0.23870, 0.27961, 0.32753, 0.38366, 0.44940, 0.44940};
const double LOCK4[16] = {0, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144};
inline bool prnOf(int sys, unsigned p, unsigned& out)
{
    out = p;
    if (sys == 1) out = p >= 43 && p <= 64 ? 0 : p + 37;
    else if (sys == 2) { if (p >= 1 && p <= 39) out = p + 119; else if (p >= 54 && p <= 62) out = p + 129; else return false; }
    else if (sys == 7) out = p + 192;
    return true;
}
struct Msgs { unsigned id = 0; string body; vector<Obs> obs; };
// the receiving side of a history: what earlier messages say about this one
struct State
{
    struct Lock4 { bool absolute = false; double at = 0; unsigned bits = 0; bool unsettled = false; };
    struct Ref { unsigned id; double psr, phr, dop; bool psrOk, phrOk, dopOk; int glo; };
    std::map<std::array<unsigned, 4>, Lock4> lock4;               // system, signal number, satellite, source
    std::map<std::array<unsigned, 4>, double> lock2;              // saturated since
    std::map<std::array<unsigned, 4>, Ref> refs;                  // system, compressed signal, satellite, source
    double week(unsigned w, double ms) const { return double(w) * 604800000.0 + ms; }
    double lockTime4(std::array<unsigned, 4> k, unsigned bits, double now, bool& ok)
    {
        auto [it, fresh] = lock4.try_emplace(k); auto& l = it->second;
        if (fresh) { l = {bits == 0, now, bits, false}; }
        else if (!l.absolute) { if (bits != l.bits) { l.absolute = bits == 0 || bits > l.bits; l.at = now; l.bits = bits; } }
        else if (bits < l.bits) { l.absolute = false; l.at = now; l.bits = bits; }
        else if (bits < 15 && now - l.at > LOCK4[bits + 1]) l.unsettled = true;   // later than the bits allow: the comments do not settle what is reported from here on
        ok = !l.unsettled; return (now - l.at + LOCK4[l.bits]) / 1000.0;
    }
    double lockTime2(std::array<unsigned, 4> k, unsigned bits, double now)
    {
        if (bits != 0x1ffff) { lock2.erase(k); return bits / 1000.0; }
        auto [it, fresh] = lock2.try_emplace(k, now); return (bits + (now - it->second)) / 1000.0;
    }
    void newSecond(unsigned source) { for (auto it = refs.begin(); it != refs.end();) it = it->first[3] == source ? refs.erase(it) : std::next(it); }
};
inline uint64_t lsbMask(unsigned b) { return b >= 64 ? ~0ull : (1ull << b) - 1; }
inline uint64_t raw(Src& s, unsigned b) { return s.chance(1, 5) ? (s.edgy(64) & lsbMask(b)) : s.bits(b); }

// ------------------------------------------------------------------------------------------------ RANGECMP
inline Msgs gen1(Src& s, size_t maxObs)
{
    Msgs m; m.id = 140; size_t n = s.size(0, maxObs); put(m.body, n, 4);
    for (size_t i = 0; i < n; ++i)
    {
        auto& g = s.pick(signals2()); Obs o; const int k = g.sys == 1 ? int(s.draw(13)) : int(s.chance(1, 8) ? s.draw(13) : 0);
        o.status = (uint32_t(s.bits(32)) & ~0x03e70000u) | uint32_t(ctsSys(g.sys)) << 16 | uint32_t(g.number) << 21;
        const int64_t dop = sgn(raw(s, 28), 28); const uint64_t psr = s.chance(1, 8) ? raw(s, 36) : uint64_t((19e6 + double(s.draw(23000000))) * 128) + s.draw(127);
        o.psr = psr / 128.0; o.dop = dop / 256.0; o.prn = unsigned(s.draw(255)); o.glo = k;
        // the true ADR is within half a roll-over of the negated range in cycles
        const double mid = -o.psr / lambda(g, k); const int64_t a = int64_t(std::floor(mid * 256)) + int64_t(s.draw(2 * uint64_t(4194304 * 0.98) * 256)) - int64_t(4194304 * 0.98) * 256;
        o.adr = double(a) / 256.0;
        const unsigned ps = unsigned(s.draw(15)), as = unsigned(s.draw(15)), cn = unsigned(s.draw(31)); const uint32_t lk = uint32_t(raw(s, 21));
        o.psrStd = PSR1[ps]; o.adrStd = (as + 1) / 512.0; o.cno = 20 + cn; o.lock = lk / 32.0;
        put(m.body, o.status, 4); put(m.body, (uint64_t(dop) & 0xfffffffu) | psr << 28, 8); put(m.body, uint32_t(a), 4); put(m.body, ps | as << 4, 1); put(m.body, o.prn, 1); put(m.body, lk | cn << 21 | uint32_t(k) << 26, 4); put(m.body, s.bits(16), 2);
        m.obs.push_back(o);
    }
    return m;
}
// ------------------------------------------------------------------------------------------------ RANGECMP2
inline Msgs gen2(Src& s, State& st, double now, unsigned source, size_t maxSats)
{
    Msgs m; m.id = 1273; string d; size_t n = s.size(0, maxSats);
    for (size_t i = 0; i < n; ++i)
    {
        const int sys = s.pick({0, 1, 2, 5, 6, 7, 9}); vector<const SigInfo*> av; for (auto& g : signals2()) if (g.sys == sys) av.push_back(&g);
        const size_t blocks = s.chance(1, 10) ? 0 : s.size(1, s.chance(1, 8) ? 15 : std::min<size_t>(av.size(), 4)); const int k = sys == 1 ? int(s.draw(13)) : 0;
        const unsigned ch = unsigned(s.draw(31)), ident = s.chance(1, 8) ? unsigned(s.draw(255)) : unsigned(s.draw(40)); const int64_t base = s.chance(1, 6) ? sgn(raw(s, 29), 29) : int64_t(19e6) + int64_t(s.draw(23000000)), dbase = sgn(raw(s, 21), 21);
        put(d, ch, 1); put(d, ident, 1); put(d, uint64_t(k) | uint64_t(sys) << 4 | uint64_t(s.coin()) << 9 | (uint64_t(base) & 0x1fffffffu) << 10 | (uint64_t(dbase) & 0x1fffffu) << 39 | uint64_t(blocks) << 60, 8);
        for (size_t b = 0; b < blocks; ++b)
        {
            auto& g = *av[s.draw(av.size() - 1)]; Obs o; const bool ph = s.coin(), pa = s.coin(), cl = s.coin(), pr = s.coin(), half = s.coin(); const unsigned corr = unsigned(s.draw(7)), ps = unsigned(s.draw(15)), as = unsigned(s.draw(15)), cn = unsigned(s.draw(31));
            const uint32_t lk = s.chance(1, 2) ? 0x1ffff : uint32_t(raw(s, 17)); const uint64_t pd = raw(s, 14), hd = raw(s, 20); const int64_t dd = sgn(raw(s, 17), 17);
            put(d, uint32_t(g.cmp) | uint32_t(ph) << 5 | uint32_t(pa) << 6 | uint32_t(cl) << 7 | lk << 8 | corr << 25 | uint32_t(pr) << 29 | uint32_t(half) << 30 | uint32_t(s.coin()) << 31, 4);
            put(d, cn | ps << 5 | as << 9 | pd << 13 | hd << 27 | (uint64_t(dd) & 0x1ffffu) << 47, 8);
            o.prn = ident + (sys == 1 ? 37 : 0); o.glo = k; o.psr = double(base) + pd / 128.0; o.psrStd = PSR2[ps]; o.adr = -(double(base) + hd / 2048.0) / lambda(g, k); o.adrStd = ADR2[as]; o.dop = (double(dbase) + dd / 256.0) / g.scale; o.cno = 20 + cn;
            o.lock = st.lockTime2({unsigned(ctsSys(sys)), unsigned(g.number), o.prn, source}, lk, now);
            o.status = (pr ? 4u : 11u) | ch << 5 | uint32_t(ph) << 10 | uint32_t(pa) << 11 | uint32_t(cl) << 12 | corr << 13 | uint32_t(ctsSys(sys)) << 16 | uint32_t(blocks > 1) << 20 | uint32_t(g.number) << 21 | uint32_t(pr) << 27 | uint32_t(half) << 28;
            m.obs.push_back(o);
        }
    }
    put(m.body, d.size(), 4); m.body += d; return m;
}
// ------------------------------------------------------------------------------------------------ RANGECMP3/4/5
struct Sat { int sys; unsigned prn; int glo; vector<const SigInfo*> sig; vector<double> lockedSince; double psr; };
// a sky of satellites that later messages of a history report again
inline vector<Sat> sky(Src& s, size_t maxSats, double now)
{
    vector<Sat> v; std::set<std::pair<int, unsigned>> used; size_t n = s.size(1, maxSats);
    for (size_t i = 0; i < n; ++i)
    {
        Sat t; t.sys = s.pick({0, 1, 2, 5, 6, 7, 9}); t.prn = unsigned(s.chance(1, 10) ? 64 - s.draw(2) : s.range(1, 40)); if (t.sys == 2) t.prn = unsigned(s.coin() ? s.range(1, 39) : s.range(54, 62));
        if (!used.insert({t.sys, t.prn}).second) continue;
        t.glo = t.sys == 1 ? int(s.draw(13)) : 0; t.psr = 19e6 + double(s.draw(23000000));
        for (auto& g : signals4()) if (g.sys == t.sys && s.chance(1, 2)) { t.sig.push_back(&g); t.lockedSince.push_back(now - (s.coin() ? double(s.draw(3000)) : double(s.draw(500000)))); }
        v.push_back(t);
    }
    std::sort(v.begin(), v.end(), [](const Sat& a, const Sat& b) { return std::tie(a.sys, a.prn) < std::tie(b.sys, b.prn); });
    return v;
}
inline unsigned lockBits(double ms) { unsigned b = 0; while (b < 15 && ms >= LOCK4[b + 1]) ++b; return b; }
inline Msgs gen45(Src& s, State& st, vector<Sat>& sats, unsigned id, double now, unsigned msInSecond, unsigned source)
{
    const bool five = id == 2537; Msgs m; m.id = id; Bits b; vector<const Sat*> use; unsigned systems = 0;
    if (!five && msInSecond == 0) st.newSecond(source);
    vector<size_t> pickd; for (size_t i = 0; i < sats.size(); ++i) if (s.chance(5, 6)) { pickd.push_back(i); systems |= 1u << sats[i].sys; }
    b.add(systems, 16);
    for (int sys = 0; sys < 16; ++sys)
    {
        if (!(systems >> sys & 1)) continue;
        uint64_t mask = 0; unsigned sigs = 0; vector<Sat*> list; vector<vector<size_t>> inc;
        for (size_t i : pickd) if (sats[i].sys == sys) { mask |= 1ull << (sats[i].prn - 1); list.push_back(&sats[i]); }
        for (auto* t : list) { inc.emplace_back(); for (size_t j = 0; j < t->sig.size(); ++j) if (s.chance(5, 6)) { inc.back().push_back(j); sigs |= 1u << t->sig[j]->cmp; } }
        if (s.chance(1, 8)) for (auto& g : signals4()) if (g.sys == sys && s.coin()) sigs |= 1u << g.cmp;   // a signal that no satellite of this message has
        b.add(mask, 64); b.add(sigs, 16);
        for (size_t i = 0; i < list.size(); ++i) for (int g = 0; g < 16; ++g) if (sigs >> g & 1) { bool in = false; for (size_t j : inc[i]) in |= list[i]->sig[j]->cmp == g; b.add(in, 1); }
        for (size_t i = 0; i < list.size(); ++i)
        {
            Sat& t = *list[i]; const bool diff = !five && (msInSecond != 0 ? s.chance(3, 4) : s.chance(1, 12)); unsigned refId = unsigned(s.chance(5, 6) ? 3 * unsigned(s.coin()) : s.draw(7));
            if (diff && s.chance(7, 8)) for (size_t j : inc[i]) { auto r = st.refs.find({unsigned(sys), unsigned(t.sig[j]->cmp), t.prn, source}); if (r != st.refs.end()) { refId = r->second.id; break; } }
            b.add(diff, 1); b.add(five ? s.draw(7) : refId, 3); if (sys == 1 && !diff) b.add(uint64_t(t.glo), 5);
            bool primary = true; double pPsr = 0, pDop = 0; bool pPsrOk = true, pDopOk = true; size_t first = m.obs.size(), skipped = 0;
            vector<size_t> order = inc[i]; std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return t.sig[x]->cmp < t.sig[y]->cmp; });
            for (size_t j : order)
            {
                const SigInfo& g = *t.sig[j]; const std::array<unsigned, 4> rk = {unsigned(sys), unsigned(g.cmp), t.prn, source}; Obs o;
                if (s.chance(1, 30)) t.lockedSince[j] = now;                                                       // an outage
                const bool pa = s.coin(), half = s.coin(); const unsigned cn = unsigned(s.draw(2047)), lk = lockBits(now - t.lockedSince[j]), sb = five ? 5 : 4, ps = unsigned(s.draw(five ? 31 : 15)), as = unsigned(s.draw(five ? 31 : 15));
                b.add(pa, 1); b.add(half, 1); b.add(cn, 11); b.add(lk, 4); b.add(ps, sb); b.add(as, sb);
                double psr, phr, dop; bool vPsr, vPhr, vDop; int k = t.glo; bool known = true;
                if (diff)
                {
                    const unsigned db = primary ? 18 : 14; const int64_t dp = sgn(raw(s, 19), 19), dh = sgn(raw(s, 16), 16), dd = sgn(raw(s, db), db); b.add(uint64_t(dp), 19); b.add(uint64_t(dh), 16); b.add(uint64_t(dd), db); primary = false;
                    auto r = st.refs.find(rk); if (r == st.refs.end() || r->second.id != refId) { ++skipped; continue; }
                    auto& R = r->second; const double off = msInSecond / 1000.0; k = R.glo; vPsr = dp != -262144; vPhr = dh != -32768; vDop = dd != (db == 18 ? -131072 : -8192);
                    psr = dp * 0.0005 + R.psr + R.dop * off; phr = dh * 0.0001 + R.phr + R.dop * off; dop = dd * 0.0001 + R.dop;
                    o.psrOk = !vPsr || (R.psrOk && R.dopOk); o.adrOk = !vPhr || (R.phrOk && R.psrOk && R.dopOk); o.dopOk = !vDop || R.dopOk;
                }
                else
                {
                    const unsigned db = five ? (primary ? 28 : 16) : (primary ? 26 : 14); int64_t p, h, dd;
                    if (primary) p = s.chance(1, 30) ? 137438953471 : int64_t(t.psr * 2000) + int64_t(s.draw(2000)); else p = sgn(raw(s, 20), 20);
                    h = sgn(raw(s, 23), 23); do dd = sgn(raw(s, db), db); while (five ? dd == -33554432 || dd == -134217728 || dd == -32768 : !primary && dd == -8192);  // not settled by the code's own documentation
                    b.add(uint64_t(p), primary ? 37 : 20); b.add(uint64_t(h), 23); b.add(uint64_t(dd), db);
                    vPsr = p != (primary ? 137438953471 : -524288); vPhr = h != -4194304; vDop = five || !primary || dd != -33554432;
                    psr = p * 0.0005 + (primary ? 0 : pPsr); phr = h * 0.0001 + psr; dop = dd * 0.0001 + (primary ? 0 : pDop);
                    const bool psrFine = vPsr && pPsrOk, dopFine = vDop && pDopOk; o.psrOk = !vPsr || psrFine; o.adrOk = !vPhr || psrFine; o.dopOk = !vDop || dopFine;
                    if (primary) { pPsr = psr; pDop = dop; pPsrOk = vPsr; pDopOk = vDop; }
                    primary = false;
                    if (!five) st.refs[rk] = {refId, psr, phr, dop, psrFine, vPhr && psrFine, dopFine, t.glo};
                }
                (void)known; prnOf(sys, t.prn, o.prn); o.glo = k; const double wl = lambda(g, k);
                o.psr = vPsr ? psr : NaN; o.adr = vPhr ? -phr / wl : NaN; o.dop = vDop ? -dop / wl : NaN; o.cno = cn * 0.05; o.psrStd = five ? PSR5[ps] : PSR2[ps]; o.adrStd = five ? ADR5[as] : ADR4[as];
                o.lock = st.lockTime4({unsigned(ctsSys(sys)), unsigned(g.number), t.prn, source}, lk, now, o.lockOk);
                o.status = (g.primary ? 4u : 11u) | uint32_t(vPhr) << 10 | uint32_t(pa) << 11 | uint32_t(vPsr) << 12 | uint32_t(ctsSys(sys)) << 16 | uint32_t(g.number) << 21 | uint32_t(g.primary) << 27 | uint32_t(half) << 28;
                if (sys == 9) o.statusMask = ~0x0800001fu;
                m.obs.push_back(o);
            }
            if (order.size() > 1) for (size_t x = first; x < m.obs.size(); ++x) { m.obs[x].status |= 1u << 20; if (skipped) m.obs[x].statusMask &= ~(1u << 20); }
        }
    }
    put(m.body, b.s.size(), 4); m.body += b.s; return m;
}
inline Msgs gen45plain(Src& s, unsigned id, double now, unsigned ms, unsigned source) { State st; auto v = sky(s, 12, now); return gen45(s, st, v, id, now, ms, source); }

inline string frame(const Hdr& h, const string& body) { string m = model::refBinHeader(h, body.size(), false) + body; uint32_t c = model::crc32ref(m); put(m, c, 4); return m; }
inline bool close(double got, double want, double rel) { if (std::isnan(want) || std::isnan(got)) return std::isnan(want) && std::isnan(got); return got == want || std::abs(got - want) <= rel * std::max(1.0, std::abs(want)); }
template <typename T> T at(const string& s, size_t p) { T v; memcpy(&v, s.data() + p, sizeof v); return v; }
// compare the body of a binary RANGE message with the observations
inline void checkRange(const string& body, const vector<Obs>& want, const string& where)
{
    PBT_CHECK(body.size() >= 4, where, "RANGE body of ", body.size(), " bytes"); PBT_EQ(at<uint32_t>(body, 0), uint32_t(want.size()), where, "number of observations"); PBT_EQ(body.size(), 4 + want.size() * 44, where, "RANGE body size");
    for (size_t i = 0; i < want.size(); ++i)
    {
        const Obs& o = want[i]; const size_t p = 4 + i * 44; const string w = where + "observation " + std::to_string(i) + " of " + std::to_string(want.size()) + " (PRN " + std::to_string(o.prn) + ", status " + model::num("%08x", o.status) + ")";
        auto real = [&](const char* n, double got, double v, bool ok, double tol) { PBT_CHECK(!ok || close(got, v, tol), w, ": ", n, " is ", model::num("%.9g", got), ", transmitted ", model::num("%.9g", v)); };
        PBT_EQ(at<uint32_t>(body, p + 40) & o.statusMask, o.status & o.statusMask, w, ": tracking status");
        PBT_EQ(at<uint16_t>(body, p), uint16_t(o.prn), w, ": PRN"); PBT_EQ(at<int16_t>(body, p + 2), int16_t(o.glo), w, ": GLONASS frequency");
        real("pseudorange", at<double>(body, p + 4), o.psr, o.psrOk, 1e-13); real("pseudorange deviation", at<float>(body, p + 12), o.psrStd, true, 1e-6); real("ADR", at<double>(body, p + 16), o.adr, o.adrOk, 1e-13);
        real("ADR deviation", at<float>(body, p + 24), o.adrStd, true, 1e-7); real("Doppler", at<float>(body, p + 28), o.dop, o.dopOk, 2e-7); real("C/No", at<float>(body, p + 32), o.cno, true, 1e-6); real("lock time", at<float>(body, p + 36), o.lock, o.lockOk, 2e-7);
    }
}
} // namespace rng
