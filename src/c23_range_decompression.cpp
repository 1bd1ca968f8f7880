// C23: compressed range messages decompress to the transmitted observations; damaged ones are refused without touching other memory.
// LIBS: common dcommon oem
#include "rangemsg.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
using namespace model; using rng::Msgs; using rng::Obs;
using HF = ne::HEADER_FORMAT; using EF = ne::ENCODE_FORMAT; using ST = ne::STATUS;
PBT_PROPERTY("C23", "histories of RANGECMP, 2, 3, 4 and 5 messages written bit by bit from generated observations (all systems and signals, invalid markers, primary/secondary source, reference and differential blocks over time, lock time saturation, outages, week rollover, resets), "
                    "the same messages in text forms, and damaged payloads in buffers of every size; non-trivial = at least two observations in the history or a payload of at least 8 bytes")
namespace {
Db& db()
{
    static Db d = [] { Db x; Opt o; o.maxFields = 1; o.depth = 0; pbt::Src s(uint64_t{7}); x.enums = baseEnums(s); rng::addMessages(x); x.load(); return x; }();
    return d;
}
struct Out { ST st; string msg; oem::MetaDataStruct md; };
Out decompress(oem::RangeDecompressor& r, const string& msg, size_t cap, EF ef = EF::UNSPECIFIED)
{
    Exact b(msg + string(cap - msg.size(), '\x5a')); Out o; o.md.uiLength = uint32_t(msg.size());
    try { o.st = r.Decompress(b.data(), uint32_t(cap), o.md, ef); } catch (const std::exception& e) { pbt::fail("Decompress threw ", e.what(), " for ", pbt::hex(msg)); }
    if (o.st == ST::SUCCESS) { PBT_CHECK(o.md.uiLength <= cap && o.md.uiHeaderLength <= o.md.uiLength, "reported length ", o.md.uiLength, " header ", o.md.uiHeaderLength, " in a buffer of ", cap); o.msg.assign(reinterpret_cast<char*>(b.data()), o.md.uiLength); }
    return o;
}
std::unique_ptr<oem::RangeDecompressor> fresh() { auto r = std::make_unique<oem::RangeDecompressor>(db().db); r->SetLoggerLevel(spdlog::level::off); return r; }
Hdr header(pbt::Src& s, unsigned id, unsigned week, double ms, unsigned source)
{
    Hdr h; h.usMessageId = uint16_t(id); h.ucMessageType = uint8_t(source); h.uiPortAddress = 32; h.usSequence = uint16_t(s.chance(1, 4) ? s.bits(16) : 0); h.ucIdleTime = uint8_t(s.draw(200)); h.uiTimeStatus = 180; h.usWeek = uint16_t(week); h.dMilliseconds = ms;
    h.uiReceiverStatus = uint32_t(s.bits(32)); h.uiMessageDefinitionCrc = uint32_t(s.bits(16)); h.usReceiverSwVersion = uint16_t(s.bits(16)); return h;
}
// the binary RANGE message around the body, whose header keeps everything but id and length
string checkFrame(const Out& o, const Hdr& in, const string& where)
{
    PBT_CHECK(o.st == ST::SUCCESS, where, "Decompress reports ", int(o.st));
    const string& m = o.msg; PBT_CHECK(m.size() >= 32, where, "RANGE message of ", m.size(), " bytes");
    PBT_EQ(int(o.md.usMessageId), 43, where, "message id in the metadata"); PBT_EQ(string(o.md.messageName), string("RANGE"), where, "name in the metadata"); PBT_EQ(int(o.md.eFormat), int(HF::BINARY), where, "format in the metadata"); PBT_EQ(o.md.uiHeaderLength, 28u, where, "header length in the metadata");
    Hdr h = in; h.usMessageId = 43; string want = refBinHeader(h, m.size() - 32, false);
    PBT_EQ(pbt::hex(m.substr(0, 28)), pbt::hex(want), where, "header of the RANGE message"); PBT_EQ(rng::at<uint32_t>(m, m.size() - 4), crc32ref(m.substr(0, m.size() - 4)), where, "CRC of the RANGE message");
    return m.substr(28, m.size() - 32);
}
Msgs genOne(pbt::Src& s, rng::State& st, vector<rng::Sat>& sats, double now, unsigned ms, unsigned source)
{
    switch (s.weighted({1, 2, 5, 2}))
    {
    case 0: return rng::gen1(s, s.chance(1, 20) ? 325 : 12);
    case 1: return rng::gen2(s, st, now, source, s.chance(1, 10) ? 20 : 5);
    case 2: return rng::gen45(s, st, sats, s.chance(1, 4) ? 1734 : 2050, now, ms, source);
    default: return rng::gen45(s, st, sats, 2537, now, ms, source);
    }
}
} // namespace
// a receiver's stream of compressed messages over time
PBT_GROUP(history, 50000, 600000)
{
    auto& s = src; auto r = fresh(); rng::State st; unsigned week = unsigned(s.range(1000, 2500)); double ms = s.chance(1, 6) ? 604799999.0 - double(s.draw(4000)) : double(s.draw(600000)) * 1000; if (s.coin()) ms = std::floor(ms / 1000) * 1000;
    double now = st.week(week, ms); auto sats = rng::sky(s, s.chance(1, 8) ? 40 : 6, now); size_t steps = s.size(1, 10), total = 0, versions = 0, diffs = 0; string log; unsigned seen = 0;
    const bool one = s.chance(1, 2); const unsigned only = s.pick({1273u, 2050u, 2050u, 2537u});
    for (size_t i = 0; i < steps; ++i)
    {
        const unsigned source = s.chance(1, 4); const unsigned sub = unsigned(std::fmod(ms, 1000.0));
        Msgs m = one ? (only == 1273 ? rng::gen2(s, st, now, source, 5) : rng::gen45(s, st, sats, only, now, sub, source)) : genOne(s, st, sats, now, sub, source);
        if (m.obs.size() > 325 || m.body.size() > 7900) throw pbt::Discard{};
        Hdr h = header(s, m.id, week, ms, source); string msg = rng::frame(h, m.body); log += " " + std::to_string(m.id) + "@" + num("%.0f", ms) + "/" + std::to_string(source) + ":" + std::to_string(m.obs.size());
        const string where = "message " + std::to_string(i) + " of" + log + ": "; Out o = decompress(*r, msg, 0x8000);
        string body = checkFrame(o, h, where); rng::checkRange(body, m.obs, where);
        total += m.obs.size(); diffs += sub != 0; if (!(seen & 1u << (m.id % 31))) { seen |= 1u << (m.id % 31); ++versions; } ctx.feed(msg);
        const double step = s.weighted({4, 2, 1}) == 0 ? double(s.pick({50, 100, 200, 250, 500})) : s.coin() ? 1000 - std::fmod(ms, 1000.0) : double(s.draw(200000)); ms += step; now += step; if (ms >= 604800000.0) { ms -= 604800000.0; ++week; ctx.label("week rollover"); }
        if (s.chance(1, 25)) { r->Reset(); st = {}; log += " reset"; ctx.label("reset"); }
    }
    ctx.mark(total >= 2); ctx.label(versions > 1 ? "several versions" : "one version"); if (diffs) ctx.label("between seconds"); ctx.note(log);
}
// the largest messages: up to the record limit
PBT_GROUP(large, 4000, 40000)
{
    auto& s = src; auto r = fresh(); rng::State st; const unsigned week = 2000; const double ms = 1000.0 * double(s.draw(600000)), now = st.week(week, ms); Msgs m;
    switch (s.draw(3)) { case 0: m = rng::gen1(s, 325); break; case 1: m = rng::gen2(s, st, now, 0, 40); break; default: { auto v = rng::sky(s, 150, now); m = rng::gen45(s, st, v, s.coin() ? 2050 : 2537, now, 0, 0); } }
    if (m.body.size() > 7800) throw pbt::Discard{};
    Hdr h = header(s, m.id, week, ms, 0); string msg = rng::frame(h, m.body); Out o = decompress(*r, msg, 0x8000);
    if (m.obs.size() > 325) { PBT_CHECK(o.st != ST::SUCCESS, "a message of ", m.obs.size(), " observations was accepted"); ctx.label("beyond the record limit"); }
    else { string b = checkFrame(o, h, "large: "); rng::checkRange(b, m.obs, "large: "); ctx.label(m.obs.size() > 150 ? "more than 150 observations" : "up to 150 observations"); }
    ctx.feed(msg); ctx.mark(m.obs.size() > 20); ctx.note("id=" + std::to_string(m.id) + " observations=" + std::to_string(m.obs.size()) + " bytes=" + std::to_string(m.body.size()));
}
// text forms and requested output formats agree with the binary path
PBT_GROUP(formats, 8000, 80000)
{
    auto& s = src; rng::State st; const unsigned week = 2100, source = s.chance(1, 4); const double ms = double(s.draw(604799)) * 1000 + (s.coin() ? 0 : 250), now = st.week(week, ms); auto sats = rng::sky(s, 5, now);
    Msgs m = s.coin() ? rng::gen45(s, st, sats, s.coin() ? 2050 : 2537, now, unsigned(std::fmod(ms, 1000.0)), source) : s.coin() ? rng::gen1(s, 10) : rng::gen2(s, st, now, source, 4);
    Hdr h = header(s, m.id, week, ms, source); h.usSequence = 0; string msg = rng::frame(h, m.body); auto base = fresh(); Out o = decompress(*base, msg, 0x8000); string body = checkFrame(o, h, "formats: "); rng::checkRange(body, m.obs, "formats: ");
    for (auto& x : m.obs) if (std::isnan(x.psr) || std::isnan(x.adr) || std::isnan(x.dop)) ctx.label("invalid measurements");
    oem::Encoder enc(db().db); oem::MessageDecoder dec(db().db); oem::HeaderDecoder hd(db().db);
    auto decodeBin = [&](const string& bin, Hdr& hh, ne::CompositeField& cf) { Exact e(bin); oem::MetaDataStruct md; md.uiLength = uint32_t(bin.size()); PBT_CHECK(hd.Decode(e.data(), hh, md) == ST::SUCCESS, "header"); ST d = dec.Decode(e.data() + md.uiHeaderLength, cf, md); PBT_CHECK(d == ST::SUCCESS, "decoding the binary message reports ", int(d)); };
    const EF ef = s.pick({EF::ASCII, EF::ABBREV_ASCII, EF::JSON, EF::BINARY}); const HF hf = ef == EF::ASCII ? HF::ASCII : ef == EF::ABBREV_ASCII ? HF::ABB_ASCII : ef == EF::JSON ? HF::JSON : HF::BINARY; Hdr rh; ne::CompositeField rc; decodeBin(o.msg, rh, rc);
    Encoded want = encode(enc, rh, rc, HF::BINARY, ef); PBT_CHECK(want.st == ST::SUCCESS, "encoding RANGE reports ", int(want.st));
    { auto r = fresh(); Out x = decompress(*r, msg, 0x8000, ef); PBT_CHECK(x.st == ST::SUCCESS, "Decompress to format ", int(ef), " reports ", int(x.st)); PBT_EQ(pbt::esc(x.msg), pbt::esc(want.msg), "requested format ", int(ef)); }
    // the compressed message itself in that form, decompressed in its own form
    bool nan = false; for (auto& x : m.obs) nan |= std::isnan(x.psr) || std::isnan(x.adr) || std::isnan(x.dop);
    if (ef == EF::ASCII || ef == EF::ABBREV_ASCII)
    {
        Hdr ch; ne::CompositeField cc; decodeBin(msg, ch, cc); Encoded c = encode(enc, ch, cc, HF::BINARY, ef); PBT_CHECK(c.st == ST::SUCCESS, "encoding the compressed message reports ", int(c.st));
        auto r = fresh(); Out x = decompress(*r, c.msg, 0x8000); PBT_CHECK(x.st == ST::SUCCESS, "Decompress of the text form reports ", int(x.st), ": ", pbt::esc(c.msg)); PBT_EQ(int(x.md.eFormat), int(hf), "format in the metadata");
        // the text header does not carry everything the binary one does
        Hdr th; { Exact e(c.msg); oem::MetaDataStruct md; md.uiLength = uint32_t(c.msg.size()); PBT_CHECK(hd.Decode(e.data(), th, md) == ST::SUCCESS, "text header"); } th.usMessageId = 43; Encoded w2 = encode(enc, th, rc, hf, ef);
        if (source) { ctx.label("secondary text"); }
        PBT_EQ(pbt::esc(x.msg), pbt::esc(w2.msg), "text form decompressed"); ctx.label("text in");
        auto r2 = fresh(); Out y = decompress(*r2, c.msg, 0x8000, EF::BINARY); PBT_CHECK(y.st == ST::SUCCESS, "Decompress of the text form to binary reports ", int(y.st)); PBT_CHECK(y.msg.size() == o.msg.size(), "binary from text has ", y.msg.size(), " bytes, from binary ", o.msg.size());
        PBT_EQ(pbt::hex(y.msg.substr(28, y.msg.size() - 32)), pbt::hex(body), "binary body from the text form");
    }
    ctx.feed(msg); ctx.mark(m.obs.size() >= 2); ctx.label(num("format %d", int(ef))); ctx.note("id=" + std::to_string(m.id) + " observations=" + std::to_string(m.obs.size()) + " format=" + std::to_string(int(ef)));
}
// cut short: what the message no longer holds is not reported
PBT_GROUP(truncated, 40000, 500000)
{
    auto& s = src; auto r = fresh(); rng::State st; const unsigned week = 2100; const double ms = double(s.draw(604799)) * 1000, now = st.week(week, ms); auto sats = rng::sky(s, 6, now); Msgs m = genOne(s, st, sats, now, 0, 0);
    if (m.obs.empty() || m.body.size() > 7900) throw pbt::Discard{};
    // whole elements of content at the end: the last 7 bits may be padding
    size_t cut = s.size(0, m.body.size() - 2); bool lie = s.coin() && cut >= 4 && m.id != 140; string body = m.body.substr(0, cut);
    if (lie) { body = body.substr(4); string b2; put(b2, body.size(), 4); body = b2 + body; }
    bool sats2 = m.id == 1273; if (lie && sats2) { // a cut between blocks may be a valid shorter message
        size_t p = 4; while (p + 10 <= body.size()) { size_t n = uint8_t(body[p + 9]) >> 4; p += 10 + n * 12; } if (p == body.size()) throw pbt::Discard{}; }
    Hdr h = header(s, m.id, week, ms, 0); string msg = rng::frame(h, body); size_t cap = s.coin() ? 0x8000 : msg.size() + s.size(0, 20000); Out o = decompress(*r, msg, cap);
    PBT_CHECK(o.st != ST::SUCCESS, "message ", m.id, " cut from ", m.body.size(), " to ", cut, " body bytes was accepted as ", o.msg.size(), " bytes"); 
    ctx.feed(msg); ctx.mark(cut >= 8); ctx.label(lie ? "count adjusted" : "count beyond the end"); ctx.note("id=" + std::to_string(m.id) + " cut " + std::to_string(cut) + " of " + std::to_string(m.body.size()) + " capacity " + std::to_string(cap));
}
// arbitrary and mutated payloads in buffers of every size
PBT_GROUP(damaged, 100000, 2000000)
{
    auto& s = src; auto r = fresh(); rng::State st; const unsigned week = 2100; double ms = double(s.draw(604799)) * 1000, now = st.week(week, ms); auto sats = rng::sky(s, 6, now); size_t steps = s.size(1, 4), big = 0; string log;
    for (size_t i = 0; i < steps; ++i)
    {
        Msgs m; unsigned source = s.chance(1, 4), sub = unsigned(std::fmod(ms, 1000.0));
        if (s.chance(2, 3)) { m = genOne(s, st, sats, now, sub, source); size_t k = s.draw(4); for (size_t j = 0; j < k && !m.body.empty(); ++j) { size_t p = s.coin() ? s.draw(std::min<size_t>(m.body.size() - 1, 40)) : s.draw(m.body.size() - 1); m.body[p] = s.coin() ? char(s.byte()) : char(m.body[p] ^ 1 << s.draw(7)); } if (s.chance(1, 4)) m.body.resize(s.draw(m.body.size())); }
        else { m.id = s.pick({140u, 1273u, 1734u, 2050u, 2537u}); size_t n = s.size(0, s.chance(1, 6) ? 7800 : 300); m.body = s.coin() ? s.bytes(n) : string(n, char(s.byte())); if (s.chance(3, 4) && n >= 4) { string b; put(b, m.id == 140 ? s.pick({uint64_t(n / 24), uint64_t(325), uint64_t(326), uint64_t(400)}) : s.pick({uint64_t(n - 4), uint64_t(n), uint64_t(7150), uint64_t(7151)}), 4); m.body.replace(0, 4, b); } }
        if (m.body.size() > 20000) m.body.resize(20000);
        Hdr h = header(s, m.id, week, ms, source); string msg = rng::frame(h, m.body); if (s.chance(1, 10)) msg.resize(s.range(28, msg.size()));
        size_t cap = s.chance(1, 3) ? 0x8000 : msg.size() + (s.coin() ? 0 : s.size(0, 3000)); if (cap < msg.size()) cap = msg.size();
        Out o = decompress(*r, msg, cap, s.pick({EF::UNSPECIFIED, EF::UNSPECIFIED, EF::ASCII, EF::BINARY, EF::JSON, EF::ABBREV_ASCII})); log += " " + std::to_string(m.id) + ":" + std::to_string(m.body.size()) + "->" + std::to_string(int(o.st)); big += m.body.size() >= 8; ctx.feed(msg);
        if (o.st == ST::SUCCESS && o.msg.compare(0, 3, "\xAA\x44\x12") == 0) { PBT_CHECK(o.msg.size() >= 36 && rng::at<uint32_t>(o.msg, 28) <= 325 && o.msg.size() == 36 + 44 * size_t(rng::at<uint32_t>(o.msg, 28)), "RANGE message of ", o.msg.size(), " bytes"); ctx.label("accepted"); } else ctx.label("refused");
        ms += s.pick({100, 250, 1000, 0}); now = st.week(week, ms);
    }
    ctx.mark(big > 0); ctx.note(log);
}
