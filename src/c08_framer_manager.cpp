// C08: single-format framers and the framer manager.
#include "drain.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii_short.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_binary_short.hpp"
using namespace fr;
using namespace novatel::edie;
PBT_PROPERTY("C08", "random subsets and orders of registered framers over streams of valid frames of the registered formats separated by inert bytes, and wild streams for every single-format framer, under random chunking; "
                    "non-trivial = frames of at least two formats (manager) or at least one frame (single framer)")
namespace {
const std::vector<std::pair<std::string, std::vector<Kind>>> FR = {{"OEM", {BIN, SBIN, PROP, ASC, SASC, ABB, RESP, NMEA}}, {"OEM_ASCII", {ASC}}, {"OEM_ASCII_SHORT", {SASC}}, {"OEM_BINARY", {BIN}}, {"OEM_BINARY_SHORT", {SBIN}}, {"OEM_ABB_ASCII", {ABB, RESP}}};
template <typename F> STATUS call(F& f, unsigned char* b, uint32_t n, MetaDataStruct& md, uint32_t& len, HEADER_FORMAT& fmt, bool& resp)
{
    if constexpr (std::is_same_v<F, FramerManager>) { MetaDataBase* p = &md; STATUS s = f.GetFrame(b, n, p); len = p->uiLength; fmt = p->eFormat; resp = p->bResponse; return s; }
    else { STATUS s = f.GetFrame(b, n, md); len = md.uiLength; fmt = md.eFormat; resp = md.bResponse; return s; }
}
struct Opt { bool report = true; const std::vector<std::string>* names = nullptr; };
// frames `in`, checks conservation call by call
template <typename F> std::vector<Item> frameAll(F& f, pbt::Src& src, const std::string& in, const Opt& o = {})
{
    const size_t cap = f.GetAvailableSpace(); static std::unique_ptr<unsigned char[]> buf(new unsigned char[1 << 17]); MetaDataStruct md; std::vector<Item> out; size_t w = 0, pos = 0;
    f.SetReportUnknownBytes(o.report);
    auto drain = [&] {
        for (size_t calls = 0;; ++calls)
        {
            PBT_CHECK(calls < in.size() + 10, "does not terminate"); const size_t before = cap - f.GetAvailableSpace(); uint32_t len; HEADER_FORMAT fmt; bool resp;
            std::memset(buf.get(), 0xC8, 64);
            STATUS st = call(f, buf.get(), 1 << 17, md, len, fmt, resp); const size_t taken = before - (cap - f.GetAvailableSpace());
            if (st == STATUS::INCOMPLETE || st == STATUS::BUFFER_EMPTY) { PBT_EQ(taken, size_t{0}); PBT_CHECK(st != STATUS::BUFFER_EMPTY || before == 0, "empty"); return; }
            PBT_CHECK(st == STATUS::SUCCESS || st == STATUS::UNKNOWN, "status ", static_cast<int>(st)); PBT_CHECK(taken > 0 && taken == len, "length ", len, " consumed ", taken);
            if (st == STATUS::SUCCESS || o.report) PBT_CHECK(std::memcmp(buf.get(), in.data() + pos, len) == 0, "bytes differ at ", pos); else PBT_CHECK(buf[0] == 0xC8, "unknown bytes delivered although switched off");
            if (st == STATUS::SUCCESS) { out.push_back({true, in.substr(pos, len), fmt, resp, len});
                if constexpr (std::is_same_v<F, FramerManager>) { const std::string who = f.GetActiveFramerName(); bool ok = false; for (auto& p : FR) if (p.first == who) for (Kind k : p.second) ok = ok || fmtOf(k) == fmt; PBT_CHECK(ok, "frame of format ", static_cast<int>(fmt), " attributed to ", who); PBT_EQ(f.GetActiveFramerId(), FramerManager::GetFramerId(who)); } }
            else addUnknown(out, in.substr(pos, len));
            pos += len;
        }
    };
    for (size_t c : chunks(src, in.size())) { PBT_EQ(static_cast<size_t>(f.Write(reinterpret_cast<const unsigned char*>(in.data()) + w, c)), c, "write"); w += c; drain(); }
    std::string t = flushAll(f, in.size()); PBT_EQ(t.size(), in.size() - pos, "flush length"); if (o.report) PBT_CHECK(t == in.substr(pos), "flushed bytes");
    addUnknown(out, in.substr(pos));
    PBT_EQ(f.GetAvailableSpace(), cap, "flush empties the buffer");
    return out;
}
std::vector<Item> build(pbt::Src& src, const std::vector<Kind>& kinds, size_t nmax, bool big, std::string& in, unsigned& seen)
{
    std::vector<Item> e; size_t n = src.size(1, nmax);
    for (size_t i = 0; i < n; ++i)
    {
        if (src.chance(2, 3)) { std::string u = inert(src, src.size(0, src.chance(1, 10) ? 600 : 30)); in += u; addUnknown(e, u); }
        Kind k = src.pick(kinds); Frame f = frame(src, k, big); if (in.size() + f.bytes.size() > 180000) break; in += f.bytes; e.push_back({true, f.bytes, fmtOf(k), k == RESP}); seen |= 1u << k;
    }
    std::string u = inert(src, src.size(3, 20)); in += u; addUnknown(e, u); return e;
}
template <typename F> void single(pbt::Src& src, pbt::Ctx& ctx, const std::vector<Kind>& kinds, bool wild, bool big)
{
    F f; std::string in; Opt o; o.report = !src.chance(1, 4);
    if (wild)
    {
        in = wildStream(src, src.size(1, 10), false); if (in.empty()) throw pbt::Discard{};
        auto v = frameAll(f, src, in, o);
        for (auto& i : v) if (i.frame)
        {
            bool mine = false; for (Kind k : kinds) mine |= fmtOf(k) == i.fmt; PBT_CHECK(mine, "foreign format ", static_cast<int>(i.fmt));
            std::string why = invalid(i.bytes, i.fmt, i.resp, true); PBT_CHECK(why.empty(), "invalid frame delivered: ", why, " | ", pbt::esc(i.bytes, 200)); ctx.mark(true);
        }
    }
    else
    {
        unsigned seen = 0; auto e = build(src, kinds, 6, big, in, seen); auto v = frameAll(f, src, in, o);
        std::string d = same(e, v); PBT_CHECK(d.empty(), "expected vs got: ", d, " | ", pbt::esc(in, 300)); ctx.mark(true);
    }
    ctx.feed(in); ctx.note(pbt::esc(in, 100));
}
void pickSingle(pbt::Src& src, pbt::Ctx& ctx, bool wild, bool big)
{
    switch (src.draw(4))
    {
    case 0: single<oem::FramerAscii>(src, ctx, {ASC}, wild, big); ctx.label("ascii"); break;
    case 1: single<oem::FramerAsciiShort>(src, ctx, {SASC}, wild, big); ctx.label("short ascii"); break;
    case 2: single<oem::FramerBinary>(src, ctx, {BIN}, wild, big); ctx.label("binary"); break;
    case 3: single<oem::FramerBinaryShort>(src, ctx, {SBIN}, wild, big); ctx.label("short binary"); break;
    default: single<oem::FramerAbbAscii>(src, ctx, {ABB, RESP}, wild, big); ctx.label("abb ascii");
    }
}
void manager(pbt::Src& src, pbt::Ctx& ctx, bool big)
{
    std::vector<std::string> names; std::vector<Kind> kinds;
    if (src.chance(1, 6)) { names = {"OEM"}; kinds = FR[0].second; }
    else
    {
        std::vector<size_t> idx = {1, 2, 3, 4, 5}; for (size_t i = 4; i > 0; --i) std::swap(idx[i], idx[src.draw(i)]);
        for (size_t i : idx) if (src.chance(3, 4)) { names.push_back(FR[i].first); kinds.insert(kinds.end(), FR[i].second.begin(), FR[i].second.end()); }
        if (names.empty()) { names = {"OEM_ASCII"}; kinds = {ASC}; }
    }
    FramerManager f(names); for (auto& n : names) { PBT_CHECK(f.GetFramerEntry(n) && f.GetMetaData(n), "framer ", n, " not registered"); }
    std::string in; unsigned seen = 0; Opt o; o.report = !src.chance(1, 4); auto e = build(src, kinds, 8, big, in, seen); auto v = frameAll(f, src, in, o);
    std::string d = same(e, v); PBT_CHECK(d.empty(), "framers ", names.size(), " first ", names[0], ": expected vs got: ", d, " | ", pbt::esc(in, 300));
    ctx.mark((seen & (seen - 1)) != 0); ctx.label("framers " + std::to_string(names.size())); ctx.feed(in); ctx.note(pbt::esc(in, 100));
}
}
PBT_GROUP(single_valid, 30000, 1000000) { pickSingle(src, ctx, false, false); }
PBT_GROUP(single_wild, 40000, 1500000) { pickSingle(src, ctx, true, false); }
PBT_GROUP(single_big, 1000, 20000) { pickSingle(src, ctx, false, true); }
PBT_GROUP(manager_valid, 20000, 800000) { manager(src, ctx, false); }
PBT_GROUP(manager_big, 400, 10000) { manager(src, ctx, true); }
PBT_GROUP(manager_wild, 10000, 400000)
{
    std::vector<std::string> names; for (size_t i = 1; i < FR.size(); ++i) if (src.chance(2, 3)) names.push_back(FR[i].first); if (src.chance(1, 5)) names = {"OEM"};
    FramerManager f(names); std::string in = wildStream(src, src.size(1, 8), false); if (in.empty()) throw pbt::Discard{};
    if (names.empty()) { return; }
    auto v = frameAll(f, src, in); for (auto& i : v) if (i.frame) { std::string why = invalid(i.bytes, i.fmt, i.resp, true); PBT_CHECK(why.empty(), "invalid frame delivered: ", why, " | ", pbt::esc(i.bytes, 200)); ctx.mark(true); }
    ctx.feed(in); ctx.note(pbt::esc(in, 100));
}
PBT_GROUP(length_limit, 150, 3000)
{
    const bool shrt = src.coin(), abb = src.chance(1, 3); const size_t total = MAXMSG - 6 + src.size(0, 14) + (src.chance(1, 6) ? 5000 : 0); std::string lead = abb ? src.pick<std::string>({"<OK", "<AB\r\n< ", "<AB\r\n< aaa\r\n< "}) : shrt ? "%" : "#";
    std::string in = lead + std::string(total - lead.size() - (abb ? 2 : 11), src.pick<char>({'a', '*'})); if (!abb) { noTrailer(in); in += "*" + crcHex(crc32(in, 1, in.size())); } in += "\r\n"; const size_t msg = in.size(); in += "yyyy";
    std::vector<Item> v; if (abb) { oem::FramerAbbAscii f; v = frameAll(f, src, in); } else if (shrt) { oem::FramerAsciiShort f; v = frameAll(f, src, in); } else { oem::FramerAscii f; v = frameAll(f, src, in); }
    bool got = false; for (auto& i : v) { if (i.frame) { std::string why = invalid(i.bytes, i.fmt, i.resp, true); PBT_CHECK(why.empty(), why); } got |= i.frame && i.bytes.size() == msg; }
    PBT_EQ(got, msg <= MAXMSG, "message of ", msg, " bytes, lead ", lead); ctx.mark(msg > MAXMSG); ctx.feed(msg); ctx.feed(lead);
}
