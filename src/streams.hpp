// Messages, responses and streams of given databases, and everything the components make of them as text.
#pragma once
#include "casegen.hpp"
#include "rangemsg.hpp"
#include "frames.hpp"
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"
namespace streams {
using namespace model; using ST = ne::STATUS; using EF = ne::ENCODE_FORMAT; using HF = ne::HEADER_FORMAT;
inline void addRx(Db& d)
{
    for (auto [n, id] : {std::pair<const char*, unsigned>{"RXCONFIG", 128}, {"RXCONFIGUSER", 2474}})
    { Fld f; f.name = "msg"; f.kind = K::VAR; f.dt = "UCHAR"; f.len = 1; f.conv = "%R"; f.arr = 30000; Msg m; m.name = n; m.id = id; m.latest = 63234; m.defs = {{m.latest, {f}}}; d.msgs.push_back(m); }
}
inline bool special(const Msg& m) { return m.id == 43 || m.id == 128 || m.id == 140 || m.id == 1273 || m.id == 1734 || m.id == 2050 || m.id == 2474 || m.id == 2537; }
inline const Msg& ordinary(Src& s, const Db& d) { vector<const Msg*> v; for (auto& m : d.msgs) if (!special(m)) v.push_back(&m); return *v[s.draw(v.size() - 1)]; }
inline string response(Src& s, const Db& d, int form)
{
    const Msg& m = ordinary(s, d); HdrOpt ho; ho.response = true; Hdr h = genHdr(s, d, m, ho); h.ucMessageType |= 0x80; auto* re = d.byName("Responses"); auto& v = re->vals[s.draw(re->vals.size() - 1)]; string b;
    if (form == 0) { put(b, s.chance(1, 4) ? uint32_t(s.draw(20)) : v.first, 4); b += v.second; string r = refBinHeader(h, b.size(), false) + b; put(r, crc32ref(r), 4); return r; }
    if (form == 1) { b = refTextHeader(d, h, T::ASCII, false) + (v.second == "OK" ? "OK" : (s.coin() ? "ERROR:desc " : "ERROR:") + v.second); return b + num("*%08x\r\n", crc32ref(b.substr(1))); }
    return v.second == "OK" ? "<OK\r\n" : (s.coin() ? "<ERROR:desc " : "<ERROR:") + v.second + "\r\n";
}
// a message of database d in any form (without the JSON form unless asked for)
inline string message(Src& s, const Db& d, const Opt& o, bool json)
{
    if (s.chance(1, 3)) return response(s, d, int(s.draw(2)));
    const Msg& m = ordinary(s, d); int form = int(s.draw(json ? 5 : 4)); bool sh = form < 4 && (form & 1); HdrOpt ho; ho.shortForm = sh; Hdr h = genHdr(s, d, m, ho); if (form == 4) h.ucMessageType &= 0x1f;
    uint32_t crc = m.defs[s.draw(m.defs.size() - 1)].first; if (sh) { crc = m.latest; for (auto& [k, f] : m.defs) if (k == 0) crc = 0; } else h.uiMessageDefinitionCrc = hdrCrcFor(s, m, crc);
    const Fields* fs = nullptr; for (auto& [k, f] : m.defs) if (k == crc) fs = &f;
    Body b = genBody(s, *fs, o, d); string r;
    if (form < 2) r = refBinMsg(h, *fs, b, false, sh); else r = refTextMsg(d, h, *fs, b, form < 4 ? T::ASCII : form == 4 ? T::ABB : T::JSON, sh);
    if (r.size() > 20000 || (sh && form < 2 && r.size() > 12 + 255 + 4)) throw pbt::Discard{};
    return r;
}
inline HF formOf(const string& m) { return m[0] == '{' ? HF::JSON : HF::UNKNOWN; }
inline string metaText(const oem::MetaDataStruct& m) { return num(" meta %d/%d/%u/%.3f/%u/%u/%u/%u/%x/", m.bResponse, int(m.eFormat), m.usWeek, m.dMilliseconds, m.uiLength, m.uiBinaryMsgLength, m.uiHeaderLength, m.usMessageId, m.uiMessageCrc) + m.messageName + num("/%u/%d", m.ucSiblingId, int(m.eTimeStatus)); }
inline string hdrText(const Hdr& h) { return num(" header %u/%u/%u/%u/%u/%u/%u/%u/%.3f/%x/%x/%u", h.usMessageId, h.ucMessageType, h.uiPortAddress, h.usLength, h.usSequence, h.ucIdleTime, h.uiTimeStatus, h.usWeek, h.dMilliseconds, h.uiReceiverStatus, h.uiMessageDefinitionCrc, h.usReceiverSwVersion); }
inline string slice(const ne::MessageDataStruct& m) { return m.pucMessage ? string(reinterpret_cast<const char*>(m.pucMessage), m.uiMessageLength) : string(); }
inline const EF EFS[] = {EF::ASCII, EF::ABBREV_ASCII, EF::BINARY, EF::JSON};
// everything the three stages make of a message, as text
struct Stages
{
    oem::HeaderDecoder hd; oem::MessageDecoder md; oem::Encoder en;
    explicit Stages(ne::MessageDatabase::Ptr p) : hd(p), md(p), en(p) {}
    void load(ne::MessageDatabase::Ptr p) { hd.LoadJsonDb(p); md.LoadJsonDb(p); en.LoadJsonDb(p); }
    string use(const string& msg, bool& ok)
    {
        Exact b(msg + '\0'); oem::MetaDataStruct m; m.uiLength = uint32_t(msg.size()); Hdr h; string r; ok = false;
        try
        {
            ST st = hd.Decode(b.data(), h, m); r = "status " + std::to_string(int(st)); if (st != ST::SUCCESS) return r;
            r += hdrText(h) + metaText(m); ne::CompositeField cf; st = md.Decode(b.data() + m.uiHeaderLength, cf, m); r += " body " + std::to_string(int(st)); if (st != ST::SUCCESS) return r;
            ok = true;
            if (auto fi = cf.GetFieldInfo()) for (auto& f : fi->messageOrderedFields) r += " " + f->name + "(" + f->conversion + ")";
            for (EF ef : EFS) { auto e = encode(en, h, cf, m.eFormat, ef, 100000); r += " encoded " + std::to_string(int(e.st)) + (e.st == ST::SUCCESS ? "[" + pbt::esc(e.msg, 100000) + "]" : ""); }
        }
        catch (const std::exception& e) { r += string(" throws ") + e.what(); }
        return r;
    }
};
// everything a parser reads from a stream, as text
template <class P> string drain(P& p, bool read, ST end)
{
    string r;
    try
    {
        for (int guard = 0; guard < 5000; ++guard)
        {
            ne::MessageDataStruct data; oem::MetaDataStruct meta; Hdr h; ne::CompositeField cf; ST st = read ? p.Read(data, meta) : p.ReadIntermediate(data, h, cf, meta); if (st == end) return r;
            r += "\nstatus " + std::to_string(int(st)) + " [" + pbt::esc(slice(data), 100000) + "]"; if (st == ST::SUCCESS || st == ST::NO_DEFINITION) { r += metaText(meta); if (!read) { r += hdrText(h); if (st == ST::SUCCESS) for (auto& f : cf.GetFieldInfo()->messageOrderedFields) r += " " + f->name + "(" + f->conversion + ")"; } }
        }
    }
    catch (const std::exception& e) { r += string(" throws ") + e.what(); }
    return r;
}
inline string streamOf(Src& s, const vector<Db>& ds, int cur, const Opt& o, bool rx, bool ranges)
{
    string t; rng::State rs; unsigned week = unsigned(s.range(1000, 2500)); double ms = double(s.draw(600000)) * 1000;
    for (size_t i = 0, n = s.size(1, 5); i < n; ++i)
    {
        const Db& from = s.chance(3, 4) ? ds[cur] : ds[s.draw(2)]; string m;
        if (ranges && s.chance(1, 3)) { rng::Msgs r = s.coin() ? rng::gen1(s, 4) : rng::gen2(s, rs, rs.week(week, ms), 0, 3); Hdr h; h.usMessageId = uint16_t(r.id); h.uiPortAddress = 32; h.uiTimeStatus = 180; h.usWeek = uint16_t(week); h.dMilliseconds = ms; m = rng::frame(h, r.body); }
        else if (rx && s.chance(1, 3))
        {
            const Msg& em = ordinary(s, from); HdrOpt ho; Hdr h = genHdr(s, from, em, ho), out = genHdr(s, from, *from.byId(128), ho); uint32_t crc = em.latest; h.uiMessageDefinitionCrc = hdrCrcFor(s, em, crc); out.uiMessageDefinitionCrc = 63234; const Fields* fs = nullptr; for (auto& [k, f] : em.defs) if (k == crc) fs = &f;
            Body b = genBody(s, *fs, o, from); string inner;
            if (s.coin()) { string body; refBinary(body, *fs, b, false); inner = refBinHeader(h, body.size(), false) + body; put(inner, ~crc32ref(inner), 4); m = refBinHeader(out, inner.size(), false) + inner; put(m, crc32ref(m), 4); }
            else { inner = refTextMsg(from, h, *fs, b, T::ASCII, false); inner = inner.substr(0, inner.size() - 10); inner += num("%08x", ~crc32ref(inner.substr(1, inner.size() - 2))); m = refTextHeader(from, out, T::ASCII, false) + inner; m += num("*%08x\r\n", crc32ref(m.substr(1))); }
        }
        else m = message(s, from, o, false);
        t += m; if (t.size() > 28000) throw pbt::Discard{};
    }
    return t + "[COM1]";
}
inline size_t decoded(const string& r) { size_t n = 0; for (size_t p = 0; (p = r.find("\nstatus 0 ", p)) != string::npos; ++p) ++n; return n; }
template <class P> void options(P& p, bool unknown, bool ignore, EF ef) { p.SetReturnUnknownBytes(unknown); p.SetIgnoreAbbreviatedAsciiResponses(ignore); p.SetEncodeFormat(ef); p.SetDecompressRangeCmp(true); p.SetLoggerLevel(spdlog::level::off); }
} // namespace streams
