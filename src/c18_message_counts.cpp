// C18: message counts equal the messages decoded since the last reset, per message id, format and sibling.
// LIBS: common dcommon oem
#include "casegen.hpp"
#include "novatel_edie/decoders/common/message_counts_tracker.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
using namespace model;
using HF = ne::HEADER_FORMAT; using Key = std::tuple<uint16_t, HF, uint8_t>; using Counts = std::map<std::tuple<unsigned, int, unsigned>, uint64_t>;
PBT_PROPERTY("C18", "histories of header decoding (valid headers in the eight forms, malformed ones, abbreviated responses, unknown and zero ids), resets, snapshots and copies of the decoder, and histories of the generic counter over several key types, "
                    "against a plain map; non-trivial = at least one key counted more than once and at least two keys")
template <class M> static Counts plain(const M& m) { Counts c; for (auto& [k, v] : m) c[{std::get<0>(k), int(std::get<1>(k)), std::get<2>(k)}] = v; return c; }
static string show(const Counts& c) { string o; for (auto& [k, v] : c) o += num(" (%u,%d,%u)=%llu", std::get<0>(k), std::get<1>(k), std::get<2>(k), (unsigned long long)v); return o; }
static bool interesting(const Counts& c) { bool twice = false; for (auto& [k, v] : c) twice |= v > 1; return twice && c.size() > 1; }
struct Head { string text; HF f; unsigned id, sib; bool counts; };
// a header in one of the eight forms; the id may be unknown or zero in the binary forms
static Head genHead(Src& s, const Db& d, vector<Hdr>& pool)
{
    Head r; Hdr h; auto& m = d.msgs[s.draw(d.msgs.size() - 1)]; h.usMessageId = uint16_t(m.id); h.usWeek = uint16_t(s.draw(3000)); h.dMilliseconds = double(s.draw(604799999));
    if (!pool.empty() && s.coin()) h = s.pick(pool); else { h.ucMessageType = uint8_t(s.chance(1, 3) ? s.draw(31) : s.draw(1)); if (s.chance(1, 5)) h.ucMessageType |= 0x80; pool.push_back(h); }
    h.uiPortAddress = 32; h.uiTimeStatus = 180; int f = int(s.draw(7)); bool sh = f & 1;
    if (f / 2 == 1) h.ucMessageType &= 0x1f;
    switch (f / 2)
    {
    case 0: r.text = refTextHeader(d, h, T::ASCII, sh) + "1*00000000\r\n"; r.f = sh ? HF::SHORT_ASCII : HF::ASCII; break;
    case 1: r.text = refTextHeader(d, h, T::ABB, sh) + "<     1\r\n"; r.f = sh ? HF::SHORT_ABB_ASCII : HF::ABB_ASCII; break;
    case 2: if (s.chance(1, 4)) h.usMessageId = uint16_t(s.pick({0, 1, 65535, 700})); r.text = refBinHeader(h, 0, sh); r.f = sh ? HF::SHORT_BINARY : HF::BINARY; if (sh) h.ucMessageType = 0; break;
    default: r.text = "{\"header\": " + refTextHeader(d, h, T::JSON, sh) + ",\"body\": {}}"; r.f = HF::JSON;
    }
    r.id = h.usMessageId; r.sib = h.ucMessageType & 0x1f; r.counts = r.id > 0;
    return r;
}
PBT_GROUP(decoder, 60000, 800000)
{
    Opt o; o.maxFields = 1; o.depth = 0; Db d = genDb(src, o, src.size(1, 3)); oem::HeaderDecoder hd(d.db); Counts m, snapM; oem::HeaderDecoder::MessageCountsMap snap; vector<Hdr> pool; string log;
    Hdr h; oem::MetaDataStruct md; size_t n = src.size(3, 30); bool nt = false;
    for (size_t i = 0; i < n; ++i)
    {
        switch (src.weighted({12, 3, 1, 2}))
        {
        case 0: {
            auto x = genHead(src, d, pool); md.uiLength = uint32_t(x.text.size()); std::unique_ptr<unsigned char[]> b(new unsigned char[x.text.size()]); memcpy(b.get(), x.text.data(), x.text.size());
            auto st = hd.Decode(b.get(), h, md); PBT_CHECK(st == ne::STATUS::SUCCESS, "status ", int(st), " for \"", pbt::esc(x.text), "\"");
            if (x.counts) ++m[{x.id, int(x.f), x.sib}];
            log += num(" decode(%u,%d,%u)", x.id, int(x.f), x.sib); break;
        }
        case 1: {
            string t; switch (src.draw(4)) { case 0: t = "<OK\r\n"; break; case 1: t = "#" + d.msgs[0].name + "A,COM1,x,\r\n"; break; case 2: t = "$GPGGA,,*00\r\n"; break; case 3: t = "%" + d.msgs[0].name + "A,70000,1.0;1*00000000\r\n"; break; default: t = "{\"header\":\r\n"; }
            md.uiLength = uint32_t(t.size()); auto b = std::make_unique<unsigned char[]>(t.size()); memcpy(b.get(), t.data(), t.size()); (void)hd.Decode(b.get(), h, md); log += " other"; ctx.label("uncounted header"); break;
        }
        case 2: hd.ResetMessageCounts(); nt |= interesting(m); m.clear(); log += " reset"; ctx.label("reset"); break;
        default: snap = hd.GetMessageCounts(); snapM = m; log += " snapshot"; break;
        }
        PBT_CHECK(plain(hd.GetMessageCounts()) == m, "counts", show(plain(hd.GetMessageCounts())), " instead of", show(m), " after", log);
        PBT_CHECK(plain(snap) == snapM, "a snapshot changed to", show(plain(snap)), " instead of", show(snapM), " after", log);
    }
    ctx.feed(log); ctx.mark(nt || interesting(m));
}
template <class K, class H, class G> static void tracker(Src& src, pbt::Ctx& ctx, G gen)
{
    ne::MessageCountsTracker<K, H> t, other; std::map<K, uint64_t> m, om; auto same = [](auto& u, auto& v) { return std::map<K, uint64_t>(u.begin(), u.end()) == v; };
    size_t n = src.size(2, 60); bool twice = false; string log;
    for (size_t i = 0; i < n; ++i)
    {
        switch (src.weighted({20, 1, 1, 1}))
        {
        case 0: { K k = gen(src); t.Increment(k); twice |= ++m[k] > 1 && m.size() > 1; log += "i"; break; }
        case 1: t.Reset(); m.clear(); log += "r"; break;
        case 2: other = t; om = m; log += "c"; break; // a copy is independent
        default: std::swap(t, other); std::swap(m, om); log += "s"; break;
        }
        PBT_CHECK(same(t.GetCounts(), m), "counter differs from the map after ", log); PBT_CHECK(same(other.GetCounts(), om), "copied counter differs from the map after ", log);
    }
    ctx.feed(log); ctx.mark(twice);
}
PBT_GROUP(tracker_ids, 80000, 1000000) { tracker<uint16_t, std::hash<uint16_t>>(src, ctx, [](Src& s) { return uint16_t(s.chance(1, 4) ? s.edgy(16) : s.draw(5)); }); }
PBT_GROUP(tracker_names, 80000, 1000000) { tracker<string, std::hash<string>>(src, ctx, [](Src& s) { return s.over("AB", s.draw(3)); }); }
PBT_GROUP(tracker_keys, 80000, 1000000)
{ // the keys of the header decoder: every component tells keys apart
    tracker<Key, oem::HeaderDecoder::MessageCountsKeyHash>(src, ctx, [](Src& s) { return Key{uint16_t(s.pick({1, 2, 257, 65535})), s.pick({HF::ASCII, HF::BINARY, HF::JSON, HF::SHORT_BINARY}), uint8_t(s.pick({0, 1, 2, 31}))}; });
}
PBT_GROUP(parser, 12000, 150000)
{ // the counts of a parser are those of the headers in its stream, whatever its filter selects, and survive chunking
    Opt o; o.maxFields = 2; o.depth = 0; o.text = true; Db d = genDb(src, o, src.size(1, 2)); oem::Parser p(d.db); Counts m; string stream; size_t n = src.size(1, 8);
    auto filter = std::make_shared<oem::Filter>(); if (src.coin()) { filter->IncludeMessageId(uint32_t(d.msgs[0].id)); p.SetFilter(filter); }
    for (size_t i = 0; i < n; ++i)
    {
        auto& msg = d.msgs[src.draw(d.msgs.size() - 1)]; HdrOpt ho; ho.shortForm = src.chance(1, 3); Hdr h = genHdr(src, d, msg, ho); uint32_t crc = msg.latest; if (!ho.shortForm) h.uiMessageDefinitionCrc = hdrCrcFor(src, msg, crc);
        const Fields* fs = nullptr; for (auto& [k, f] : msg.defs) if (k == crc) fs = &f;
        if (ho.shortForm) for (auto& [k, f] : msg.defs) if (k == 0) fs = &f;
        Body b = genBody(src, *fs, o, d); string t = refBinMsg(h, *fs, b, false, ho.shortForm); if (ho.shortForm && t.size() > 12 + 255 + 4) throw pbt::Discard{};
        stream += t; ++m[{unsigned(h.usMessageId), int(ho.shortForm ? HF::SHORT_BINARY : HF::BINARY), ho.shortForm ? 0u : unsigned(h.ucMessageType & 0x1f)}];
    }
    size_t at = 0; Counts before;
    while (at < stream.size())
    {
        size_t k = 1 + src.draw(stream.size() - at - 1 < 400 ? stream.size() - at - 1 : 400); p.Write(reinterpret_cast<const unsigned char*>(stream.data()) + at, k); at += k;
        ne::MessageDataStruct x; oem::MetaDataStruct md; ne::STATUS st; int guard = 0;
        do { st = p.Read(x, md); } while (st != ne::STATUS::BUFFER_EMPTY && ++guard < 1000 && st != ne::STATUS::INCOMPLETE);
    }
    PBT_CHECK(plain(p.GetMessageCounts()) == m, "parser counts", show(plain(p.GetMessageCounts())), " instead of", show(m));
    p.ResetMessageCounts(); PBT_CHECK(p.GetMessageCounts().empty(), "counts after a reset"); ctx.feed(stream); ctx.mark(interesting(m));
}
