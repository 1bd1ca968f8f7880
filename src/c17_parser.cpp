// C17: the parser and the file parser give what framing, header decoding, filtering, decoding and encoding give by hand, whatever the chunking.
// LIBS: common dcommon oem
#include "casegen.hpp"
#include "frames.hpp"
#include "rangemsg.hpp"
#include "streams.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/filter.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
using namespace model;
using HF = ne::HEADER_FORMAT; using ST = ne::STATUS;
PBT_PROPERTY("C17", "streams of generated messages of one database in all forms, unknown and undecodable messages, responses, corrupted messages and inert bytes, under random parser options, filters, encode formats, chunkings and read points; compared item by item "
                    "with a hand-written composition of fresh framer, decoders, filter and encoder, with the list of messages put in, with a reused parser after a flush, and with the file parser before and after a reset; non-trivial = at least two decoded messages");

struct Cfg { bool unknown = true, ignore = true, decompress = true, read = false; ne::ENCODE_FORMAT enc = ne::ENCODE_FORMAT::ASCII; oem::Filter::Ptr filter; };
struct Out { ST st; string raw, body, enc; Hdr h; Body b; HF fmt = HF::UNKNOWN; unsigned id = 0; string name; };
using Counts = std::map<std::tuple<unsigned, int, unsigned>, uint64_t>;
template <class M> static Counts plain(const M& m) { Counts c; for (auto& [k, v] : m) c[{std::get<0>(k), int(std::get<1>(k)), std::get<2>(k)}] = v; return c; }
static Body valuesOf(const ne::CompositeField& cf, const Db& d, const Hdr& h)
{
    auto fi = cf.GetFieldInfo(); if (!fi) return {};
    auto* m = d.byId(h.usMessageId);
    if (m && !(h.ucMessageType & 0x80))
    {   // the definition with the CRC of the header, or the latest one
        const Fields* fs = nullptr; for (auto& [c, f] : m->defs) if (c == m->latest) fs = &f;
        for (auto& [c, f] : m->defs) if (c == h.uiMessageDefinitionCrc) fs = &f;
        return extract(cf, *fs, *fi);
    }
    Body b; for (auto& f : fi->messageOrderedFields) { Val v; addVariant(v, cf.GetFieldValueVariant(*f)); b.push_back(v); } // responses
    return b;
}
static string hdrText(const Hdr& h) { return num("%u/%u/%u/%u/%u/%u/%u/%u/%.3f/%x/%x/%u", h.usMessageId, h.ucMessageType, h.uiPortAddress, h.usLength, h.usSequence, h.ucIdleTime, h.uiTimeStatus, h.usWeek, h.dMilliseconds, h.uiReceiverStatus, h.uiMessageDefinitionCrc, h.usReceiverSwVersion); }
static string bodyText(const Body& b) { string o; for (auto& v : b) { for (auto e : v.e) o += num("%llx,", (unsigned long long)e); o += "'" + v.s + "'"; for (auto& r : v.rows) o += "[" + bodyText(r) + "]"; o += ";"; } return o; }
static string text(const Out& o)
{
    if (o.st == ST::UNKNOWN) return "unknown[" + pbt::esc(o.raw, 100000) + "]";
    return "status " + std::to_string(int(o.st)) + " fmt " + std::to_string(int(o.fmt)) + " id " + std::to_string(o.id) + " " + o.name + " raw[" + pbt::esc(o.raw, 100000) + "] body[" + pbt::esc(o.body, 100000) + "] header " + hdrText(o.h) + " values " + bodyText(o.b) + " encoded[" + pbt::esc(o.enc, 100000) + "]";
}
static void add(vector<Out>& v, Out o)
{
    if (o.st == ST::UNKNOWN) { if (o.raw.empty()) return; if (!v.empty() && v.back().st == ST::UNKNOWN) { v.back().raw += o.raw; return; } }
    v.push_back(std::move(o));
}
// ---- the stages applied by hand
struct Hand
{
    const Db& d; Cfg c; oem::Framer f; oem::HeaderDecoder hd; oem::MessageDecoder md; oem::Encoder en; oem::MetaDataStruct meta; std::unique_ptr<unsigned char[]> buf{new unsigned char[32768]};
    vector<Out> out; string leftover; std::unique_ptr<oem::RangeDecompressor> rd;
    Hand(const Db& d_, const Cfg& c_) : d(d_), c(c_), hd(d_.db), md(d_.db), en(d_.db) {}
    void frame(const string& raw, bool terminated = false)
    {
        if (meta.bResponse && meta.eFormat == HF::ABB_ASCII && c.ignore) return;
        Out o; o.raw = raw; Exact x(terminated ? raw + '\0' : raw);
        auto unknown = [&] { if (!c.unknown) return; o.st = ST::UNKNOWN; add(out, o); };
        if (hd.Decode(x.data(), o.h, meta) != ST::SUCCESS) return unknown();
        o.fmt = meta.eFormat; o.id = meta.usMessageId; o.name = meta.messageName;
        if (c.filter && !c.filter->DoFiltering(meta)) return;
        static const std::set<unsigned> compressed = {140, 1273, 1734, 2050, 2537};
        if (rd && c.decompress && compressed.count(meta.usMessageId) && (o.h.ucMessageType & 0x1f) < 2)
        {
            Exact big(raw + string(32768 - raw.size(), '\0')); o.st = rd->Decompress(big.data(), 32768, meta);
            if (o.st != ST::SUCCESS) { o.raw.clear(); o.h = Hdr(); add(out, o); return; }
            o.raw.assign((char*)big.data(), meta.uiLength); x = Exact(o.raw); o.h.usMessageId = meta.usMessageId; o.id = meta.usMessageId; o.name = meta.messageName;
        }
        ne::CompositeField cf; o.body = o.raw.substr(meta.uiHeaderLength);
        o.st = md.Decode(x.data() + meta.uiHeaderLength, cf, meta);
        if (o.st != ST::SUCCESS && o.st != ST::NO_DEFINITION) return unknown();
        if (o.st == ST::SUCCESS)
        {
            o.b = valuesOf(cf, d, o.h);
            if (c.read) { auto e = encode(en, o.h, cf, meta.eFormat, c.enc, 32768); if (e.st != ST::SUCCESS) return; o.enc = e.msg; }
        }
        add(out, o);
    }
    void run(const string& s, bool atEnd)
    {
        for (size_t w = 0; w < s.size();)
        {
            size_t n = std::min<size_t>(s.size() - w, 32768); PBT_EQ(f.Write(reinterpret_cast<const unsigned char*>(s.data()) + w, n), n, "write"); w += n;
            while (true)
            {
                ST st = f.GetFrame(buf.get(), 32768, meta); string raw((char*)buf.get(), meta.uiLength);
                if (st == ST::SUCCESS) frame(raw);
                else if (st == ST::UNKNOWN) { if (c.unknown) { Out o; o.st = st; o.raw = raw; add(out, o); } }
                else { PBT_CHECK(st == ST::INCOMPLETE || st == ST::BUFFER_EMPTY, "framer status ", int(st)); if (atEnd && w == s.size()) last(st); break; }
            }
        }
        leftover.resize(65536 * 5); leftover.resize(f.Flush(reinterpret_cast<unsigned char*>(leftover.data()), uint32_t(leftover.size())));
    }
    // a stream that ends with an abbreviated message has no delimiter after it: the rest counts as that message if it decodes
    void last(ST st)
    {
        if (st != ST::INCOMPLETE || (meta.eFormat != HF::ABB_ASCII && meta.eFormat != HF::SHORT_ABB_ASCII)) return;
        uint32_t n = f.Flush(buf.get(), 32768); if (!n) return;
        size_t k = out.size(); string tail = k && out.back().st == ST::UNKNOWN ? out.back().raw : ""; meta.uiLength = n; frame(string((char*)buf.get(), n), true);
        // the file parser gives up at the end of the stream unless that was a message
        if (out.size() > k && out.back().st != ST::SUCCESS) out.pop_back();
        else if (out.size() == k && k && out.back().st == ST::UNKNOWN) out.back().raw = tail;
    }
};
// ---- the same through the library
static void setup(oem::Parser& p, const Cfg& c)
{
    p.SetReturnUnknownBytes(c.unknown); p.SetIgnoreAbbreviatedAsciiResponses(c.ignore); p.SetDecompressRangeCmp(c.decompress); p.SetEncodeFormat(c.enc); p.SetFilter(c.filter);
    PBT_CHECK(p.GetReturnUnknownBytes() == c.unknown && p.GetIgnoreAbbreviatedAsciiResponses() == c.ignore && p.GetDecompressRangeCmp() == c.decompress && p.GetEncodeFormat() == c.enc && p.GetFilter() == c.filter, "a parser option is not the one that was set");
}
static void setup(oem::FileParser& p, const Cfg& c)
{
    p.SetReturnUnknownBytes(c.unknown); p.SetIgnoreAbbreviatedAsciiResponses(c.ignore); p.SetDecompressRangeCmp(c.decompress); p.SetEncodeFormat(c.enc); p.SetFilter(c.filter);
    PBT_CHECK(p.GetReturnUnknownBytes() == c.unknown && p.GetIgnoreAbbreviatedAsciiResponses() == c.ignore && p.GetDecompressRangeCmp() == c.decompress && p.GetEncodeFormat() == c.enc && p.GetFilter() == c.filter, "a file parser option is not the one that was set");
}
// one read; false when there is nothing more for now
template <class P> static bool one(P& p, const Cfg& c, const Db& d, oem::MetaDataStruct& meta, vector<Out>& out, ST empty, bool range = false)
{
    ne::MessageDataStruct data; Hdr h; ne::CompositeField cf; ST st;
    if (c.read) st = p.Read(data, meta); else st = p.ReadIntermediate(data, h, cf, meta);
    if (st == empty) return false;
    Out o; o.st = st;
    if (st == ST::UNKNOWN) { PBT_CHECK(c.unknown, "unknown bytes are returned although not asked for"); o.raw.assign((char*)data.pucMessage, data.uiMessageLength); add(out, o); return true; }
    if (range && st != ST::SUCCESS && st != ST::NO_DEFINITION) { o.fmt = meta.eFormat; o.id = meta.usMessageId; o.name = meta.messageName; add(out, o); return true; } // decompression failed
    PBT_CHECK(st == ST::SUCCESS || st == ST::NO_DEFINITION, "read status ", int(st));
    o.fmt = meta.eFormat; o.id = meta.usMessageId; o.name = meta.messageName;
    if (st == ST::SUCCESS && c.read) { o.enc.assign((char*)data.pucMessage, data.uiMessageLength); }
    else { o.raw.assign((char*)data.pucMessage, data.uiMessageLength); o.body.assign((char*)data.pucMessageBody, data.uiMessageBodyLength); if (!c.read) { o.h = h; if (st == ST::SUCCESS) o.b = valuesOf(cf, d, h); } }
    const string all((char*)data.pucMessage, data.uiMessageLength);
    PBT_CHECK(data.pucMessageHeader != nullptr && data.pucMessageBody != nullptr, "a message without header or body");
    if (!c.read) PBT_CHECK(data.pucMessageHeader == data.pucMessage && data.pucMessageBody == data.pucMessage + data.uiMessageHeaderLength && data.uiMessageHeaderLength + data.uiMessageBodyLength == data.uiMessageLength, "header and body are not the message");
    else PBT_CHECK(data.pucMessageHeader >= data.pucMessage && data.pucMessageHeader + data.uiMessageHeaderLength <= data.pucMessage + data.uiMessageLength && data.pucMessageBody >= data.pucMessage && data.pucMessageBody + data.uiMessageBodyLength <= data.pucMessage + data.uiMessageLength, "header or body outside the message");
    add(out, o); return true;
}
// what a caller of Read or ReadIntermediate can see of a reference item
static vector<Out> seen(vector<Out> v, const Cfg& c)
{
    for (auto& o : v) if (o.st != ST::UNKNOWN && c.read) { o.h = Hdr(); o.b.clear(); if (o.st == ST::SUCCESS) { o.raw.clear(); o.body.clear(); } }
    return v;
}
static void same(const vector<Out>& want, const vector<Out>& got, const string& what)
{
    for (size_t i = 0; i < std::max(want.size(), got.size()); ++i)
    {
        string w = i < want.size() ? text(want[i]) : "nothing", g = i < got.size() ? text(got[i]) : "nothing";
        if (w != g) pbt::fail(what, ": item ", i, " is ", g.substr(0, 1500), " | by hand: ", w.substr(0, 1500));
    }
}
// ---- streams
struct Put { string bytes; unsigned id; HF fmt; bool decodes; Body b; };
struct Stream { string bytes; vector<Put> puts; bool clean = true; };
static string anyForm(Src& s, const Db& d, const Opt& o, Put& p, int form = -1)
{
    const Msg& m = d.msgs[s.draw(d.msgs.size() - 1)]; if (form < 0) form = int(s.draw(5)); bool sh = form & 1;
    HdrOpt ho; ho.shortForm = sh; Hdr h = genHdr(s, d, m, ho); if (form / 2 == 2) h.ucMessageType &= 0x1f;
    uint32_t crc = m.latest; if (!sh) h.uiMessageDefinitionCrc = hdrCrcFor(s, m, crc); else for (auto& [k, f] : m.defs) if (k == 0) crc = 0;
    const Fields* fs = nullptr; for (auto& [k, f] : m.defs) if (k == crc) fs = &f;
    Body b = genBody(s, *fs, o, d); p.id = m.id; p.decodes = true;
    if (form / 2 == 0) { p.bytes = refBinMsg(h, *fs, b, false, sh); p.fmt = sh ? HF::SHORT_BINARY : HF::BINARY; p.b = b; if (sh && p.bytes.size() > 12 + 255 + 4) throw pbt::Discard{}; }
    else { T t = form / 2 == 1 ? T::ASCII : T::ABB; p.bytes = refTextMsg(d, h, *fs, b, t, sh); p.fmt = t == T::ASCII ? (sh ? HF::SHORT_ASCII : HF::ASCII) : sh ? HF::SHORT_ABB_ASCII : HF::ABB_ASCII; }
    if (p.bytes.size() > 30000) throw pbt::Discard{};
    return p.bytes;
}
static Stream genStream(Src& s, const Db& d, const Opt& o, size_t items, bool wild)
{
    Stream r;
    for (size_t i = 0; i < items; ++i)
    {
        Put p;
        switch (s.weighted({10, 3, 2, 2, uint32_t(wild ? 4 : 1), uint32_t(wild ? 3 : 0), uint32_t(wild ? 2 : 0)}))
        {
        case 0: r.bytes += anyForm(s, d, o, p); r.puts.push_back(p); break;
        case 1: r.bytes += fr::inert(s, s.size(1, 20)); break;
        case 2: { auto f = fr::frame(s, s.pick({fr::RESP, fr::NMEA, fr::PROP})); r.bytes += f.bytes; break; }
        case 3: { auto x = fr::binary(s, s.size(0, 30), false); x[4] = '\xbc'; x[5] = '\x02'; x[6] = '\0'; x.resize(x.size() - 4); put(x, crc32ref(x), 4); p.bytes = x; p.id = 700; p.fmt = HF::BINARY; p.decodes = false; r.bytes += x; r.puts.push_back(p); break; } // no definition
        case 4: { auto x = anyForm(s, d, o, p); size_t k = s.draw(x.size() - 1); x[k] = char(x[k] ^ (1 << s.draw(7))); r.bytes += x; r.clean = false; break; }
        case 5: { auto x = anyForm(s, d, o, p); r.bytes += x.substr(0, s.draw(x.size())); r.clean = false; break; }
        default: r.bytes += fr::wildStream(s, 1, false); r.clean = false;
        }
        if (r.bytes.size() > 150000) break;
    }
    return r;
}
static Cfg genCfg(Src& s, const Db& d)
{
    Cfg c; c.unknown = s.coin(); c.ignore = s.coin(); c.decompress = s.coin(); c.read = s.coin();
    c.enc = s.pick({ne::ENCODE_FORMAT::ASCII, ne::ENCODE_FORMAT::BINARY, ne::ENCODE_FORMAT::JSON, ne::ENCODE_FORMAT::ABBREV_ASCII, ne::ENCODE_FORMAT::FLATTENED_BINARY});
    if (s.chance(1, 3))
    {
        c.filter = std::make_shared<oem::Filter>(); auto& m = d.msgs[s.draw(d.msgs.size() - 1)];
        switch (s.draw(4))
        {
        case 0: c.filter->IncludeMessageId(m.id, HF::ALL, 0); break;
        case 1: c.filter->IncludeMessageName(m.name, HF::ALL, 0); c.filter->InvertMessageNameFilter(true); break;
        case 2: c.filter->IncludeMessageId(m.id, s.pick({HF::BINARY, HF::ASCII, HF::ABB_ASCII}), 0); c.filter->InvertMessageIdFilter(true); break;
        case 3: c.filter->IncludeNmeaMessages(s.coin()); c.filter->SetIncludeDecimation(double(s.size(1, 3))); break;
        default: c.filter->IncludeResponses(s.coin()); break;
        }
    }
    return c;
}
static void checkClean(const Stream& st, const Db& d, const Cfg& c, const vector<Out>& out)
{   // what was put in comes out, in order, with its bytes
    if (!st.clean || c.filter || c.read) return;
    vector<const Out*> got; for (auto& o : out) if (o.st != ST::UNKNOWN && o.raw.compare(0, 2, "\xAA\x45") != 0 && !(o.fmt == HF::ABB_ASCII && o.raw.compare(0, 3, "<OK") == 0) && !(o.raw.compare(0, 6, "<ERROR") == 0)) got.push_back(&o);
    PBT_EQ(got.size(), st.puts.size(), "messages recovered from a stream of valid messages: ", [&] { string a; for (auto* g : got) a += " " + text(*g).substr(0, 300); return a; }());
    for (size_t i = 0; i < got.size(); ++i)
    {
        auto& p = st.puts[i]; auto& g = *got[i]; PBT_CHECK(g.raw == p.bytes && g.fmt == p.fmt && g.id == p.id && (g.st == ST::SUCCESS) == p.decodes, "message ", i, " is ", text(g).substr(0, 800), " instead of ", pbt::esc(p.bytes, 400));
        if (p.decodes && !p.b.empty()) PBT_EQ(bodyText(g.b), bodyText(p.b), "values of message ", i);
    }
    (void)d;
}
// now and then a message without fields
static void fieldless(Src& s, Db& d) { if (!s.chance(1, 6)) return; for (auto& x : d.msgs[0].defs) x.second.clear(); d.load(); }
PBT_GROUP(chunks, 6000, 300000)
{
    Opt o; o.text = true; o.maxFields = 4; Db d = genDb(src, o, src.size(2, 3)); fieldless(src, d); bool wild = src.coin(); Stream st = genStream(src, d, o, src.size(1, 9), wild); st.bytes += fr::inert(src, src.size(3, 12));
    Cfg c = genCfg(src, d); Hand h(d, c); h.run(st.bytes, false);
    oem::Parser p(d.db); setup(p, c); oem::MetaDataStruct meta; vector<Out> got; size_t w = 0, calls = 0;
    bool used = src.chance(1, 3);
    if (used)
    {   // earlier use of the parser must not matter once it is flushed
        ctx.label("reused parser"); Stream pre = genStream(src, d, o, src.size(1, 4), true); (void)!p.Write(reinterpret_cast<const unsigned char*>(pre.bytes.data()), pre.bytes.size()); vector<Out> ignored; for (size_t k = src.size(0, 20); k && one(p, c, d, meta, ignored, ST::BUFFER_EMPTY); --k) {}
        while (p.Flush(nullptr, 32768)) {}
        p.ResetMessageCounts();
    }
    for (size_t n : fr::chunks(src, st.bytes.size()))
    {
        PBT_EQ(p.Write(reinterpret_cast<const unsigned char*>(st.bytes.data()) + w, n), n, "write"); w += n;
        size_t lim = n > 16 && src.chance(1, 3) && w < st.bytes.size() ? src.draw(3) : SIZE_MAX; // sometimes reading stops early
        while (lim-- && one(p, c, d, meta, got, ST::BUFFER_EMPTY)) PBT_CHECK(++calls < st.bytes.size() * 2 + 50, "reading does not end");
    }
    while (one(p, c, d, meta, got, ST::BUFFER_EMPTY)) PBT_CHECK(++calls < st.bytes.size() * 2 + 50, "reading does not end");
    same(seen(h.out, c), got, "parser");
    PBT_CHECK(plain(p.GetMessageCounts()) == plain(h.hd.GetMessageCounts()), "the parser's message counts differ from those of its header decoder stage");
    std::unique_ptr<unsigned char[]> fl(new unsigned char[32768]); uint32_t nf = p.Flush(fl.get(), 32768); string rest((char*)fl.get(), nf); PBT_EQ(pbt::hex(rest), pbt::hex(h.leftover.substr(0, nf)), "flushed bytes"); PBT_EQ(size_t(nf), size_t(std::min<size_t>(h.leftover.size(), 32768)), "number of flushed bytes");
    PBT_CHECK(!one(p, c, d, meta, got, ST::BUFFER_EMPTY), "a flushed parser still has something to read");
    checkClean(st, d, c, h.out);
    size_t ok = 0; for (auto& x : h.out) ok += x.st == ST::SUCCESS; ctx.mark(ok >= 2); ctx.feed(st.bytes); ctx.label(c.read ? "Read" : "ReadIntermediate"); if (c.filter) ctx.label("filter"); ctx.label(wild ? "wild stream" : "mostly valid stream");
}
// file parser: chunks of its own, the end of the stream, reset
PBT_GROUP(file, 5000, 250000)
{
    Opt o; o.text = true; o.maxFields = 4; Db d = genDb(src, o, src.size(2, 3)); fieldless(src, d); bool wild = src.coin(); Stream st = genStream(src, d, o, src.size(1, 8), wild);
    bool big = src.chance(1, 8);
    if (big) { ctx.label("long stream"); size_t n = src.size(1, 6); for (size_t i = 0; i < n; ++i) { if (src.coin()) { auto f = fr::binary(src, src.size(20000, 32000), false); if (src.coin()) f.resize(f.size() - src.size(1, 200)); st.bytes += f; } else st.bytes += string(src.size(1000, 32000), 'x'); Stream more = genStream(src, d, o, 2, wild); st.bytes += more.bytes; } st.clean = false; if (st.bytes.size() > 240000) st.bytes.resize(240000); }
    int tail = int(src.draw(3)); Put p; // how the stream ends
    switch (tail) { case 0: st.bytes += fr::inert(src, src.size(8, 20)); break; case 1: anyForm(src, d, o, p, int(4 + src.draw(1))); st.bytes += p.bytes; if (st.clean) st.puts.push_back(p); ctx.label("ends with an abbreviated message"); break; case 2: { auto x = anyForm(src, d, o, p, int(src.draw(5))); st.bytes += x.substr(0, src.draw(x.size())); st.clean = false; ctx.label("ends with a partial message"); break; } default: break; }
    Cfg c = genCfg(src, d); Hand h(d, c); h.run(st.bytes, true); auto want = seen(h.out, c);
    oem::FileParser fp(d.db); setup(fp, c); auto in = std::make_shared<std::stringstream>(st.bytes); PBT_CHECK(fp.SetStream(in), "stream is rejected");
    oem::MetaDataStruct meta; size_t calls = 0; Counts first;
    for (int pass = 0; pass < 2; ++pass)
    {
        vector<Out> got;
        if (pass) { bool early = src.coin(); (void)early; fp.Reset(); PBT_CHECK(fp.GetMessageCounts().empty(), "a reset file parser has message counts"); size_t k = src.size(0, 6); while (k-- && one(fp, c, d, meta, got, ST::STREAM_EMPTY)) {} if (src.coin()) { got.clear(); fp.Reset(); ctx.label("reset in the middle"); } }
        while (one(fp, c, d, meta, got, ST::STREAM_EMPTY)) PBT_CHECK(++calls < st.bytes.size() * 4 + 50, "reading does not end");
        same(want, got, pass ? "file parser after a reset" : "file parser");
        PBT_CHECK(plain(fp.GetMessageCounts()) == plain(h.hd.GetMessageCounts()), "message counts of the file parser");
        ne::MessageDataStruct data; PBT_CHECK(fp.Read(data, meta) == ST::STREAM_EMPTY, "reading past the end of the stream");
    }
    std::unique_ptr<unsigned char[]> fl(new unsigned char[65536 * 5]); uint32_t nf = fp.Flush(fl.get(), 65536 * 5); PBT_EQ(pbt::hex(string((char*)fl.get(), nf)), pbt::hex(h.leftover), "flushed bytes of the file parser");
    if (tail < 2 && st.clean) checkClean(st, d, c, h.out);
    size_t ok = 0; for (auto& x : h.out) ok += x.st == ST::SUCCESS; ctx.mark(ok >= 2); ctx.feed(st.bytes);
}

// compressed range messages among the others: decompression is a stage of its own, with a state that follows the stream
struct RPut { vector<rng::Obs> obs; };
static string rangeStream(Src& s, const Db& d, const Opt& o, Stream& r, vector<RPut>& ranges, bool& damaged)
{
    rng::State st; unsigned week = unsigned(s.range(1000, 2500)); double ms = double(s.draw(600000)) * 1000; double now = st.week(week, ms); auto sats = rng::sky(s, 5, now); size_t steps = s.size(2, 8);
    const bool one = s.chance(2, 3); const unsigned only = s.pick({1273u, 2050u, 2537u, 1734u, 140u}); oem::Encoder enc(d.db); oem::MessageDecoder dec(d.db); oem::HeaderDecoder hd(d.db); bool text = s.coin(); const bool damage = s.chance(1, 4);
    for (size_t i = 0; i < steps; ++i)
    {
        const unsigned sub = unsigned(std::fmod(ms, 1000.0)), source = s.chance(1, 5), id = one ? only : s.pick({1273u, 2050u, 2537u, 1734u, 140u});
        rng::Msgs m = id == 140 ? rng::gen1(s, 8) : id == 1273 ? rng::gen2(s, st, now, source, 4) : rng::gen45(s, st, sats, id, now, sub, source);
        if (m.obs.size() > 100) throw pbt::Discard{};
        Hdr h; h.usMessageId = uint16_t(m.id); h.ucMessageType = uint8_t(source); h.uiPortAddress = 32; h.ucIdleTime = uint8_t(s.draw(200)); h.uiTimeStatus = 180; h.usWeek = uint16_t(week); h.dMilliseconds = ms; h.uiReceiverStatus = uint32_t(s.bits(32)); h.usReceiverSwVersion = uint16_t(s.bits(16));
        Put p; p.id = m.id; p.fmt = HF::BINARY; p.decodes = true;
        if (damage && s.chance(1, 4) && !m.body.empty()) { string b = m.body.substr(0, s.draw(m.body.size() - 1)); if (s.coin()) for (auto& c : b) if (s.chance(1, 10)) c = char(s.byte()); r.bytes += rng::frame(h, b); damaged = true; r.clean = false; }
        else
        {
            p.bytes = rng::frame(h, m.body);
            if (text && s.coin())
            {
                Exact e(p.bytes); oem::MetaDataStruct md; md.uiLength = uint32_t(p.bytes.size()); Hdr th; ne::CompositeField cf; PBT_CHECK(hd.Decode(e.data(), th, md) == ST::SUCCESS, "header"); PBT_CHECK(dec.Decode(e.data() + md.uiHeaderLength, cf, md) == ST::SUCCESS, "body");
                bool abb = s.coin(); auto x = encode(enc, th, cf, HF::BINARY, abb ? ne::ENCODE_FORMAT::ABBREV_ASCII : ne::ENCODE_FORMAT::ASCII); PBT_CHECK(x.st == ST::SUCCESS, "encode"); p.bytes = x.msg; p.fmt = abb ? HF::ABB_ASCII : HF::ASCII;
                if (p.bytes.size() > 20000) throw pbt::Discard{};
            }
            r.bytes += p.bytes; r.puts.push_back(p); ranges.push_back({m.obs});
        }
        if (s.chance(1, 3)) { Put q; r.bytes += anyForm(s, d, o, q); r.puts.push_back(q); }
        if (s.chance(1, 3)) r.bytes += fr::inert(s, s.size(1, 12));
        const double step = s.coin() ? double(s.pick({50, 100, 250})) : 1000 - std::fmod(ms, 1000.0); ms += step; now += step; if (ms >= 604800000.0) { ms -= 604800000.0; ++week; }
    }
    r.bytes += fr::inert(s, s.size(8, 20)); return r.bytes;
}
static void checkRanges(const vector<RPut>& ranges, const vector<Out>& out, const Cfg& c)
{
    if (c.filter || c.read) return;
    size_t k = 0;
    for (auto& x : out)
    {
        if (x.st == ST::UNKNOWN || x.id != 43) continue;
        PBT_CHECK(k < ranges.size(), "more range messages than were put in"); PBT_CHECK(x.st == ST::SUCCESS, "status ", int(x.st), " of a decompressed message");
        if (x.fmt == HF::BINARY) rng::checkRange(x.body.substr(0, x.body.size() - 4), ranges[k].obs, "range message " + std::to_string(k) + ": ");
        ++k;
    }
    PBT_EQ(k, ranges.size(), "range messages");
}
PBT_GROUP(range, 4000, 150000)
{
    Opt o; o.text = true; o.maxFields = 3; Db d = genDb(src, o, src.size(1, 2)); for (auto& m : d.msgs) if (m.id == 43 || m.name.compare(0, 5, "RANGE") == 0) throw pbt::Discard{};
    Db all = d; rng::addMessages(all); all.load(); d.db = all.db; // messages of the stream are drawn from d, definitions from all
    Stream st; vector<RPut> ranges; bool damaged = false; rangeStream(src, d, o, st, ranges, damaged);
    Cfg c = genCfg(src, d); c.decompress = !src.chance(1, 5); if (src.coin()) c.filter = nullptr;
    const bool file = src.coin(); Hand h(all, c); h.rd = std::make_unique<oem::RangeDecompressor>(all.db); h.rd->SetLoggerLevel(spdlog::level::off); h.run(st.bytes, file);
    auto want = seen(h.out, c);
    if (!damaged && c.decompress) checkRanges(ranges, h.out, c);
    if (!c.decompress) checkClean(st, d, c, h.out);
    oem::MetaDataStruct meta; size_t calls = 0;
    if (file)
    {
        oem::FileParser fp(all.db); setup(fp, c); auto in = std::make_shared<std::stringstream>(st.bytes); PBT_CHECK(fp.SetStream(in), "stream is rejected");
        for (int pass = 0; pass < 2; ++pass)
        {
            vector<Out> got;
            if (pass) { fp.Reset(); size_t k = src.size(0, 6); while (k-- && one(fp, c, all, meta, got, ST::STREAM_EMPTY, true)) {} if (src.coin()) { got.clear(); fp.Reset(); ctx.label("reset in the middle"); } }
            while (one(fp, c, all, meta, got, ST::STREAM_EMPTY, true)) PBT_CHECK(++calls < st.bytes.size() * 4 + 50, "reading does not end");
            same(want, got, pass ? "file parser after a reset" : "file parser");
        }
    }
    else
    {
        oem::Parser p(all.db); setup(p, c); vector<Out> got;
        if (src.chance(1, 3))
        {   // an earlier stream leaves nothing behind once flushed
            ctx.label("reused parser"); Stream pre; vector<RPut> pr; bool dm; rangeStream(src, d, o, pre, pr, dm); (void)!p.Write(reinterpret_cast<const unsigned char*>(pre.bytes.data()), pre.bytes.size()); vector<Out> ignored; for (size_t k = src.size(0, 20); k && one(p, c, all, meta, ignored, ST::BUFFER_EMPTY, true); --k) {}
            while (p.Flush(nullptr, 32768)) {}
        }
        size_t w = 0;
        for (size_t n : fr::chunks(src, st.bytes.size()))
        {
            PBT_EQ(p.Write(reinterpret_cast<const unsigned char*>(st.bytes.data()) + w, n), n, "write"); w += n;
            while (one(p, c, all, meta, got, ST::BUFFER_EMPTY, true)) PBT_CHECK(++calls < st.bytes.size() * 2 + 50, "reading does not end");
        }
        same(want, got, "parser");
    }
    ctx.mark(ranges.size() >= 2 && c.decompress); ctx.feed(st.bytes); ctx.label(file ? "file" : "parser"); ctx.label(c.decompress ? "decompression" : "no decompression"); if (damaged) ctx.label("damaged payloads");
}
// receiver-configuration messages take their own way through the parser
PBT_GROUP(rxconfig, 2500, 100000)
{
    Opt o; o.text = true; o.maxFields = 4; Db d = genDb(src, o, src.size(1, 3)); for (auto& m : d.msgs) if (m.id == 128 || m.id == 2474 || m.name.compare(0, 8, "RXCONFIG") == 0) throw pbt::Discard{};
    streams::addRx(d); d.load(); vector<Db> ds{d, d, d}; string in = streams::streamOf(src, ds, 0, o, true, false); if (src.chance(1, 3)) for (size_t k = src.size(1, 3); k; --k) in[src.draw(in.size() - 1)] = char(src.byte());
    const bool read = src.chance(2, 3), unknown = src.coin(), ignore = src.coin(), file = src.coin(); const auto ef = streams::EFS[src.draw(3)]; string want; size_t rx = 0;
    {
        oem::Framer f; oem::HeaderDecoder hd(d.db); oem::MessageDecoder md(d.db); oem::Encoder en(d.db); oem::RxConfigHandler rh(d.db); oem::MetaDataStruct meta; std::unique_ptr<unsigned char[]> buf(new unsigned char[32768]), out(new unsigned char[32768]);
        PBT_EQ(f.Write(reinterpret_cast<const unsigned char*>(in.data()), in.size()), in.size(), "write");
        while (true)
        {
            ST st = f.GetFrame(buf.get(), 32768, meta); if (st != ST::SUCCESS && st != ST::UNKNOWN) break;
            string raw((char*)buf.get(), meta.uiLength); auto item = [&](ST s, const string& bytes) { want += "\nstatus " + std::to_string(int(s)) + " [" + pbt::esc(bytes, 100000) + "]"; };
            if (st == ST::UNKNOWN) { if (unknown) item(st, raw); continue; }
            if (meta.bResponse && meta.eFormat == HF::ABB_ASCII && ignore) continue;
            Hdr h; if (hd.Decode(buf.get(), h, meta) != ST::SUCCESS) { if (unknown) item(ST::UNKNOWN, raw); continue; }
            ne::CompositeField cf; const bool isRx = h.usMessageId == 128 || h.usMessageId == 2474;
            st = isRx ? rh.Decode(buf.get() + meta.uiHeaderLength, cf, meta) : md.Decode(buf.get() + meta.uiHeaderLength, cf, meta);
            if (st != ST::SUCCESS && st != ST::NO_DEFINITION) { if (unknown) item(ST::UNKNOWN, raw); continue; }
            if (st == ST::SUCCESS && read)
            {
                unsigned char* p = out.get(); ne::MessageDataStruct data; st = isRx ? rh.Encode(&p, 32768, h, cf, data, ef) : en.Encode(&p, 32768, h, cf, data, meta.eFormat, ef);
                if (st != ST::SUCCESS) continue;
                raw.assign((char*)data.pucMessage, data.uiMessageLength); if (isRx) { ++rx; ctx.label("receiver configuration"); }
            }
            item(st, raw); want += streams::metaText(meta); if (!read) { want += streams::hdrText(h); if (st == ST::SUCCESS) { for (auto& x : cf.GetFieldInfo()->messageOrderedFields) want += " " + x->name + "(" + x->conversion + ")"; if (isRx) ++rx; } }
        }
    }
    string got;
    if (file) { oem::FileParser fp(d.db); streams::options(fp, unknown, ignore, ef); PBT_CHECK(fp.SetStream(std::make_shared<std::stringstream>(in)), "stream is rejected"); got = streams::drain(fp, read, ST::STREAM_EMPTY); }
    else { oem::Parser p(d.db); streams::options(p, unknown, ignore, ef); (void)!p.Write(reinterpret_cast<const unsigned char*>(in.data()), in.size()); got = streams::drain(p, read, ST::BUFFER_EMPTY); }
    ctx.feed(in); ctx.mark(rx > 0);
    if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; size_t a = k > 80 ? k - 80 : 0; pbt::fail(file ? "file parser" : "parser", " with receiver-configuration messages differs at ", k, ": ...", got.substr(a, 500), " | by hand: ...", want.substr(a, 500)); }
}
