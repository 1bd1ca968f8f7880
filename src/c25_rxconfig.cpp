// C25: receiver-configuration messages are converted together with the message they carry.
// LIBS: common dcommon oem
#include "model.hpp"
#include "casegen.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
using namespace model; using ne::STATUS; using HF = ne::HEADER_FORMAT; using EF = ne::ENCODE_FORMAT;
PBT_PROPERTY("C25", "RXCONFIG and RXCONFIGUSER messages around an embedded message of a random definition, header and value, rendered independently as ASCII, abbreviated ASCII and binary and converted to those and to JSON "
                    "through Convert, through Decode and Encode and through the parser, in streams with other messages, into buffers of every size, and with damaged embedded parts; "
                    "non-trivial = the embedded definition has an array, a string, an enumeration, a field array or a floating-point conversion (conversion groups), or the embedded part is damaged (robustness group)")
namespace {
struct Rx { Case c; Hdr outer; unsigned id; };
void genRx(Src& s, Rx& x, bool json)
{
    Opt o; o.text = true; o.json = json; o.maxFields = 6; genCase(s, x.c, o); if (!plainFloats(*x.c.fs, x.c.b, json)) throw pbt::Discard{};
    // receivers embed complete headers only
    if (x.c.shortForm) { HdrOpt ho; x.c.shortForm = false; x.c.h = genHdr(s, x.c.d, *x.c.m, ho); x.c.h.uiMessageDefinitionCrc = hdrCrcFor(s, *x.c.m, x.c.crc); }
    string emb; size_t idx = size_t(x.c.m - x.c.d.msgs.data());
    for (auto [n, id] : {std::pair<const char*, unsigned>{"RXCONFIG", 128}, {"RXCONFIGUSER", 2474}})
    {
        for (auto& m : x.c.d.msgs) if (m.id == id || m.name == n) throw pbt::Discard{};
        Fld f; f.name = "msg"; f.kind = K::VAR; f.dt = "UCHAR"; f.len = 1; f.conv = "%R"; f.arr = 30000; Msg m; m.name = n; m.id = id; m.latest = 63234; m.defs = {{m.latest, {f}}}; x.c.d.msgs.push_back(m);
    }
    x.c.d.load(); x.c.m = &x.c.d.msgs[idx]; for (auto& [k, f] : x.c.m->defs) if (k == x.c.crc) x.c.fs = &f;
    x.id = s.chance(1, 3) ? 2474 : 128; HdrOpt ho; x.outer = genHdr(s, x.c.d, *x.c.d.byId(x.id), ho); x.outer.uiMessageDefinitionCrc = 63234;
    if (s.coin()) { Hdr h = x.outer; h.usMessageId = x.c.h.usMessageId; h.ucMessageType = x.c.h.ucMessageType; h.uiMessageDefinitionCrc = x.c.h.uiMessageDefinitionCrc; x.c.h = h; }
}
struct Ref { string msg, header, body, emb, embHeader, embBody, raw; };
enum Fm { ASC, ABB, BIN, JSN };
HF hfOf(Fm f) { return f == ASC ? HF::ASCII : f == ABB ? HF::ABB_ASCII : HF::BINARY; }
EF efOf(Fm f) { return f == ASC ? EF::ASCII : f == ABB ? EF::ABBREV_ASCII : f == BIN ? EF::BINARY : EF::JSON; }
const char* nameOf(Fm f) { const char* n[] = {"ASCII", "abbreviated ASCII", "binary", "JSON"}; return n[f]; }
string wrap(const Rx& x, Fm f, const string& inner) // a frame with a correct checksum around anything
{
    if (f == BIN) { string o = refBinHeader(x.outer, inner.size(), false) + inner; put(o, crc32ref(o), 4); return o; }
    string o = refTextHeader(x.c.d, x.outer, f == ASC ? T::ASCII : T::ABB, false) + inner; if (f == ASC) o += num("*%08x\r\n", crc32ref(o.substr(1))); return o;
}
Ref ref(const Rx& x, const Body& b, Fm f)
{
    const Db& d = x.c.d; Ref r; const Fields& fs = *x.c.fs;
    if (f == JSN)
    {
        r.header = refTextHeader(d, x.outer, T::JSON, false); r.emb = refTextMsg(d, x.c.h, fs, b, T::JSON, false); r.embHeader = refTextHeader(d, x.c.h, T::JSON, false); r.embBody = refJson(fs, b, d);
        r.body = r.emb; r.msg = "{\"header\": " + r.header + ",\"body\": " + r.emb + "}"; return r;
    }
    if (f == BIN)
    {
        string body; refBinary(body, fs, b, false); r.header = refBinHeader(x.outer, 28 + body.size() + 4, false); r.embHeader = refBinHeader(x.c.h, body.size(), false); uint32_t c = crc32ref(r.embHeader + body);
        r.raw = r.embHeader + body; put(r.raw, c, 4); put(body, ~c, 4); r.embBody = body; r.emb = r.embHeader + body; r.msg = r.header + r.emb; c = crc32ref(r.msg); r.body = r.emb; put(r.body, c, 4); r.msg = r.header + r.body; return r;
    }
    if (f == ASC)
    {
        r.header = refTextHeader(d, x.outer, T::ASCII, false); r.raw = refTextMsg(d, x.c.h, fs, b, T::ASCII, false); string e = r.raw.substr(0, r.raw.size() - 10); uint32_t c = crc32ref(e.substr(1, e.size() - 2)); e += num("%08x", ~c);
        r.embHeader = refTextHeader(d, x.c.h, T::ASCII, false); r.emb = e; r.embBody = e.substr(r.embHeader.size()); r.msg = r.header + e; r.body = e + num("*%08x\r\n", crc32ref(r.msg.substr(1))); r.msg = r.header + r.body; return r;
    }
    r.header = refTextHeader(d, x.outer, T::ABB, false); string h = refTextHeader(d, x.c.h, T::ABB, false); h = h.substr(1, h.size() - 3) + " \r\n"; string body = refTextMsg(d, x.c.h, fs, b, T::ABB, false).substr(h.size() );
    r.raw = "<" + h + body; r.embHeader = "<     " + h; r.embBody = body; r.emb = r.embHeader + body; r.body = r.emb; r.msg = r.header + r.body; return r;
}
string slice(const unsigned char* p, uint32_t n) { return p ? string(reinterpret_cast<const char*>(p), n) : string(); }
void same(const string& got, const string& want, const char* what, Fm in, Fm out, const string& src, const Rx& x)
{
    if (got == want) return;
    size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; size_t a = k > 30 ? k - 30 : 0;
    auto sh = [&](const string& t) { return out == BIN ? pbt::hex(t) : "\"" + pbt::esc(t.substr(a, 120)) + "\""; };
    pbt::fail(what, " converted from ", nameOf(in), " to ", nameOf(out), " differs at ", k, ": got ", sh(got), " (", got.size(), " bytes) want ", sh(want), " (", want.size(), " bytes) of \"", pbt::esc(src), "\" ", defText(*x.c.fs));
}
void checkAll(const Ref& w, const ne::MessageDataStruct& m, const ne::MessageDataStruct* e, Fm in, Fm out, const string& src, const Rx& x)
{
    same(slice(m.pucMessage, m.uiMessageLength), w.msg, "message", in, out, src, x); same(slice(m.pucMessageHeader, m.uiMessageHeaderLength), w.header, "header of the message", in, out, src, x);
    same(slice(m.pucMessageBody, m.uiMessageBodyLength), w.body, "body of the message", in, out, src, x); if (!e) return;
    same(slice(e->pucMessage, e->uiMessageLength), w.emb, "embedded message", in, out, src, x); same(slice(e->pucMessageHeader, e->uiMessageHeaderLength), w.embHeader, "header of the embedded message", in, out, src, x);
    same(slice(e->pucMessageBody, e->uiMessageBodyLength), w.embBody, "body of the embedded message", in, out, src, x);
}
bool interesting(const Rx& x) { for (auto& f : *x.c.fs) if (f.kind != K::SIMPLE || isFloat(f)) return true; return false; }
Body wantOf(const Rx& x, Fm in) { return in == BIN ? x.c.b : shown(*x.c.fs, x.c.b); }
const Fm INS[] = {ASC, ABB, BIN}, OUTS[] = {ASC, ABB, BIN, JSN};
string tail(Src& s, Fm in) { return in == ABB ? (s.coin() ? "[COM1]" : "More bytes...") : ""; }
struct Dec { Hdr h; oem::MetaDataStruct md; ne::CompositeField cf; STATUS st; };
Dec decodeRx(const Rx& x, oem::RxConfigHandler& rx, const string& msg)
{
    Dec r; oem::HeaderDecoder hd(x.c.d.db); Exact buf(msg); r.md.uiLength = uint32_t(msg.size()); PBT_EQ(int(hd.Decode(buf.data(), r.h, r.md)), 0, "header of \"", pbt::esc(msg), "\"");
    r.st = rx.Decode(buf.data() + r.md.uiHeaderLength, r.cf, r.md); return r;
}
string rawOf(const ne::CompositeField& cf)
{
    string raw; PBT_CHECK(cf.GetFieldInfo() && cf.GetFieldInfo()->messageOrderedFields.size() == 1, "fields of the decoded message");
    for (auto b : cf.GetFieldValue<vector<uint8_t>>(*cf.GetFieldInfo()->messageOrderedFields[0])) raw += char(b); return raw;
}
} // namespace
// Write / Convert of a stream of such messages
PBT_GROUP(convert, 4000, 80000)
{
    Rx x; genRx(src, x, true); Fm in = src.pick(vector<Fm>{ASC, ABB, BIN}), out = src.pick(vector<Fm>{ASC, ABB, BIN, JSN}); Ref w0 = ref(x, x.c.b, in); ctx.feed(w0.msg); ctx.mark(interesting(x)); ctx.label(string(nameOf(in)) + " to " + nameOf(out)); ctx.note(defText(*x.c.fs));
    Body b = wantOf(x, in); if (w0.msg.size() > 30000) throw pbt::Discard{}; Ref w = ref(x, b, out); if (w.msg.size() > 30000) throw pbt::Discard{};
    oem::RxConfigHandler rx(x.c.d.db); string t = w0.msg + (src.chance(1, 4) ? w0.msg : string()) + tail(src, in); size_t n = t.size() / w0.msg.size();
    Exact buf(t); PBT_EQ(rx.Write(buf.data(), uint32_t(t.size())), t.size(), "bytes taken");
    for (size_t i = 0; i < n; ++i)
    {
        ne::MessageDataStruct m, e; oem::MetaDataStruct mm, em; STATUS st = rx.Convert(m, mm, e, em, efOf(out));
        PBT_CHECK(st == STATUS::SUCCESS, "Convert reports ", int(st), " for \"", pbt::esc(w0.msg), "\" to ", nameOf(out), " ", defText(*x.c.fs));
        checkAll(w, m, &e, in, out, w0.msg, x);
        PBT_EQ(int(mm.usMessageId), int(x.id), "message id"); PBT_EQ(int(mm.eFormat), int(hfOf(in)), "format"); PBT_EQ(string(mm.messageName), string(x.id == 128 ? "RXCONFIG" : "RXCONFIGUSER"), "name"); PBT_EQ(size_t(mm.uiLength), w0.msg.size(), "length");
        PBT_EQ(int(em.usMessageId), int(x.c.m->id), "embedded message id"); PBT_EQ(string(em.messageName), x.c.m->name, "embedded name"); PBT_EQ(int(em.eFormat), int(hfOf(in)), "embedded format"); PBT_EQ(int(em.usWeek), int(x.c.h.usWeek), "embedded week"); PBT_EQ(em.dMilliseconds, x.c.h.dMilliseconds, "embedded time");
    }
    ne::MessageDataStruct m, e; oem::MetaDataStruct mm, em; STATUS st = rx.Convert(m, mm, e, em, efOf(out)); PBT_CHECK(st != STATUS::SUCCESS, "a message that was not sent");
}
// Decode gives the embedded message as it would stand alone; Encode writes it in every format
PBT_GROUP(decode_encode, 2500, 50000)
{
    Rx x; genRx(src, x, true); ctx.mark(interesting(x)); ctx.note(defText(*x.c.fs)); oem::RxConfigHandler rx(x.c.d.db);
    for (Fm in : INS)
    {
        Ref w0 = ref(x, x.c.b, in); if (w0.msg.size() > 30000) throw pbt::Discard{}; ctx.feed(w0.msg); Dec r = decodeRx(x, rx, w0.msg); PBT_CHECK(r.st == STATUS::SUCCESS, "Decode reports ", int(r.st), " for \"", pbt::esc(w0.msg), "\"");
        string raw = rawOf(r.cf); if (raw != w0.raw) pbt::fail("embedded message is not the one that was sent: got ", in == BIN ? pbt::hex(raw) : "\"" + pbt::esc(raw) + "\"", " want ", in == BIN ? pbt::hex(w0.raw) : "\"" + pbt::esc(w0.raw) + "\"");
        Body b = wantOf(x, in);
        for (Fm out : OUTS)
        {
            Ref w = ref(x, b, out); size_t cap = src.chance(1, 2) ? w.msg.size() + 64 : w.msg.size() + 64 + src.draw(2000); std::unique_ptr<unsigned char[]> o(new unsigned char[cap]); memset(o.get(), src.byte(), cap); unsigned char* p = o.get(); ne::MessageDataStruct m;
            STATUS st = rx.Encode(&p, uint32_t(cap), r.h, r.cf, m, efOf(out)); PBT_CHECK(st == STATUS::SUCCESS, "Encode reports ", int(st), " from ", nameOf(in), " to ", nameOf(out), " in ", cap, " bytes for ", w.msg.size());
            checkAll(w, m, nullptr, in, out, w0.msg, x); PBT_CHECK(m.pucMessage == p, "the message does not start the caller's buffer");
        }
        unsigned char z[64], *p = z; ne::MessageDataStruct m; PBT_CHECK(rx.Encode(&p, 64, r.h, r.cf, m, EF::UNSPECIFIED) != STATUS::SUCCESS, "an unspecified format was encoded");
        PBT_EQ(int(rx.Encode(nullptr, 64, r.h, r.cf, m, EF::ASCII)), int(STATUS::NULL_PROVIDED), "no buffer");
    }
}
// a buffer that is too small is reported, never overrun
PBT_GROUP(buffer, 3000, 60000)
{
    Rx x; genRx(src, x, true); Fm in = src.pick(vector<Fm>{ASC, ABB, BIN}), out = src.pick(vector<Fm>{ASC, ABB, BIN, JSN}); Ref w0 = ref(x, x.c.b, in), w = ref(x, wantOf(x, in), out); if (w.msg.size() > 20000) throw pbt::Discard{}; ctx.mark(interesting(x)); ctx.feed(w0.msg); ctx.note(defText(*x.c.fs));
    oem::RxConfigHandler rx(x.c.d.db); Dec r = decodeRx(x, rx, w0.msg); PBT_CHECK(r.st == STATUS::SUCCESS, "Decode reports ", int(r.st)); bool before = false;
    for (int k = 0; k < 12; ++k)
    {
        size_t cap = k < 6 ? w.msg.size() - std::min<size_t>(w.msg.size(), src.draw(40)) + src.draw(20) : src.draw(w.msg.size() + 70); std::unique_ptr<unsigned char[]> o(new unsigned char[cap ? cap : 1]); memset(o.get(), 0xA5, cap); unsigned char* p = o.get(); ne::MessageDataStruct m; ctx.feed(std::to_string(cap));
        STATUS st = rx.Encode(&p, uint32_t(cap), r.h, r.cf, m, efOf(out));
        if (cap < w.msg.size()) PBT_CHECK(st == STATUS::BUFFER_FULL, "Encode reports ", int(st), " to ", nameOf(out), " in ", cap, " bytes for a message of ", w.msg.size());
        else PBT_CHECK(st == STATUS::SUCCESS || (st == STATUS::BUFFER_FULL && cap < w.msg.size() + 64), "Encode reports ", int(st), " to ", nameOf(out), " in ", cap, " bytes for a message of ", w.msg.size());
        if (st == STATUS::SUCCESS) { checkAll(w, m, nullptr, in, out, w0.msg, x); before = true; }
    }
    (void)before;
}
// the parser converts them like any other message
PBT_GROUP(parser, 1500, 30000)
{
    Rx x; genRx(src, x, true); ctx.mark(interesting(x)); ctx.note(defText(*x.c.fs)); Fm out = src.pick(vector<Fm>{ASC, ABB, BIN, JSN}); string stream; vector<string> want; vector<string> from;
    for (size_t i = 0, n = src.size(1, 5); i < n; ++i)
    {
        Fm in = src.pick(vector<Fm>{ASC, BIN, ABB});
        if (src.chance(1, 4)) { string plain = in == BIN ? refBinMsg(x.c.h, *x.c.fs, x.c.b, false, false) : refTextMsg(x.c.d, x.c.h, *x.c.fs, x.c.b, T::ASCII, false); Body b = in == BIN ? x.c.b : shown(*x.c.fs, x.c.b);
            stream += plain; from.push_back(plain); want.push_back(out == BIN ? refBinMsg(x.c.h, *x.c.fs, b, false, false) : refTextMsg(x.c.d, x.c.h, *x.c.fs, b, out == ASC ? T::ASCII : out == ABB ? T::ABB : T::JSON, false)); continue; }
        Ref w0 = ref(x, x.c.b, in); stream += w0.msg; from.push_back(w0.msg); want.push_back(ref(x, wantOf(x, in), out).msg); if (want.back().size() > 30000 || w0.msg.size() > 30000) throw pbt::Discard{};
    }
    stream += "[COM1]"; ctx.feed(stream); if (stream.size() > 100000) throw pbt::Discard{}; oem::Parser p(x.c.d.db); p.SetEncodeFormat(efOf(out)); Exact buf(stream); size_t at = 0, k = 0;
    for (int guard = 0; guard < 1000; ++guard)
    {
        if (at < stream.size()) { size_t n = std::min(stream.size() - at, src.size(1, 4000)); n = p.Write(buf.data() + at, n); at += n; }
        ne::MessageDataStruct m; oem::MetaDataStruct md; STATUS st = p.Read(m, md);
        if (st == STATUS::SUCCESS) { PBT_CHECK(k < want.size(), "too many messages"); string got = slice(m.pucMessage, m.uiMessageLength); PBT_CHECK(got == want[k], "message ", k, " of the stream to ", nameOf(out), ": got \"", pbt::esc(got), "\" want \"", pbt::esc(want[k]), "\" of \"", pbt::esc(from[k]), "\""); ++k; }
        else if (at == stream.size() && (st == STATUS::BUFFER_EMPTY || st == STATUS::INCOMPLETE)) break;
        else PBT_CHECK(st == STATUS::BUFFER_EMPTY || st == STATUS::UNKNOWN || st == STATUS::INCOMPLETE || st == STATUS::INCOMPLETE_MORE_DATA, "parser status ", int(st));
    }
    PBT_EQ(k, want.size(), "messages of \"", pbt::esc(stream), "\"");
}
// anything in the place of the embedded message: refused or converted, without leaving the message
PBT_GROUP(damaged, 20000, 400000)
{
    static Rx x = [] { for (uint64_t k = 11;; ++k) try { Rx y; Src s(k); genRx(s, y, true); if (y.c.fs->size() >= 3) return y; } catch (pbt::Discard&) {} }(); static bool once = [] { x.c.m = nullptr; return true; }(); (void)once;
    Rx y; y.c = x.c; y.id = 128; y.outer = x.outer; Fm in = src.pick(vector<Fm>{ASC, ABB, BIN}); Ref w = ref(x, x.c.b, in); string inner = w.body; if (in == BIN) inner.resize(inner.size() - 4); if (in == ASC) inner.resize(inner.size() - 11);
    switch (src.draw(4))
    {
    case 0: inner = inner.substr(0, src.draw(inner.size())); break;
    case 1: for (size_t i = 0, n = src.size(1, 6); i < n && !inner.empty(); ++i) inner[src.draw(inner.size() - 1)] = char(src.byte()); break;
    case 2: inner = src.bytes(src.size(0, 60)); break;
    case 3: { size_t a = src.draw(inner.size()), n = src.draw(inner.size() - a); inner.erase(a, n); break; }
    default: inner.insert(src.draw(inner.size()), src.bytes(src.size(1, 40)));
    }
    if (in != BIN && src.coin()) for (auto& c : inner) if (c == '*') c = '+';
    string msg = wrap(y, in, inner); ctx.feed(msg); ctx.mark(true); ctx.label(nameOf(in)); oem::RxConfigHandler rx(x.c.d.db); rx.SetLoggerLevel(spdlog::level::off);
    oem::HeaderDecoder hd(x.c.d.db); Exact buf(msg); oem::MetaDataStruct md; md.uiLength = uint32_t(msg.size()); Hdr h; PBT_EQ(int(hd.Decode(buf.data(), h, md)), 0, "header");
    ne::CompositeField cf; STATUS st; try { st = rx.Decode(buf.data() + md.uiHeaderLength, cf, md); } catch (const std::exception& e) { pbt::fail("Decode threw ", e.what(), " for \"", pbt::esc(msg), "\""); }
    if (st == STATUS::SUCCESS) PBT_CHECK(rawOf(cf).size() <= inner.size() + 16, "embedded message of ", rawOf(cf).size(), " bytes out of ", inner.size());
    if (st == STATUS::SUCCESS) for (Fm out : OUTS)
    {
        std::unique_ptr<unsigned char[]> o(new unsigned char[40000]); unsigned char* p = o.get(); ne::MessageDataStruct m; STATUS e;
        try { e = rx.Encode(&p, 40000, h, cf, m, efOf(out)); } catch (const std::exception& ex) { pbt::fail("Encode threw ", ex.what(), " for \"", pbt::esc(msg), "\""); }
        if (e == STATUS::SUCCESS) { PBT_CHECK(m.uiMessageLength <= 40000 && m.pucMessage == p && m.pucMessageBody >= p && m.pucMessageBody + m.uiMessageBodyLength <= p + m.uiMessageLength, "lengths of the message"); }
    }
    rx.Write(buf.data(), uint32_t(msg.size())); ne::MessageDataStruct m, e; oem::MetaDataStruct mm, em;
    for (int k = 0; k < 4; ++k) { try { (void)!int(rx.Convert(m, mm, e, em, efOf(src.pick(vector<Fm>{ASC, ABB, BIN, JSN})))); } catch (const std::exception& ex) { pbt::fail("Convert threw ", ex.what(), " for \"", pbt::esc(msg), "\""); } }
}
