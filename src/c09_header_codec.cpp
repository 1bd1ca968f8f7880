// C09: header decoding reports the transmitted header, in every format, whatever was decoded before; encoding a header reproduces it.
// LIBS: common dcommon oem
#include "casegen.hpp"
using namespace model;
PBT_PROPERTY("C09", "random header contents in the eight header forms (long/short x ASCII, abbreviated ASCII, binary, JSON), written by a reference encoder with the freedom each format allows, decoded with fresh and reused header/metadata objects, "
                    "and encoded by the library against the reference; non-trivial = header with a sibling id, a response flag, or at least two fields at the edge of their range")
enum F { ASC, SASC, ABB, SABB, BIN, SBIN, JS, SJS };
static const char* kF[] = {"ASCII", "short ASCII", "abbreviated ASCII", "short abbreviated ASCII", "binary", "short binary", "JSON", "short JSON"};
static ne::HEADER_FORMAT hfOf(int f)
{
    using H = ne::HEADER_FORMAT; static const H t[] = {H::ASCII, H::SHORT_ASCII, H::ABB_ASCII, H::SHORT_ABB_ASCII, H::BINARY, H::SHORT_BINARY, H::JSON, H::JSON}; return t[f];
}
static bool shortF(int f) { return f == SASC || f == SABB || f == SBIN || f == SJS; }
struct Item { int f; Hdr want; string text; size_t headerLen; };
static Db theDb(Src& s) { Opt o; o.maxFields = 1; o.depth = 0; return genDb(s, o, s.size(1, 4)); }
// the values a form carries; everything it does not carry has its default
static Hdr genValues(Src& s, const Db& d, int f, pbt::Ctx& ctx)
{
    Hdr h; int edges = 0; auto e = [&](unsigned n) { uint64_t v = s.edgy(n); if (v == 0 || v == (n < 64 ? (1ull << n) - 1 : ~0ull)) ++edges; return v; };
    auto& m = d.msgs[s.draw(d.msgs.size() - 1)]; h.usMessageId = uint16_t(m.id);
    if ((f == BIN || f == SBIN) && s.chance(1, 3)) h.usMessageId = uint16_t(e(16));
    bool bin = f == BIN;
    unsigned sib = s.chance(1, 2) ? unsigned(s.draw(31)) : 0;
    if (f != SBIN) h.ucMessageType = uint8_t(sib);
    if ((f == ASC || f == SASC || bin) && s.chance(1, 4)) h.ucMessageType |= 0x80;
    if (bin) h.ucMessageType |= uint8_t(s.draw(3) << 5);
    h.usWeek = uint16_t(s.chance(1, 2) ? e(16) : s.draw(3000)); h.dMilliseconds = double(s.chance(1, 3) ? e(32) : s.draw(604799999));
    if (!shortF(f))
    {
        if (bin) { h.uiPortAddress = uint8_t(e(8)); h.uiTimeStatus = uint8_t(e(8)); }
        else
        {
            auto& p = d.byName("PortAddress")->vals; h.uiPortAddress = p[s.draw(p.size() - 1)].first;
            auto& t = d.byName("GPSTimeStatus")->vals; h.uiTimeStatus = t[s.draw(t.size() - 1)].first;
        }
        h.usSequence = uint16_t(e(16)); h.ucIdleTime = uint8_t(s.draw(255)); h.uiReceiverStatus = uint32_t(e(32)); h.usReceiverSwVersion = uint16_t(e(16));
        h.uiMessageDefinitionCrc = uint32_t(bin || s.coin() ? e(16) : e(32));
    }
    if (f == SBIN) h.uiTimeStatus = uint32_t(ne::TIME_STATUS::UNKNOWN);
    if (f == BIN) h.usLength = uint16_t(e(16)); if (f == SBIN) h.usLength = uint8_t(e(8));
    if (edges >= 2 || (h.ucMessageType & 0x9f)) ctx.mark(true);
    return h;
}
static string textOf(Src& s, const Db& d, const Hdr& h, int f)
{
    // the freedom of the text forms: letter case of hexadecimal digits, leading zeros, unrounded idle time, seconds with fewer decimals
    string t = refTextHeader(d, h, f >= JS ? T::JSON : f >= ABB ? T::ABB : T::ASCII, shortF(f));
    return t;
}
static Item genItem(Src& s, const Db& d, pbt::Ctx& ctx, int f)
{
    Item it; it.f = f; it.want = genValues(s, d, f, ctx);
    if (f == BIN || f == SBIN)
    {
        string o = f == SBIN ? "\xAA\x44\x13" : "\xAA\x44\x12"; auto& h = it.want;
        if (f == SBIN) { put(o, h.usLength, 1); put(o, h.usMessageId, 2); put(o, h.usWeek, 2); put(o, uint64_t(h.dMilliseconds), 4); }
        else { put(o, 28, 1); put(o, h.usMessageId, 2); put(o, h.ucMessageType, 1); put(o, h.uiPortAddress, 1); put(o, h.usLength, 2); put(o, h.usSequence, 2); put(o, h.ucIdleTime, 1); put(o, h.uiTimeStatus, 1); put(o, h.usWeek, 2); put(o, uint64_t(h.dMilliseconds), 4); put(o, h.uiReceiverStatus, 4); put(o, h.uiMessageDefinitionCrc, 2); put(o, h.usReceiverSwVersion, 2); }
        it.headerLen = o.size(); it.text = o + s.bytes(s.draw(4)); return it;
    }
    string t = textOf(s, d, it.want, f);
    if (f == ASC && s.coin())
    { // the same header with other spellings of its numbers
        auto& h = it.want; string status = num(s.coin() ? "%08X" : "%x", h.uiReceiverStatus), crc = num(s.coin() ? "%04X" : "%x", h.uiMessageDefinitionCrc);
        unsigned tenth = h.ucIdleTime * 5; string idle = num("%u.%u", tenth / 10, tenth % 10);
        if (s.coin()) { unsigned q = unsigned(s.draw(4)); // within a quarter of a percent
            idle = num("%u.%02u", (tenth * 10 + q) / 100, (tenth * 10 + q) % 100); }
        uint32_t ms = uint32_t(h.dMilliseconds); string sec = ms % 1000 == 0 && s.coin() ? num("%u", ms / 1000) : num("%u.%03u", ms / 1000, ms % 1000) + (s.coin() ? "000" : "");
        t = "#" + msgNameOf(d, h) + (h.ucMessageType & 0x80 ? "R" : "A") + sib(h) + "," + enumText(d.byName("PortAddress"), h.uiPortAddress) + "," + std::to_string(h.usSequence) + "," + idle + "," + enumText(d.byName("GPSTimeStatus"), h.uiTimeStatus) + "," +
            std::to_string(h.usWeek) + "," + sec + "," + status + "," + crc + "," + std::to_string(h.usReceiverSwVersion) + ";";
    }
    it.headerLen = f >= JS ? 0 : t.size();
    if (f >= JS) it.text = "{\"header\": " + t + ",\"body\": {}}";
    else it.text = t + (f <= SASC ? s.alnum(s.draw(12)) + "*" + num("%08x", uint32_t(s.bits(32))) : "<     " + s.alnum(s.draw(9))) + "\r\n";
    return it;
}
static void put(oem::MetaDataStruct& md, const Item& it) { md.eFormat = hfOf(it.f); md.uiLength = uint32_t(it.text.size()); }
static ne::STATUS decode(const oem::HeaderDecoder& hd, const string& text, Hdr& h, oem::MetaDataStruct& md)
{
    std::unique_ptr<unsigned char[]> b(new unsigned char[text.size()]); memcpy(b.get(), text.data(), text.size());
    try { return hd.Decode(b.get(), h, md); } catch (const std::exception& e) { pbt::fail("Decode threw ", e.what(), " for \"", pbt::esc(text), "\""); }
}
static uint64_t msOf(const Hdr& h) { return uint64_t(std::llround(h.dMilliseconds)); }
static void compare(const Db& d, const Item& it, const Hdr& h, const oem::MetaDataStruct& md, const string& when)
{
    auto& w = it.want; string at = string(" (") + kF[it.f] + when + ") \"" + pbt::esc(it.text.substr(0, 200)) + "\"";
    PBT_EQ(h.usMessageId, w.usMessageId, "message id", at);
    PBT_EQ(unsigned(h.ucMessageType & 0x9f), unsigned(w.ucMessageType & 0x9f), "sibling and response flag", at);
    PBT_EQ(h.uiPortAddress, w.uiPortAddress, "port", at); PBT_EQ(h.usSequence, w.usSequence, "sequence", at); PBT_EQ(unsigned(h.ucIdleTime), unsigned(w.ucIdleTime), "idle time", at);
    PBT_EQ(h.uiTimeStatus, w.uiTimeStatus, "time status", at); PBT_EQ(h.usWeek, w.usWeek, "week", at); PBT_EQ(msOf(h), msOf(w), "milliseconds", at);
    PBT_CHECK(std::fabs(h.dMilliseconds - w.dMilliseconds) < 1e-3, "milliseconds ", h.dMilliseconds, " instead of ", w.dMilliseconds, at);
    PBT_EQ(h.uiReceiverStatus, w.uiReceiverStatus, "receiver status", at); PBT_EQ(h.uiMessageDefinitionCrc, w.uiMessageDefinitionCrc, "definition checksum", at);
    PBT_EQ(h.usReceiverSwVersion, w.usReceiverSwVersion, "software version", at); PBT_EQ(h.usLength, w.usLength, "length field", at);
    PBT_CHECK(md.eFormat == hfOf(it.f), "reported format ", int(md.eFormat), at);
    PBT_EQ(uint64_t(md.usWeek), uint64_t(w.usWeek), "metadata week", at); PBT_EQ(uint64_t(md.dMilliseconds), msOf(w), "metadata time", at); PBT_EQ(md.uiHeaderLength, it.headerLen, "header length", at);
    PBT_EQ(md.usMessageId, w.usMessageId, "metadata id", at); PBT_EQ(md.uiMessageCrc, w.uiMessageDefinitionCrc, "metadata checksum", at); PBT_EQ(md.bResponse, (w.ucMessageType & 0x80) != 0, "metadata response flag", at);
    PBT_EQ(unsigned(md.ucSiblingId), unsigned(w.ucMessageType & 0x1f), "metadata sibling", at); PBT_EQ(unsigned(md.eTimeStatus), unsigned(uint8_t(w.uiTimeStatus)), "metadata time status", at);
    PBT_EQ(md.uiBinaryMsgLength, uint32_t(w.usLength), "metadata binary length", at); PBT_EQ(md.uiLength, uint32_t(it.text.size()), "frame length changed", at);
    auto* m = d.byId(w.usMessageId); PBT_EQ(md.messageName, m ? m->name : string("UNKNOWN"), "metadata message name", at);
}
PBT_GROUP(decode, 60000, 3000000)
{
    auto d = theDb(src); oem::HeaderDecoder hd(d.db); int f = int(src.draw(7)); ctx.label(kF[f]);
    auto it = genItem(src, d, ctx, f); ctx.feed(it.text); Hdr h; oem::MetaDataStruct md; put(md, it);
    auto st = decode(hd, it.text, h, md); PBT_CHECK(st == ne::STATUS::SUCCESS, "status ", int(st), " for ", kF[f], " header \"", pbt::esc(it.text), "\"");
    compare(d, it, h, md, "");
}
PBT_GROUP(history, 20000, 800000)
{ // objects reused for a sequence of messages report each message as fresh objects would, and a malformed header in between changes nothing for the next one
    auto d = theDb(src); oem::HeaderDecoder hd(d.db); Hdr h; oem::MetaDataStruct md; size_t n = src.size(2, 7); string all;
    for (size_t i = 0; i < n; ++i)
    {
        if (src.chance(1, 5))
        {
            string bad; switch (src.draw(3)) { case 0: bad = "<OK\r\n"; break; case 1: bad = "#" + d.msgs[0].name + "A,COM1,1\r\n"; break; case 2: bad = "<ERROR:" + src.alnum(5) + "\r\n"; break; default: bad = "$GPGGA,,*00\r\n"; }
            md.uiLength = uint32_t(bad.size()); auto st = decode(hd, bad, h, md); all += bad;
            if (bad[0] == '<') { PBT_CHECK(st == ne::STATUS::SUCCESS && md.bResponse && md.uiHeaderLength == 1 && md.usMessageId == 0 && md.ucSiblingId == 0 && (h.ucMessageType & 0x9f) == 0x80, "abbreviated response \"", pbt::esc(bad), "\" after \"", pbt::esc(all), "\" status ", int(st)); }
            else PBT_CHECK(st != ne::STATUS::SUCCESS, "malformed header accepted");
            ctx.label("interruption"); continue;
        }
        auto it = genItem(src, d, ctx, int(src.draw(7))); ctx.label(kF[it.f]); put(md, it);
        auto st = decode(hd, it.text, h, md); PBT_CHECK(st == ne::STATUS::SUCCESS, "status ", int(st)); all += it.text;
        compare(d, it, h, md, ", message " + std::to_string(i + 1) + " of a sequence");
    }
    ctx.feed(all);
}
struct EH { ne::STATUS st; string text; };
static EH encodeHdr(const oem::Encoder& enc, const Hdr& h, int f, size_t cap, bool embedded)
{
    using E = ne::ENCODE_FORMAT; E ef = f <= SASC ? E::ASCII : f <= SABB ? E::ABBREV_ASCII : f <= SBIN ? E::BINARY : E::JSON;
    std::unique_ptr<unsigned char[]> b(new unsigned char[cap ? cap : 1]); unsigned char* p = b.get(); ne::MessageDataStruct m; EH r;
    ne::HEADER_FORMAT hf = f == SJS ? ne::HEADER_FORMAT::SHORT_BINARY : f == JS ? ne::HEADER_FORMAT::BINARY : hfOf(f);
    try { r.st = enc.EncodeHeader(&p, uint32_t(cap), h, m, hf, ef, embedded); } catch (const std::exception& e) { pbt::fail("EncodeHeader threw ", e.what()); }
    if (r.st == ne::STATUS::SUCCESS) { PBT_CHECK(m.pucMessageHeader == b.get() && m.uiMessageHeaderLength <= cap, "reported header outside the buffer"); r.text.assign((char*)b.get(), m.uiMessageHeaderLength); }
    return r;
}
PBT_GROUP(encode, 30000, 1500000)
{
    auto d = theDb(src); oem::HeaderDecoder hd(d.db); oem::Encoder enc(d.db); int f = int(src.draw(7)); ctx.label(kF[f]);
    Item it; it.f = f; it.want = genValues(src, d, f, ctx); auto& h = it.want; string ref;
    if (src.chance(1, 6) && f != SBIN && f != BIN) { h.usMessageId = uint16_t(src.pick({1, 2, 700, 65000})); ctx.label("no definition"); }
    if (f >= BIN && f <= SBIN) { ref = refBinHeader(h, h.usLength, f == SBIN); h.ucMessageType &= 0x9f; if (src.coin()) h.ucMessageType |= 0x20; }
    else ref = refTextHeader(d, h, f >= JS ? T::JSON : f >= ABB ? T::ABB : T::ASCII, shortF(f));
    bool embedded = f == ABB && src.chance(1, 5);
    if (embedded) { ref = ref.substr(1, ref.size() - 3) + " "; ctx.label("embedded"); }
    ctx.feed(ref);
    auto big = encodeHdr(enc, h, f, 4096, embedded); PBT_CHECK(big.st == ne::STATUS::SUCCESS, "status ", int(big.st), " encoding ", kF[f]);
    // the length field is filled in with the body (C10, C13)
    auto noLength = [&](string t) { if (f == BIN && t.size() > 9) t[8] = t[9] = 0; if (f == SBIN && t.size() > 3) t[3] = 0; return t; };
    PBT_CHECK(noLength(big.text) == noLength(ref), kF[f], " header: \"", pbt::esc(big.text), "\" instead of \"", pbt::esc(ref), "\"");
    auto exact = encodeHdr(enc, h, f, ref.size() + 32, embedded); PBT_CHECK(exact.st == ne::STATUS::SUCCESS && exact.text == big.text, "with 32 bytes to spare");
    size_t cap = src.draw(ref.size() - 1); auto small = encodeHdr(enc, h, f, cap, embedded); PBT_CHECK(small.st == ne::STATUS::BUFFER_FULL, "header of ", ref.size(), " bytes encoded into ", cap, ": status ", int(small.st));
    if (embedded || !d.byId(h.usMessageId) ) return;
    it.headerLen = f >= JS ? 0 : big.text.size(); it.text = f >= JS ? "{\"header\": " + big.text + ",\"body\": {}}" : big.text + ((f >= BIN) ? "" : "1\r\n");
    Hdr g; oem::MetaDataStruct md; put(md, it); auto st = decode(hd, it.text, g, md); PBT_CHECK(st == ne::STATUS::SUCCESS, "status ", int(st), " decoding what was encoded \"", pbt::esc(it.text), "\"");
    if (f == SBIN) h.ucMessageType = 0; h.usLength = g.usLength; compare(d, it, g, md, ", encoded by the library");
}
PBT_GROUP(malformed, 20000, 800000)
{ // a header whose field is absent, out of the range of its type or starts with a character that no value of it starts with is refused
    auto d = theDb(src); oem::HeaderDecoder hd(d.db); int f = int(src.draw(3)); auto it = genItem(src, d, ctx, f); string t = it.text.substr(1); char sep = f <= SASC ? ',' : ' ';
    string head = t.substr(0, t.find(f <= SASC ? ";" : "\r\n")), tail = t.substr(head.size()); vector<string> p; size_t b = 0; for (;;) { size_t e = head.find(sep, b); p.push_back(head.substr(b, e == string::npos ? e : e - b)); if (e == string::npos) break; b = e + 1; }
    bool sh = p.size() == 3; PBT_CHECK(sh || p.size() == 10, "reference header"); size_t i; string was;
    // numeric positions
    vector<size_t> numeric = sh ? vector<size_t>{1, 2} : vector<size_t>{2, 3, 5, 6, 9}; vector<size_t> alpha = sh ? vector<size_t>{0} : vector<size_t>{0, 4}; if (f == ASC) alpha.push_back(1);
    switch (src.draw(4))
    {
    case 0: i = src.pick(numeric); p[i] = src.pick({string("-1"), string("x"), string(""), string("NaN"), string(".5")}); was = "number"; break;
    case 1: i = src.pick(alpha); p[i] = src.pick({string("9"), string("_X"), string(""), string("-")}) + p[i].substr(0, p[i].size() ? 0 : 0); was = "name"; break;
    case 2: i = sh ? 1 : src.pick({size_t(2), size_t(5), size_t(9)}); p[i] = std::to_string(65536 + src.draw(1000000)); was = "range"; break;
    case 3: if (sh) { p.pop_back(); i = 2; } else { i = src.range(1, 8); p.erase(p.begin() + long(i)); } was = "missing"; break;
    default: if (sh) throw pbt::Discard{}; i = src.pick({size_t(7), size_t(8)}); p[i] = src.pick({string("g0"), string("-1"), string("123456789"), string("")}); was = "hex"; break;
    }
    if (f == ABB && was == "missing" && i == 1) throw pbt::Discard{};
    string m = string(1, it.text[0]); for (size_t k = 0; k < p.size(); ++k) m += (k ? string(1, sep) : string()) + p[k]; m += tail;
    ctx.feed(m); ctx.label(was); ctx.mark(true); Hdr h; oem::MetaDataStruct md; put(md, it); md.uiLength = uint32_t(m.size()); auto st = decode(hd, m, h, md);
    PBT_CHECK(st == ne::STATUS::FAILURE, "status ", int(st), " for the malformed (", was, " field ", i, ") ", kF[f], " header \"", pbt::esc(m), "\"");
}
