// C14: encoding into a buffer of any size succeeds inside it or reports that it is too small; the result does not depend on the size.
// LIBS: common dcommon oem
#include "casegen.hpp"
using namespace model;
PBT_PROPERTY("C14", "random definitions, values (including ones no text can represent) and headers, encoded in all five formats into exactly sized heap buffers (address sanitizer) of many sizes from 0 to beyond the message, compared with the encoding "
                    "into a large buffer; non-trivial = at least one size was refused and at least one was accepted")
static const ne::ENCODE_FORMAT kFormats[] = {ne::ENCODE_FORMAT::ASCII, ne::ENCODE_FORMAT::ABBREV_ASCII, ne::ENCODE_FORMAT::BINARY, ne::ENCODE_FORMAT::FLATTENED_BINARY, ne::ENCODE_FORMAT::JSON};
static const char* kNames[] = {"ASCII", "abbreviated ASCII", "binary", "flattened binary", "JSON"};
constexpr size_t kSlack = 64; // "moderately larger"
// bytes before and after the buffer that must not change
static Encoded guarded(const oem::Encoder& enc, const Hdr& h, const ne::CompositeField& cf, ne::HEADER_FORMAT hf, ne::ENCODE_FORMAT ef, size_t cap, pbt::Src& s)
{
    if (s.coin()) return encode(enc, h, cf, hf, ef, cap, s.byte(), s.draw(8));
    const size_t G = 96; vector<unsigned char> buf(cap + 2 * G, 0xA5); unsigned char* p = buf.data() + G; ne::MessageDataStruct md; Encoded r;
    try { r.st = enc.Encode(&p, uint32_t(cap), h, cf, md, hf, ef); } catch (const std::exception& ex) { pbt::fail("Encode threw ", ex.what()); }
    for (size_t i = 0; i < G; ++i) PBT_CHECK(buf[i] == 0xA5 && buf[G + cap + i] == 0xA5, "a byte outside the buffer of ", cap, " bytes was written");
    PBT_CHECK(p == buf.data() + G, "the caller's buffer pointer was moved");
    if (r.st == ne::STATUS::SUCCESS)
    {
        PBT_CHECK(md.pucMessage == p && md.uiMessageLength <= cap, "reported message lies outside the buffer"); r.msg.assign((char*)md.pucMessage, md.uiMessageLength);
        PBT_CHECK(md.pucMessageHeader >= p && md.pucMessageHeader + md.uiMessageHeaderLength <= p + cap, "reported header lies outside the buffer"); r.header.assign((char*)md.pucMessageHeader, md.uiMessageHeaderLength);
        PBT_CHECK(md.pucMessageBody >= p && md.pucMessageBody + md.uiMessageBodyLength <= p + cap, "reported body lies outside the buffer"); r.body.assign((char*)md.pucMessageBody, md.uiMessageBodyLength);
    }
    return r;
}
static void sizes(pbt::Src& src, pbt::Ctx& ctx, const oem::Encoder& enc, const Hdr& h, const ne::CompositeField& cf, ne::HEADER_FORMAT hf, size_t fi, const string& what)
{
    auto ef = kFormats[fi]; auto big = encode(enc, h, cf, hf, ef, 400000);
    ctx.feed(big.msg);
    bool refused = false, accepted = false;
    size_t n = big.st == ne::STATUS::SUCCESS ? big.msg.size() : 60;
    // a text line ends with its terminator and the header and the body are where they are reported to be
    if (big.st == ne::STATUS::SUCCESS)
    {
        size_t at = big.msg.find(big.header); PBT_CHECK(at != string::npos, "the reported header is not part of the message");
        PBT_CHECK(big.msg.find(big.body, at + big.header.size()) != string::npos, "the reported body is not part of the message after its header");
        if (fi != 4) PBT_CHECK(big.header + big.body == big.msg, "the message is not its header followed by its body: ", kNames[fi]);
    }
    size_t k = src.size(4, 24);
    for (size_t i = 0; i < k; ++i)
    {
        size_t cap = 0;
        switch (src.weighted({5, 3, 3, 2, 1}))
        {
        case 0: cap = src.draw(n); break;
        case 1: cap = n - std::min<size_t>(n, src.draw(12)); break;
        case 2: cap = n + src.draw(kSlack); break;
        case 3: cap = n + kSlack + src.draw(1000); break;
        default: cap = src.draw(3);
        }
        auto e = guarded(enc, h, cf, hf, ef, cap, src);
        if (e.st == ne::STATUS::SUCCESS)
        {
            accepted = true; PBT_CHECK(big.st == ne::STATUS::SUCCESS, "accepted with ", cap, " bytes but refused with plenty");
            PBT_CHECK(e.msg == big.msg && e.header == big.header && e.body == big.body, kNames[fi], " encoding into ", cap, " bytes differs from the encoding into plenty of space: \"", pbt::esc(e.msg.substr(0, 150)), "\" instead of \"", pbt::esc(big.msg.substr(0, 150)), "\" ", what);
        }
        else
        {
            refused = true;
            if (big.st == ne::STATUS::SUCCESS)
            {
                PBT_EQ(int(e.st), int(ne::STATUS::BUFFER_FULL), kNames[fi], " status with ", cap, " bytes for a message of ", n, " ", what);
                PBT_CHECK(cap < n + kSlack, kNames[fi], " encoding of a message of ", n, " bytes refused a buffer of ", cap, " ", what);
            }
        }
    }
    ctx.mark(refused && accepted); ctx.label(kNames[fi]);
}
PBT_GROUP(formats, 60000, 300000)
{
    Case c; Opt o; o.maxFields = 6; o.extreme = true; genCase(src, c, o); ctx.note(defText(*c.fs));
    oem::MetaDataStruct md; Hdr h; auto cf = decodeCase(c, md, h, 0); oem::Encoder enc(c.d.db); size_t fi = src.draw(4);
    sizes(src, ctx, enc, h, cf, md.eFormat, fi, defText(*c.fs));
}
// responses: abbreviated ASCII takes a path of its own
PBT_GROUP(responses, 12000, 50000)
{
    Opt o; Db d = genDb(src, o); oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); Hdr h; h.usMessageId = uint16_t(d.msgs[0].id); h.ucMessageType = 0x80;
    string body; put(body, src.draw(20), 4); body += src.alnum(src.size(0, 60)); Exact b(body);
    auto md = metaFor(h, ne::HEADER_FORMAT::BINARY, 28 + body.size() + 4, 28, body.size(), 0, "X"); md.bResponse = true; ne::CompositeField cf; PBT_EQ(int(dec.Decode(b.data(), cf, md)), 0, "response");
    ctx.note(pbt::hex(body)); size_t fi = src.draw(3); if (fi == 3) fi = 4; sizes(src, ctx, enc, h, cf, ne::HEADER_FORMAT::BINARY, fi, "response");
}
// bodies decoded from text
PBT_GROUP(from_text, 18000, 80000)
{
    Case c; Opt o; o.text = true; o.json = src.coin(); o.maxFields = 6; genCase(src, c, o); if (!plainFloats(*c.fs, c.b, o.json)) throw pbt::Discard{}; T t = o.json ? T::JSON : T::ASCII; string text = refTextMsg(c.d, c.h, *c.fs, c.b, t, c.shortForm); ctx.note(defText(*c.fs));
    oem::HeaderDecoder hd(c.d.db); oem::MessageDecoder dec(c.d.db); Exact buf(text); oem::MetaDataStruct md; Hdr h; md.uiLength = uint32_t(text.size());
    PBT_EQ(int(hd.Decode(buf.data(), h, md)), 0, "header of ", pbt::esc(text)); ne::CompositeField cf; if (dec.Decode(buf.data() + md.uiHeaderLength, cf, md) != ne::STATUS::SUCCESS) throw pbt::Discard{};
    oem::Encoder enc(c.d.db); size_t fi = src.draw(4); sizes(src, ctx, enc, h, cf, md.eFormat, fi, defText(*c.fs));
}
