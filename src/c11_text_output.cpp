// C11: ASCII, abbreviated ASCII and JSON output is exactly the reference rendering of the decoded values.
// LIBS: common dcommon oem
#include "model.hpp"
#include "casegen.hpp"
using namespace model;
PBT_PROPERTY("C11", "random definitions and values decoded from reference binary messages and encoded to ASCII, abbreviated ASCII and JSON; the output is compared byte for byte with an independent renderer; "
                    "non-trivial = the definition has a field array, a variable field, an enumeration or a floating-point conversion")
static bool finite(const Fields& fs, const Body& b)
{
    for (size_t i = 0; i < fs.size(); ++i)
    {
        if (fs[i].kind == K::ROWS) { for (auto& r : b[i].rows) if (!finite(fs[i].sub, r)) return false; }
        else if (isFloat(fs[i])) for (auto e : b[i].e) if (!std::isfinite(asDouble(fs[i], e))) return false;
    }
    return true;
}
PBT_GROUP(render, 60000, 400000)
{
    Case c; Opt o; o.maxFields = 7; o.extreme = true; genCase(src, c, o);
    bool inter = false; for (auto& f : *c.fs) inter = inter || f.var() || f.kind == K::ENUM || isFloat(f);
    ctx.mark(inter); ctx.feed(c.msg); ctx.note(defText(*c.fs)); for (auto& f : *c.fs) ctx.label(kindName(f.kind));
    oem::MetaDataStruct md; Hdr h; auto cf = decodeCase(c, md, h, 0);
    oem::Encoder enc(c.d.db);
    for (auto [t, ef] : {std::pair<T, ne::ENCODE_FORMAT>{T::ASCII, ne::ENCODE_FORMAT::ASCII}, {T::ABB, ne::ENCODE_FORMAT::ABBREV_ASCII}, {T::JSON, ne::ENCODE_FORMAT::JSON}})
    {
        if (t == T::JSON && !finite(*c.fs, c.b)) continue;
        auto e = encode(enc, h, cf, md.eFormat, ef, 200000, src.byte());
        PBT_CHECK(e.st == ne::STATUS::SUCCESS, "encode status ", int(e.st), " format ", int(t), " ", defText(*c.fs));
        string want = refTextMsg(c.d, c.h, *c.fs, c.b, t, c.shortForm);
        if (e.msg != want)
        {
            size_t k = 0; while (k < want.size() && k < e.msg.size() && want[k] == e.msg[k]) ++k;
            pbt::fail("text output differs at ", k, ": got \"", pbt::esc(e.msg.substr(k > 20 ? k - 20 : 0, 80)), "\" want \"", pbt::esc(want.substr(k > 20 ? k - 20 : 0, 80)), "\" ", defText(*c.fs), " ", show(*c.fs, c.b));
        }
        PBT_CHECK(e.msg.find(e.header) != string::npos && e.msg.find(e.body) != string::npos && !e.header.empty(), "header/body pointers");
        if (t == T::ASCII) PBT_CHECK(e.header + e.body == e.msg, "header + body is not the message");
    }
}

// responses: id and text; the text forms show the text (JSON both)
PBT_GROUP(response, 12000, 60000)
{
    Opt o; o.maxFields = 2; Db d = genDb(src, o, 1); const Msg& m = d.msgs[0]; HdrOpt ho; Hdr h = genHdr(src, d, m, ho); h.ucMessageType |= 0x80; if (src.chance(1, 3)) h.usMessageId = src.pick({1, 2, 700});
    auto* re = d.byName("Responses"); uint32_t id = src.coin() ? re->vals[src.draw(re->vals.size() - 1)].first : uint32_t(src.draw(400)); string text = src.pick(vector<string>{"OK", "ERROR:desc Invalid Message", "ERROR:Parameter 3 out of range", ""});
    if (src.coin()) text = src.over("ABCdef 0123:-_()%\"\\", src.size(1, 40)); if (src.chance(1, 8)) text += "\t";
    string body; put(body, id, 4); body += text; string msg = refBinHeader(h, body.size(), false) + body; put(msg, crc32ref(msg), 4); ctx.feed(msg); ctx.mark(!text.empty()); ctx.note(pbt::esc(text));
    oem::HeaderDecoder hd(d.db); oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); Exact buf(msg); oem::MetaDataStruct md; md.uiLength = uint32_t(msg.size()); Hdr hh;
    PBT_EQ(int(hd.Decode(buf.data(), hh, md)), 0, "header"); PBT_CHECK(md.bResponse, "response bit"); ne::CompositeField cf; ne::STATUS st = dec.Decode(buf.data() + md.uiHeaderLength, cf, md);
    PBT_EQ(int(st), 0, "response decode of ", pbt::hex(msg));
    // a body without text ends before its second field
    auto ascii = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::ASCII, 5000), abb = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::ABBREV_ASCII, 5000), json = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::JSON, 5000), bin = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::BINARY, 5000);
    PBT_CHECK(bin.st == ne::STATUS::SUCCESS && bin.msg == msg, "response re-encoded as ", pbt::hex(bin.msg), " instead of ", pbt::hex(msg));
    string a = refTextHeader(d, h, T::ASCII, false) + text; a += num("*%08x\r\n", crc32ref(a.substr(1)));
    PBT_CHECK(ascii.st == ne::STATUS::SUCCESS && ascii.msg == a, "ASCII response \"", pbt::esc(ascii.msg), "\" instead of \"", pbt::esc(a), "\"");
    PBT_CHECK(abb.st == ne::STATUS::SUCCESS && abb.msg == "<" + text + "\r\n", "abbreviated ASCII response \"", pbt::esc(abb.msg), "\" of \"", pbt::esc(text), "\"");
    string j = "{\"header\": " + refTextHeader(d, h, T::JSON, false) + ",\"body\": {\"response_id\": " + std::to_string(int32_t(id)) + ",\"response_str\": \"" + jesc(text) + "\"}}";
    PBT_CHECK(json.st == ne::STATUS::SUCCESS && json.msg == j, "JSON response \"", pbt::esc(json.msg), "\" instead of \"", pbt::esc(j), "\"");
}
// messages without any field
PBT_GROUP(no_fields, 4000, 20000)
{
    Opt o; Db d; d.enums = baseEnums(src); Msg m; m.name = genName(src); m.id = uint32_t(src.range(3, 600)); m.latest = 1; m.defs.push_back({1u, Fields{}}); d.msgs.push_back(m); d.load();
    HdrOpt ho; ho.shortForm = src.coin(); Hdr h = genHdr(src, d, m, ho); Fields fs; Body b; string msg = refBinMsg(h, fs, b, false, ho.shortForm); ctx.feed(msg); ctx.mark(true);
    oem::HeaderDecoder hd(d.db); oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); Exact buf(msg); oem::MetaDataStruct md; md.uiLength = uint32_t(msg.size()); Hdr hh;
    PBT_EQ(int(hd.Decode(buf.data(), hh, md)), 0, "header"); ne::CompositeField cf; PBT_EQ(int(dec.Decode(buf.data() + md.uiHeaderLength, cf, md)), 0, "decode");
    auto a = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::ASCII, 5000), j = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::JSON, 5000), bin = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::BINARY, 5000);
    string wa = refTextHeader(d, h, T::ASCII, ho.shortForm); wa += num("*%08x\r\n", crc32ref(wa.substr(1)));
    PBT_CHECK(a.msg == wa, "ASCII \"", pbt::esc(a.msg), "\" instead of \"", pbt::esc(wa), "\""); PBT_CHECK(bin.msg == msg, "binary ", pbt::hex(bin.msg), " instead of ", pbt::hex(msg));
    string wj = "{\"header\": " + refTextHeader(d, h, T::JSON, ho.shortForm) + ",\"body\": {}}"; PBT_CHECK(j.msg == wj, "JSON \"", pbt::esc(j.msg), "\" instead of \"", pbt::esc(wj), "\"");
}
// known finding: elements of BOOL arrays are read one byte apart while the message has them four bytes apart
PBT_KNOWN(bool_array, "KF-BOOL-ARRAY")
{
    pbt::Src s(uint64_t{1}); Db d; d.enums = baseEnums(s); Fld f; f.name = "b"; f.kind = K::FIXED; f.dt = "BOOL"; f.len = 4; f.conv = "%d"; f.arr = 3;
    Msg m; m.name = "BOOLS"; m.id = 9; m.latest = 1; m.defs = {{1, {f}}}; d.msgs.push_back(m); d.load();
    Body b(1); b[0].e = {1, 0, 1}; Hdr h; h.usMessageId = 9; h.uiPortAddress = 32; h.uiTimeStatus = 180; string msg = refBinMsg(h, m.defs[0].second, b, false, false);
    oem::HeaderDecoder hd(d.db); oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); Exact e(msg); oem::MetaDataStruct md; md.uiLength = uint32_t(msg.size()); Hdr g; ne::CompositeField cf;
    PBT_EQ(int(hd.Decode(e.data(), g, md)), 0, "header"); PBT_EQ(int(dec.Decode(e.data() + md.uiHeaderLength, cf, md)), 0, "body");
    auto r = encode(enc, g, cf, md.eFormat, ne::ENCODE_FORMAT::ASCII, 4096); PBT_CHECK(r.msg.find(";TRUE,FALSE,TRUE*") != string::npos, "ASCII of the BOOL array 1,0,1 is ", pbt::esc(r.msg));
}
