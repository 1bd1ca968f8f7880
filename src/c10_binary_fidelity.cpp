// C10: binary decode gives the values of the reference layout; binary encode reproduces the message.
// LIBS: common dcommon oem
#include "casegen.hpp"
using namespace model;
PBT_PROPERTY("C10", "random definitions (all field kinds, types, conversions, nested field arrays, count references, count field sizes) with random values and headers, laid out by an independent reference encoder; "
                    "non-trivial = the definition has a variable field, or an alignment gap, or a count field narrower than 4 bytes")
PBT_GROUP(decode_encode, 120000, 800000)
{
    Case c; Opt o; o.maxFields = 8; genCase(src, c, o);
    bool narrow = false, gap = false; { size_t p = 0; for (auto& f : *c.fs) { narrow = narrow || ((f.kind == K::VAR || f.kind == K::ROWS) && f.lenSize < 4); unsigned a = std::min(4u, f.len); gap = gap || p % a; p += f.len * (f.kind == K::FIXED ? f.arr : 1); } }
    ctx.mark(!allFixed(*c.fs) || gap || narrow); ctx.feed(c.msg); ctx.note(defText(*c.fs) + " " + std::to_string(c.msg.size()) + " bytes");
    for (auto& f : *c.fs) ctx.label(kindName(f.kind)); if (c.shortForm) ctx.label("short header");
    oem::MetaDataStruct md; Hdr h; auto cf = decodeCase(c, md, h, src.draw(3));
    PBT_CHECK(cf.GetFieldInfo() != nullptr, "no field info");
    auto got = extract(cf, *c.fs, *cf.GetFieldInfo()); string df = diff(*c.fs, c.b, got);
    PBT_CHECK(df.empty(), "decoded value differs: ", df, " in ", defText(*c.fs));
    oem::Encoder enc(c.d.db);
    for (int k = 0; k < 2; ++k)
    {
        auto e = encode(enc, h, cf, md.eFormat, ne::ENCODE_FORMAT::BINARY, c.msg.size() + src.draw(64), src.byte(), src.draw(7));
        PBT_CHECK(e.st == ne::STATUS::SUCCESS, "encode status ", int(e.st), " ", defText(*c.fs));
        PBT_CHECK(e.msg == c.msg, "re-encoded message differs: ", pbt::hex(e.msg, 120), " instead of ", pbt::hex(c.msg, 120), " ", defText(*c.fs));
        PBT_CHECK(e.header + e.body == c.msg, "reported header and body are not the message");
    }
}
// the same objects reused for different messages: results depend on the message only
PBT_GROUP(reuse, 24000, 150000)
{
    Opt o; Db d = genDb(src, o, 2); oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); ne::CompositeField cf; size_t n = src.size(2, 5); bool varied = false; const Msg* last = nullptr;
    for (size_t i = 0; i < n; ++i)
    {
        const Msg& m = d.msgs[src.draw(d.msgs.size() - 1)]; auto& [crc, fs] = m.defs[src.draw(m.defs.size() - 1)]; Body b = genBody(src, fs, o, d); HdrOpt ho; Hdr h = genHdr(src, d, m, ho);
        string msg = refBinMsg(h, fs, b, false, false); ctx.feed(msg); varied = varied || (last && last != &m); last = &m;
        Exact body(msg.substr(28, msg.size() - 32)); auto md = metaFor(h, ne::HEADER_FORMAT::BINARY, msg.size(), 28, body.n, crc, m.name);
        PBT_EQ(int(dec.Decode(body.data(), cf, md)), 0, "decode"); string df = diff(fs, b, extract(cf, fs, *cf.GetFieldInfo())); PBT_CHECK(df.empty(), "after reuse: ", df, " ", defText(fs));
        auto e = encode(enc, h, cf, ne::HEADER_FORMAT::BINARY, ne::ENCODE_FORMAT::BINARY, msg.size() + 32); PBT_CHECK(e.msg == msg, "after reuse the encoding differs ", defText(fs));
    }
    ctx.mark(varied);
}
// known finding: elements of BOOL arrays are kept one byte apart while the message has them four bytes apart
PBT_KNOWN(bool_array, "KF-BOOL-ARRAY")
{
    pbt::Src s(uint64_t{1}); Db d; d.enums = baseEnums(s); Fld f; f.name = "b"; f.kind = K::VAR; f.dt = "BOOL"; f.len = 4; f.conv = "%d"; f.arr = 3;
    Msg m; m.name = "BOOLS"; m.id = 9; m.latest = 1; m.defs = {{1, {f}}}; d.msgs.push_back(m); d.load();
    Body b(1); b[0].e = {1, 0, 1}; Hdr h; h.usMessageId = 9; h.uiPortAddress = 32; h.uiTimeStatus = 180; string msg = refBinMsg(h, m.defs[0].second, b, false, false);
    oem::HeaderDecoder hd(d.db); oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); Exact e(msg); oem::MetaDataStruct md; md.uiLength = uint32_t(msg.size()); Hdr g; ne::CompositeField cf;
    PBT_EQ(int(hd.Decode(e.data(), g, md)), 0, "header"); PBT_EQ(int(dec.Decode(e.data() + md.uiHeaderLength, cf, md)), 0, "body");
    auto r = encode(enc, g, cf, md.eFormat, ne::ENCODE_FORMAT::BINARY, msg.size() + 32); PBT_EQ(pbt::hex(r.msg), pbt::hex(msg), "re-encoded message with a BOOL array");
}
