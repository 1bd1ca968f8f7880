// C12: decoding a reference text message yields the values it shows; converting it to any format gives the reference form of those values.
// LIBS: common dcommon oem
#include "model.hpp"
#include "casegen.hpp"
using namespace model;
PBT_PROPERTY("C12", "random definitions and text-representable values rendered by an independent renderer as ASCII, abbreviated ASCII or JSON; the decoded values are compared with the values shown "
                    "(floating-point numbers with the value of the printed digits) and the decoded message, encoded to every format, with the reference form of those values; "
                    "non-trivial = the definition has an array, a string, an enumeration, a field array or a floating-point conversion")
static ne::HEADER_FORMAT fmtOf(T t, bool shortForm) { return t == T::JSON ? ne::HEADER_FORMAT::JSON : t == T::ABB ? ne::HEADER_FORMAT::ABB_ASCII : shortForm ? ne::HEADER_FORMAT::SHORT_ASCII : ne::HEADER_FORMAT::ASCII; }

static void run(pbt::Src& src, pbt::Ctx& ctx, T t, bool convert)
{
    Case c; Opt o; o.text = true; o.json = t == T::JSON; o.maxFields = 7; genCase(src, c, o);
    if (!plainFloats(*c.fs, c.b, o.json)) throw pbt::Discard{};
    bool inter = false; for (auto& f : *c.fs) inter = inter || f.kind != K::SIMPLE || isFloat(f);
    string text = refTextMsg(c.d, c.h, *c.fs, c.b, t, c.shortForm);
    ctx.mark(inter); ctx.feed(text); ctx.note(defText(*c.fs)); for (auto& f : *c.fs) ctx.label(kindName(f.kind));
    Body want = shown(*c.fs, c.b);

    oem::HeaderDecoder hd(c.d.db); oem::MessageDecoder dec(c.d.db);
    Exact buf(text); oem::MetaDataStruct md; md.eFormat = fmtOf(t, c.shortForm); md.uiLength = uint32_t(text.size()); Hdr h;
    ne::STATUS st = hd.Decode(buf.data(), h, md);
    PBT_CHECK(st == ne::STATUS::SUCCESS, "header decode ", int(st), " of \"", pbt::esc(text.substr(0, 200)), "\"");
    ne::CompositeField cf; st = dec.Decode(buf.data() + md.uiHeaderLength, cf, md);
    PBT_CHECK(st == ne::STATUS::SUCCESS, "decode status ", int(st), " of \"", pbt::esc(text), "\" ", defText(*c.fs));
    Body got = extract(cf, *c.fs, *cf.GetFieldInfo());
    if (t == T::JSON) settleFloats(*c.fs, want, got);
    string x = diff(*c.fs, want, got);
    if (!x.empty()) pbt::fail("decoded value differs (shown vs decoded) ", x, " of \"", pbt::esc(text), "\" ", defText(*c.fs));
    if (!convert) return;
    // a second message decoded into the same body must not see the first
    oem::Encoder enc(c.d.db);
    Hdr hh = c.h; bool sf = c.shortForm;
    ne::HEADER_FORMAT hf = sf ? ne::HEADER_FORMAT::SHORT_BINARY : ne::HEADER_FORMAT::BINARY;
    for (auto [tt, ef] : {std::pair<T, ne::ENCODE_FORMAT>{T::ASCII, ne::ENCODE_FORMAT::ASCII}, {T::ABB, ne::ENCODE_FORMAT::ABBREV_ASCII}, {T::JSON, ne::ENCODE_FORMAT::JSON}})
    {
        auto e = encode(enc, hh, cf, hf, ef, 200000, src.byte());
        PBT_CHECK(e.st == ne::STATUS::SUCCESS, "encode status ", int(e.st), " format ", int(tt), " ", defText(*c.fs));
        string w = refTextMsg(c.d, c.h, *c.fs, want, tt, sf);
        if (e.msg != w) { size_t k = 0; while (k < w.size() && k < e.msg.size() && w[k] == e.msg[k]) ++k;
            pbt::fail("text converted from ", int(t), " to ", int(tt), " differs at ", k, ": got \"", pbt::esc(e.msg.substr(k > 20 ? k - 20 : 0, 80)), "\" want \"", pbt::esc(w.substr(k > 20 ? k - 20 : 0, 80)), "\" ", defText(*c.fs)); }
    }
    auto e = encode(enc, hh, cf, hf, ne::ENCODE_FORMAT::BINARY, 200000, src.byte());
    PBT_CHECK(e.st == ne::STATUS::SUCCESS, "binary encode status ", int(e.st), " ", defText(*c.fs));
    string w = refBinMsg(c.h, *c.fs, want, false, sf);
    if (e.msg != w) { size_t k = 0; while (k < w.size() && k < e.msg.size() && w[k] == e.msg[k]) ++k;
        pbt::fail("binary converted from ", int(t), " differs at ", k, " got ", pbt::hex(e.msg), " want ", pbt::hex(w), " of \"", pbt::esc(text), "\" ", defText(*c.fs)); }
}
PBT_GROUP(ascii, 20000, 200000) { run(src, ctx, T::ASCII, true); }
PBT_GROUP(abbreviated, 20000, 200000) { run(src, ctx, T::ABB, true); }
PBT_GROUP(json, 20000, 200000) { run(src, ctx, T::JSON, true); }
// responses: the text is kept and the id is the one whose description it is
PBT_GROUP(response, 12000, 60000)
{
    Opt o; o.maxFields = 2; Db d = genDb(src, o, 1); const Msg& m = d.msgs[0]; HdrOpt ho; Hdr h = genHdr(src, d, m, ho); h.ucMessageType |= 0x80; auto* re = d.byName("Responses"); int32_t id = 0; string text;
    switch (src.draw(3))
    {
    case 0: text = "OK"; id = 1; break;
    case 1: { auto& v = re->vals[src.draw(re->vals.size() - 1)]; text = "ERROR:desc " + v.second; id = int32_t(v.first); break; }
    case 2: text = "ERROR:" + src.over("abcde, ;.0123", src.size(1, 30)); break;
    default: text = src.over("abcdeXYZ, ;.0123\"", src.size(1, 30)); text = "Q" + text;
    }
    bool abb = src.chance(1, 3) && (text.compare(0, 2, "OK") == 0 || text.compare(0, 5, "ERROR") == 0);
    string msg = abb ? "<" + text + "\r\n" : refTextHeader(d, h, T::ASCII, false) + text; if (!abb) msg += num("*%08x\r\n", crc32ref(msg.substr(1)));
    ctx.feed(msg); ctx.mark(true); ctx.note(pbt::esc(text)); ctx.label(abb ? "abbreviated" : "ascii");
    oem::HeaderDecoder hd(d.db); oem::MessageDecoder dec(d.db); oem::Encoder enc(d.db); Exact buf(msg); oem::MetaDataStruct md; md.uiLength = uint32_t(msg.size()); Hdr hh;
    PBT_EQ(int(hd.Decode(buf.data(), hh, md)), 0, "header of ", pbt::esc(msg)); PBT_CHECK(md.bResponse, "response flag");
    ne::CompositeField cf; PBT_EQ(int(dec.Decode(buf.data() + md.uiHeaderLength, cf, md)), 0, "decode of ", pbt::esc(msg));
    PBT_CHECK(cf.GetFieldInfo() && cf.GetFieldInfo()->messageOrderedFields.size() == 2, "response fields");
    PBT_EQ(cf.GetFieldValueByName<int32_t>("response_id"), id, "response id of ", pbt::esc(text)); PBT_EQ(cf.GetFieldValueByName<string>("response_str"), text, "response text");
    auto ab = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::ABBREV_ASCII, 5000); PBT_CHECK(ab.msg == "<" + text + "\r\n", "abbreviated \"", pbt::esc(ab.msg), "\"");
    if (abb) return;
    auto as = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::ASCII, 5000); PBT_CHECK(as.msg == msg, "ASCII response re-encoded as \"", pbt::esc(as.msg), "\" instead of \"", pbt::esc(msg), "\"");
    string body; put(body, uint32_t(id), 4); body += text; string want = refBinHeader(h, body.size(), false) + body; put(want, crc32ref(want), 4);
    auto bin = encode(enc, hh, cf, md.eFormat, ne::ENCODE_FORMAT::BINARY, 5000); PBT_CHECK(bin.msg == want, "binary response ", pbt::hex(bin.msg), " instead of ", pbt::hex(want));
}
