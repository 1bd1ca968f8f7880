// C13: flattened binary has a size and field offsets that depend on the definition only and carries the values.
// LIBS: common dcommon oem
#include "casegen.hpp"
#include "flatlayout.hpp"
using namespace model;
PBT_PROPERTY("C13", "random definitions with two random value sets each, decoded from binary, ASCII or JSON and flattened; compared with an independent layout in which every array has its maximum size, and the fields are read back "
                    "at offsets computed from the definition alone; non-trivial = the definition has an array or a string that is not full in one of the two")
// layout computed from the definition alone: offset of every top-level field (its count, if it has one) and the total size
static uint64_t rd(const string& s, size_t at, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= uint64_t(uint8_t(s.at(at + i))) << (8 * i); return v; }
// read the values back at the offsets of the layout; unused elements must be zero
static void readBack(const string& s, size_t base, const Fields& fs, const Body& b, const string& path)
{
    Layout L = layoutOf(fs);
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; auto& v = b[i]; size_t at = base + L.data[i]; string where = path + "." + f.name + " " + kindName(f.kind) + "/" + f.dt;
        if ((f.kind == K::VAR || f.kind == K::ROWS) && f.lenRef.empty()) PBT_EQ(rd(s, base + L.off[i], f.lenSize), f.kind == K::ROWS ? v.rows.size() : v.e.size(), "element count of ", where);
        switch (f.kind)
        {
        case K::STR: for (size_t k = 0; k <= f.arr; ++k) PBT_EQ(int(uint8_t(s.at(at + k))), k < v.s.size() ? int(uint8_t(v.s[k])) : 0, "character ", k, " of ", where); break;
        case K::ROWS: {
            size_t n = layoutOf(f.sub).size, step = allFixed(f.sub) ? n : alignUp(n, f.len);
            for (size_t k = 0; k < f.arr; ++k)
            {
                if (k < v.rows.size()) readBack(s, at + k * step, f.sub, v.rows[k], where + "[" + std::to_string(k) + "]");
                else for (size_t q = 0; q < n; ++q) PBT_EQ(int(uint8_t(s.at(at + k * step + q))), 0, "unused element ", k, " of ", where);
            }
            break;
        }
        default:
            for (size_t k = 0; k < (f.kind == K::VAR || f.kind == K::FIXED ? f.arr : 1u); ++k) PBT_EQ(rd(s, at + k * f.len, f.len), k < v.e.size() ? v.e[k] : 0, "element ", k, " of ", where);
        }
    }
}
static bool full(const Fields& fs, const Body& b)
{
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i]; if (f.kind == K::STR && b[i].s.size() < f.arr) return false; if (f.kind == K::VAR && b[i].e.size() < f.arr) return false;
        if (f.kind == K::ROWS) { if (b[i].rows.size() < f.arr) return false; for (auto& r : b[i].rows) if (!full(f.sub, r)) return false; }
    }
    return true;
}
static string flatten(pbt::Src& src, const Case& c, const ne::CompositeField& cf, const Body& b, const Hdr& h, const char* from)
{
    oem::Encoder enc(c.d.db); bool sf = c.shortForm; ne::HEADER_FORMAT hf = sf ? ne::HEADER_FORMAT::SHORT_BINARY : ne::HEADER_FORMAT::BINARY;
    string want = refBinMsg(h, *c.fs, b, true, sf); size_t hl = sf ? 12 : 28;
    size_t bodyLen = want.size() - hl - 4; if (bodyLen > (sf ? 255u : 65535u)) throw pbt::Discard{};
    auto e = encode(enc, h, cf, hf, ne::ENCODE_FORMAT::FLATTENED_BINARY, want.size() + src.draw(40), src.byte(), src.draw(7));
    PBT_CHECK(e.st == ne::STATUS::SUCCESS, "flattening a message decoded from ", from, " failed with status ", int(e.st), " ", defText(*c.fs));
    Layout L = layoutOf(*c.fs);
    PBT_EQ(e.msg.size(), hl + L.size + 4, "size of the flattened message decoded from ", from, " ", defText(*c.fs));
    PBT_EQ(e.header.size(), hl, "reported header length"); PBT_CHECK(e.header + e.body == e.msg, "reported header and body are not the message");
    readBack(e.msg, hl, *c.fs, b, "");
    if (e.msg != want) { size_t k = 0; while (k < want.size() && k < e.msg.size() && want[k] == e.msg[k]) ++k; pbt::fail("flattened message decoded from ", from, " differs at ", k, ": ", pbt::hex(e.msg, 120), " instead of ", pbt::hex(want, 120), " ", defText(*c.fs)); }
    return e.msg;
}
PBT_GROUP(binary, 75000, 400000)
{
    Case c; Opt o; o.maxFields = 7; genCase(src, c, o); Body b2 = genBody(src, *c.fs, o, c.d);
    ctx.mark(!full(*c.fs, c.b) || !full(*c.fs, b2)); ctx.feed(c.msg); ctx.note(defText(*c.fs)); for (auto& f : *c.fs) ctx.label(kindName(f.kind));
    oem::MetaDataStruct md; Hdr h; auto cf = decodeCase(c, md, h, 0);
    string a = flatten(src, c, cf, c.b, c.h, "binary");
    Case c2 = c; c2.b = b2; c2.msg = refBinMsg(c2.h, *c.fs, b2, false, c2.shortForm); if (c2.shortForm && c2.msg.size() > 12 + 255 + 4) throw pbt::Discard{};
    oem::MetaDataStruct md2; Hdr h2; auto cf2 = decodeCase(c2, md2, h2, 0);
    string z = flatten(src, c2, cf2, b2, c2.h, "binary"); PBT_EQ(a.size(), z.size(), "flattened sizes of two messages of the same definition");
}
// bodies decoded from text hold their arrays in other containers
PBT_GROUP(text, 45000, 250000)
{
    Case c; Opt o; o.text = true; o.json = src.coin(); o.maxFields = 6; genCase(src, c, o); if (!plainFloats(*c.fs, c.b, o.json)) throw pbt::Discard{};
    ctx.mark(!full(*c.fs, c.b)); T t = o.json ? T::JSON : T::ASCII; string text = refTextMsg(c.d, c.h, *c.fs, c.b, t, c.shortForm); ctx.feed(text); ctx.note(defText(*c.fs)); ctx.label(o.json ? "json" : "ascii");
    oem::HeaderDecoder hd(c.d.db); oem::MessageDecoder dec(c.d.db); Exact buf(text); oem::MetaDataStruct md; Hdr h; md.uiLength = uint32_t(text.size());
    PBT_EQ(int(hd.Decode(buf.data(), h, md)), 0, "header"); ne::CompositeField cf; PBT_EQ(int(dec.Decode(buf.data() + md.uiHeaderLength, cf, md)), 0, "decode of ", pbt::esc(text));
    Body want = shown(*c.fs, c.b); if (o.json) settleFloats(*c.fs, want, extract(cf, *c.fs, *cf.GetFieldInfo()));
    flatten(src, c, cf, want, c.h, o.json ? "JSON" : "ASCII");
}
// a body that was only created from its definition flattens to zeros
PBT_GROUP(empty, 9000, 40000)
{
    Case c; Opt o; genCase(src, c, o); c.shortForm = false; auto def = c.d.db->GetMsgDef(int32_t(c.m->id)); PBT_CHECK(def != nullptr, "definition");
    ne::CompositeField cf(def->fieldInfo.at(c.crc)); ctx.mark(!allFixed(*c.fs)); ctx.feed(defText(*c.fs)); Hdr h = c.h;
    flatten(src, c, cf, emptyBody(*c.fs), h, "nothing");
}
