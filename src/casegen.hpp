// One random message: definition, values, header and its reference binary form.
#pragma once
#include "model.hpp"
namespace model {
struct Case { Db d; const Msg* m; uint32_t crc; const Fields* fs; Body b; Hdr h; bool shortForm; string msg; };
inline void genCase(Src& s, Case& c, const Opt& o)
{
    c.d = genDb(s, o, s.size(1, 2)); c.m = &c.d.msgs[s.draw(c.d.msgs.size() - 1)];
    c.shortForm = s.chance(1, 4); HdrOpt ho; ho.shortForm = c.shortForm; c.h = genHdr(s, c.d, *c.m, ho);
    c.crc = c.m->defs[s.draw(c.m->defs.size() - 1)].first; 
    if (c.shortForm) { c.crc = c.m->latest; for (auto& [k, f] : c.m->defs) if (k == 0) c.crc = 0; } else c.h.uiMessageDefinitionCrc = hdrCrcFor(s, *c.m, c.crc);
    for (auto& [k, f] : c.m->defs) if (k == c.crc) c.fs = &f;
    c.b = genBody(s, *c.fs, o, c.d);
    c.msg = refBinMsg(c.h, *c.fs, c.b, false, c.shortForm);
    if (c.shortForm && c.msg.size() > 12 + 255 + 4) { throw pbt::Discard{}; }
}
inline ne::CompositeField decodeCase(Case& c, oem::MetaDataStruct& md, Hdr& h, size_t off)
{
    oem::HeaderDecoder hd(c.d.db); oem::MessageDecoder dec(c.d.db);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[c.msg.size() + off]); memcpy(buf.get() + off, c.msg.data(), c.msg.size());
    md.eFormat = c.shortForm ? ne::HEADER_FORMAT::SHORT_BINARY : ne::HEADER_FORMAT::BINARY; md.uiLength = uint32_t(c.msg.size());
    PBT_CHECK(hd.Decode(buf.get() + off, h, md) == ne::STATUS::SUCCESS, "header");
    ne::CompositeField cf; ne::STATUS st = dec.Decode(buf.get() + off + md.uiHeaderLength, cf, md);
    PBT_CHECK(st == ne::STATUS::SUCCESS, "decode status ", int(st), " ", defText(*c.fs)); return cf;
}
// the value a reader of the printed token recovers
inline uint64_t shown(const Fld& f, uint64_t e)
{
    if (!isFloat(f)) return e;
    string t = floatText(f, e, parseConv(f.conv)); uint64_t b = 0;
    if (f.len == 4) { float x = strtof(t.c_str(), nullptr); memcpy(&b, &x, 4); } else { double x = strtod(t.c_str(), nullptr); memcpy(&b, &x, 8); }
    return b;
}
inline Body shown(const Fields& fs, const Body& b)
{
    Body r = b;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        if (fs[i].kind == K::ROWS) for (auto& x : r[i].rows) x = shown(fs[i].sub, x);
        else for (auto& e : r[i].e) e = shown(fs[i], e);
    }
    return r;
}
// JSON numbers of single precision are read as double and narrowed: a second rounding may differ from the direct one in the last bit
// (and a number printed without a fraction is read as an integer, which has no negative zero)
inline void settleFloats(const Fields& fs, Body& want, const Body& got)
{
    for (size_t i = 0; i < fs.size() && i < got.size(); ++i)
    {
        if (fs[i].kind == K::ROWS) for (size_t r = 0; r < want[i].rows.size() && r < got[i].rows.size(); ++r) settleFloats(fs[i].sub, want[i].rows[r], got[i].rows[r]);
        else if (isFloat(fs[i]) && want[i].e.size() == got[i].e.size())
            for (size_t k = 0; k < want[i].e.size(); ++k) { if (floatText(fs[i], want[i].e[k], parseConv(fs[i].conv)).find_first_of(".eE") == string::npos && asDouble(fs[i], want[i].e[k]) == 0 && asDouble(fs[i], got[i].e[k]) == 0) want[i].e[k] = got[i].e[k]; }
        if (isFloat(fs[i]) && fs[i].len == 4)
            for (size_t k = 0; k < want[i].e.size() && k < got[i].e.size(); ++k)
            {
                uint64_t a = want[i].e[k], g = got[i].e[k];
                if (a != g && (a > g ? a - g : g - a) == 1) want[i].e[k] = g;
            }
    }
}
// a printed float may lie beyond the representable range or below the smallest normal number, where parsers legitimately differ
inline bool plainFloats(const Fields& fs, const Body& b, bool json)
{
    for (size_t i = 0; i < fs.size(); ++i)
    {
        if (fs[i].kind == K::ROWS) { for (auto& r : b[i].rows) if (!plainFloats(fs[i].sub, r, json)) return false; }
        else if (isFloat(fs[i]))
            for (auto e : b[i].e)
            {
                double v = asDouble(fs[i], e), mn = fs[i].len == 4 ? 2e-38 : 3e-308, mx = fs[i].len == 4 ? 3e38 : 1e308;
                if (v != 0 && (std::fabs(v) < mn || std::fabs(v) > mx)) return false;
                string tok = floatText(fs[i], e, parseConv(fs[i].conv)); double t = strtod(tok.c_str(), nullptr);
                if (json && tok.find_first_of(".eE") == string::npos && std::fabs(t) > 9e18) return false; // JSON integers have 64 bits
                if (t != 0 && (std::fabs(t) < mn || std::fabs(t) > mx)) return false;
            }
    }
    return true;
}
} // namespace model
